import os, sys, traceback
from . import common
from .common import Ctx, Broken, Violation, known_findings

ASSUME = {
    "schema": ["Names, types, places and identifiers are sampled outside of the exhaustively explored small world."],
    "nested": ["Lack of room in tuples of a fixed size isn't judged here (C03 does)."],
    "threads": ["Interleavings are sequentially consistent and switch at accesses to headers of buffers only.", "An original handle is not dropped while another thread copies from it."],
    "handles": ["Histories longer than the explored ones behave alike; the allocator doesn't fail."],
    "image": ["the block of bytes is aligned to 4 bytes", "nested tuples are validated separately, by their own validation"],
    "num": ["numbers are normal or zero; the library is built with -ffast-math"],
    "legacy": ["which of several fields of the same column and type an update or upsert takes is not defined",
               "not-a-number values are excluded: the library is built with -ffast-math"],
    "cap": ["tuples are filled from scratch or from a copy, without releasing fields between"],
    "scan": ["variants which the processor of the sandbox can't run are not examined", "the index is aligned to 4 bytes"],
    "time": ["whole seconds fit 32 bits", "the clock isn't stepped back within a call"],
    "token": ["the size reported by tokens of stretchy C++ members isn't judged"],
    "tuple": ["values are compared byte for byte up to 64 bytes, longer ones by length and three checksums",
              "histories are sequential; fixed-capacity tuples of at most 14 fields of 27 genera",
              "not-a-number values are excluded: the library is built with -ffast-math"],
}


_T = ("TLA+/TLC: trace validation of recorded histories of the real library (ASan build) against spec/TupleTrace.tla"
      " over the data model (Tuple), the serialized form (Wire) and the space rules (Space)")
_L = ("; exhaustive exploration of the reference layout model (spec/LayoutMC.tla), its transitions replayed on the real library")
_N = "Bounded: seeded random histories plus%s walks over the layout model; conformance of the explored histories, not a proof over all of them."


def _tuple(p):
    from . import tuplefam
    lay = p in tuplefam.LAYOUT
    return {"technique": _T + (_L if lay else ""), "note": _N % (" edge-covering" if lay else " no")}


INFO = {p: _tuple(p) for p in "C01 C02 C03 C04 C05 C06 C07 C09 C10 C11 C14 C17 C28".split()}
INFO["C08"] = {"technique": "TLA+/TLC: exhaustive enumeration of tiny serialized forms (spec/WireMC.tla, theorems about the format checked on each), replayed on the library (ASan, exactly sized blocks); verdicts and shown contents of these and of damaged images of random tuples judged by spec/ImageTrace.tla",
               "note": "Bounded: images up to 4 units over small alphabets (5 in thorough), damaged ones up to 150 units. The sorted flag, references into a string pool, and the unused half of preplaced places are not judged."}
INFO["C12"] = {"technique": "TLA+/TLC: exact-number model (spec/Numbers.tla, its theorems checked exhaustively in a small world by NumbersMC); recorded writes and reads through every numeric way of the API judged by spec/NumTrace.tla",
               "note": "Bounded: seeded numbers biased to limits of types, powers of two and halfway cases; subnormal and not-a-number values are excluded (the library is built with -ffast-math)."}
_LN = "Bounded: seeded random histories of C calls over up to 6 columns and 16 types in four profiles."
_LT = "TLA+/TLC: trace validation of recorded histories of C calls (ASan build) against spec/LegacyTrace.tla: the tuple as a bag of <<column, type, value>>, the rules of space (Space), "
INFO["C18"] = {"technique": _LT + "codes of outcomes", "note": _LN}
INFO["C19"] = {"technique": _LT + "lookups and filters as set comprehensions over the index", "note": _LN}
INFO["C25"] = {"technique": _LT + "the order of byte strings", "note": _LN + " Comparing of whole fields and tuples isn't implemented in this version of the library."}
INFO["C27"] = {"technique": "TLA+/TLC: creations of tuples by every way with exactly sized buffers (ASan) and fills of what was declared, judged by spec/CapTrace.tla (and spec/LegacyTrace.tla for fetched copies)",
               "note": "Bounded: seeded declarations biased to the limits of the format, up to 60 fields of any type or all declared ones of in-place types."}
INFO["C20"] = {"technique": "TLA+/TLC: every variant of the scan run on indexes placed at edges of accessible memory among decoys, results judged by spec/ScanTrace.tla (the least matching position; the sequential search proven to give it on small indexes)",
               "note": "Bounded: all lengths up to 140 with the first match at every position, seeded lengths up to 8191; seeded placements, contents and modes of the FPU (FTZ/DAZ). Which bytes are read within an accessible page is not judged, only that these never matter."}
INFO["C22"] = {"technique": "TLA+/TLC: recorded conversions judged by spec/TimeTrace.tla with arithmetic of unlimited naturals (spec/Big.tla, checked against TLC integers by BigMC) and exact binary numbers (spec/Numbers.tla)",
               "note": "Bounded: seeded stamps and counts biased to limits and to rounding edges."}
INFO["C23"] = {"technique": "TLA+/TLC: recorded texts in exactly sized blocks (ASan) judged by spec/TextTrace.tla with unlimited naturals (spec/Big.tla, checked by BigMC)",
               "note": "Bounded: seeded integers biased to powers of ten and two, and to runs of zeros."}
INFO["C30"] = {"technique": "TLA+/TLC: recorded texts of stamps, bytes and types judged by spec/StampTrace.tla: the text is read back by the calendar (spec/Calendar.tla, checked day by day by CalendarMC) and unlimited naturals (spec/Big.tla) and compared with the stamp",
               "note": "Bounded: seeded stamps biased to edges of days, months and years, limits of seconds, and to fractions at edges of nanoseconds."}
INFO["C13"] = {"technique": "TLA+/TLC: model of the dictionary (spec/Schema.tla), all short histories of a small world checked by SchemaMC and replayed on the library, longer seeded ones recorded; judged by spec/SchemaTrace.tla",
               "note": "Bounded: exhaustive histories of 3 definitions out of 33 (quick: a seeded sample of them), seeded histories up to 120 definitions, runs up to the limits of identifiers and offsets. Opaque structures (work in progress upstream) aren't covered."}
INFO["C15"] = {"technique": "TLA+/TLC: what holders of handles see (spec/Handles.tla) refined by buffers with counters (spec/HandlesMC.tla, exhaustive in small worlds); walks over its transitions and seeded histories run on the library with a counting allocator under ASan, judged by spec/HandlesTrace.tla",
               "note": "Bounded: 2-3 read-only and 1-2 writable handles exhaustively (quick: walks up to a budget of steps), 3+3 handles in seeded histories."}
INFO["C16"] = {"technique": "TLA+/TLC: the counting protocol (spec/Refcount.tla) implements what owners see (spec/Sharing.tla), checked for all interleavings; the library compiled with calls at each memory access runs small scenarios under an own scheduler through all interleavings within a bound of preemptions, each distinct recorded one judged by spec/ThreadsTrace.tla; plus real threads under the thread sanitizer",
               "note": "Bounded: 3-4 threads, up to 6 operations each, 2-3 preemptions exhaustively up to a budget of schedules, then random ones. Sequentially consistent interleavings; weaker orders only as far as the thread sanitizer sees them."}
INFO["C21"] = {"technique": "TLA+/TLC: tuples as trees (spec/Nested.tla); seeded histories of putting tuples into loose, preplaced and repeated fields of others (and of themselves), extracting, changing and compacting them run on the library in exactly sized blocks under ASan, the whole trees read in five ways and judged by spec/NestedTrace.tla",
               "note": "Bounded: three tuples, images up to 2.5 and 60 KB, depth of some dozens of levels."}
INFO["C24"] = {"technique": "TLA+/TLC: model of tokens (spec/Tokens.tla; order and sameness theorems checked exhaustively in a small world by TokensMC), recorded tokens judged by spec/TokenTrace.tla",
               "note": "Bounded: seeded attributes biased to limits."}
INFO["C26"] = {"technique": "TLA+/TLC: recorded comparisons and accesses in exactly sized blocks (ASan) judged by spec/ViewTrace.tla (the order proven total on a small world)",
               "note": "Bounded: pairs of strings up to 3 bytes of 3 letters (sampled to 1/8 per shard), seeded ones up to 257 bytes."}
INFO["C29"] = {"technique": "TLA+/TLC: recorded texts in exactly sized blocks (ASan) read back by spec/TextTrace.tla with unlimited naturals (spec/Big.tla, checked by BigMC) and compared with the halves of gaps around the number",
               "note": "Bounded: seeded doubles biased to powers of two and ten, subnormals and short decimals. Whether the text is the shortest isn't judged (the code promises it for most of numbers only)."}
NOT_APPLICABLE = {}


def family(prop):
    from . import tuplefam
    if prop in tuplefam.PROFILES:
        return tuplefam.check, "tuple"
    if prop == "C08":
        from . import imagefam
        return imagefam.check, "image"
    from . import tracefam
    if prop in tracefam.CHECKS:
        return tracefam.CHECKS[prop]
    raise SystemExit("no check for " + prop)


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(prop, tier, seed)
    rc = 0
    try:
        fn, fam = family(prop)
        ctx.assumptions = list(ASSUME.get(fam, []))
        for k in known_findings(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        try:
            vs = fn(ctx) or []
        except Violation as v:
            vs = [v]
        ctx.violations = vs
        for v in vs:
            print(v.what[:1500])
            print("VIOLATION property=%s replay=%s" % (prop, v.replay))
            rc = 1
    except Broken as b:
        print("BROKEN: %s" % b)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if rc != 2:
            ctx.evidence("model_checking")
        ctx.cleanup()
    print("%s %s: %s in %.0f s, %d states, %d events" % (prop, tier, ["held", "VIOLATED", "no answer"][rc],
          __import__("time").time() - ctx.t0, ctx.cov["states"], ctx.cov["events_checked"]))
    sys.stdout.flush()
    return rc
