"""Properties decided on histories of tuples: TLC walks the reference layout
model, drv_tuple replays walks and random histories on the library under ASan,
and TLC validates every recorded step with TupleTrace."""
import json, os, random, threading
from .common import *
from . import walks

PROFILES = {
    "C01": "mixed stretchy fixed tight opt wire coll null big managed wide",
    "C02": "tight misuse stretchy managed bigmanaged mixed big coll",
    "C03": "tight misuse null mixed big stretchy bigmanaged coll",
    "C04": "stretchy tight coll opt wire mixed managed big",
    "C05": "stretchy tight coll opt fixed big mixed managed",
    "C06": "opt opt stretchy coll opt mixed wide big",
    "C07": "wire nested wire big mixed managed coll wide",
    "C09": "null init fixed mixed null fixed stretchy coll",
    "C10": "coll opt coll tight coll wide coll managed",
    "C11": "iter wide iter wide iter wide iter wide",
    "C14": "init mixed init fixed init null init stretchy",
    "C17": "managed bigmanaged managed managed bigmanaged managed managed managed",
    "C28": "mixed stretchy fixed tight opt wire coll null big misuse nested bigmanaged wide",
}
HEAVY = {"iter": 0.45, "wide": 0.22, "big": 0.35, "bigmanaged": 0.35, "nested": 0.6, "init": 0.8}
LAYOUT = {"C01", "C02", "C03", "C04", "C05", "C06", "C10", "C28"}

QUICK_LAYOUTS = [
    dict(NL=2, NC=0, NS=1, Tiny="FALSE", MaxItems=1, Sizes="{1, 2, 3}", H0=3, T0=5),
    dict(NL=1, NC=1, NS=1, Tiny="TRUE", MaxItems=2, Sizes="{1, 2}", H0=3, T0=5),
    dict(NL=2, NC=1, NS=1, Tiny="FALSE", MaxItems=2, Sizes="{1, 3}", H0=3, T0=5),
]
DEEP_LAYOUTS = [
    dict(NL=2, NC=1, NS=1, Tiny="TRUE", MaxItems=2, Sizes="{1, 2, 3}", H0=3, T0=6),
    dict(NL=3, NC=0, NS=1, Tiny="FALSE", MaxItems=2, Sizes="{1, 2, 3}", H0=4, T0=6),
    dict(NL=1, NC=1, NS=2, Tiny="FALSE", MaxItems=3, Sizes="{1, 2}", H0=4, T0=6),
]


def history_of(script_path, k):
    """the k-th (from 1) history of a script"""
    out, n = [], 0
    with open(script_path) as f:
        for l in f:
            if l.strip() == "clear":
                n += 1
            if n == k:
                out.append(l)
            elif n > k:
                break
    return out


class Shard:
    def __init__(self, name, trace, script, redo):
        self.name, self.trace, self.script, self.redo = name, trace, script, redo


def judge(ctx, exe, shard, props):
    """None or Violation"""
    consts = {"Props": "{%s}" % ", ".join('"%s"' % p for p in props)}
    bad = ctx.validate("TupleTrace", shard.trace, consts, shard.name)
    if bad is None:
        return None
    at, failed = bad
    with open(shard.trace) as f:
        lines = f.read().splitlines()
    k = sum(1 for l in lines[:at] if l.startswith('{"e":"new"'))
    hist = history_of(shard.script, k)
    # confirm on the failing history alone
    s2 = ctx.path("confirm-%s.txt" % shard.name)
    t2 = ctx.path("confirm-%s.ndjson" % shard.name)
    with open(s2, "w") as f:
        f.writelines(hist)
    ctx.run_driver([exe, "script", s2, t2], s2, "history of " + shard.name)
    again = ctx.validate("TupleTrace", t2, consts, "confirm-" + shard.name)
    if again is None:
        # does it depend on what was before?
        shard.redo()
        again = ctx.validate("TupleTrace", shard.trace, consts, "again-" + shard.name)
        if again is None:
            raise Broken("a rejection of %s was not confirmed (event %d, %s)" % (shard.name, at, failed))
        s2, t2 = shard.script, shard.trace
    at, failed = again
    with open(t2) as f:
        lines = f.read().splitlines()
    ev = lines[at - 1][:3000]
    pre = lines[at - 2][:3000] if at > 1 else ""
    rep = ctx.save_replay("trace", [s2, t2], "driver: drv_tuple script <script> <trace>\nrejected by spec/TupleTrace.tla at event %d, violated: %s\nbefore: %s\nevent: %s"
                          % (at, failed, pre, ev))
    return Violation("event %d of a history (%s) is not a step of the specification: %s" % (at, shard.name, failed), rep)


def layout_walks(ctx, exe, props):
    """Model-checks the reference layout and replays its transitions."""
    deep = ctx.thorough()
    configs = DEEP_LAYOUTS if deep else [QUICK_LAYOUTS[0], QUICK_LAYOUTS[1 + ctx.seed % 2]]
    budget = 700000 if deep else 24000
    shards = []
    for n, c in enumerate(configs):
        cfg = "SPECIFICATION Spec\nCONSTANTS %s Emit = TRUE\nINVARIANTS Sound CompactOK NoLeak\nCHECK_DEADLOCK FALSE\n" % (
            " ".join("%s = %s" % kv for kv in c.items()))
        out = ctx.model("LayoutMC", cfg, "LayoutMC %s" % c, workers=NPROC, mem="8g")
        adj, facts, root = walks.parse(out)
        del out
        rng = random.Random(ctx.seed * 1000 + n)
        ws, covered, total = walks.cover(adj, root, rng, budget)
        per = 10000 if deep else 6000
        part, size, k = [], 0, 0
        groups = []
        for w in ws:
            part.append(w)
            size += len(w) + 1
            if size >= per:
                groups.append(part)
                part, size = [], 0
        if part:
            groups.append(part)
        for part in groups:
            k += 1
            sc = ctx.path("layout%d-%d.txt" % (n, k))
            genus = 3 if k % 4 == 3 else 0
            with open(sc, "w") as f:
                for w in part:
                    f.write("\n".join(walks.script(w, c, rng, genus)) + "\n")
            shards.append((sc, part, facts))
        ctx.cov.setdefault("layout_transitions", []).append({"config": c, "covered": covered, "of": total})
    agree = [0, 0]
    lock = threading.Lock()

    def one(x):
        sc, part, facts = x
        tr = sc.replace(".txt", ".ndjson")
        ctx.run_driver([exe, "script", sc, tr], sc, "replay of the layout model")
        ok = tot = 0
        with open(tr) as f:
            for w in part:
                f.readline()
                for op, res, s in w:
                    e = json.loads(f.readline())
                    tot += 1
                    ok += (e["s"]["h"], e["s"]["t"]) == facts[s] and (e["r"] == "ok") == res
        with lock:
            agree[0] += ok
            agree[1] += tot

        def redo():
            ctx.run_driver([exe, "script", sc, tr], sc, "replay of the layout model")
        r = judge(ctx, exe, Shard(os.path.basename(sc)[:-4], tr, sc, redo), props)
        os.unlink(tr)
        return r
    res = [r for r in pmap(one, shards) if r]
    # informative: an other placement policy is not a violation
    ctx.cov["layout_steps_equal_to_model"] = {"equal": agree[0], "of": agree[1]}
    return res


def random_shards(ctx, exe, props, profiles, rounds, events, tag=""):
    jobs = []
    for rd in range(rounds):
        for n, p in enumerate(profiles):
            jobs.append((rd, n, p))

    def one(j):
        rd, n, p = j
        ops = 24 + 16 * ((rd + n) % 3)
        hist = max(4, int(events * HEAVY.get(p, 1.0) / (ops + 1)))
        name = "%s%s-%d-%d" % (tag, p, rd, n)
        tr, sc = ctx.path(name + ".ndjson"), ctx.path(name + ".txt")
        seed = ctx.seed * 1000003 + rd * 1009 + n * 17 + sum(map(ord, ctx.prop))
        cmd = [exe, "random", p, str(seed), str(hist), str(ops), tr, sc]
        ctx.run_driver(cmd, sc, "random history " + name)
        r = judge(ctx, exe, Shard(name, tr, sc, lambda: ctx.run_driver(cmd, sc, name)), props)
        if rd == 0 and n == 0:
            ctx.cov["samples"] += history_of(sc, 1)[:6]
        os.unlink(tr)
        return r
    return [r for r in pmap(one, jobs) if r]


def check(ctx):
    p = ctx.prop
    exe = ctx.build(["drv_tuple"])["drv_tuple"]
    res = []
    prof = PROFILES[p].split()
    if p == "C28":
        plain = ctx.build(["drv_tuple"], "asan0")["drv_tuple"]
        res += random_shards(ctx, plain, [p], prof, 4 if ctx.thorough() else 1, 2500, "unoptimized-")
    if ctx.thorough():
        res += random_shards(ctx, exe, [p], prof, 12, 9000)
    else:
        res += random_shards(ctx, exe, [p], prof, max(1, 16 // len(prof)), 6500)
    if not res and p in LAYOUT:
        res += layout_walks(ctx, exe, [p])
    return res
