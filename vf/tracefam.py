"""Properties decided on recorded traces of a dedicated driver: the driver runs
the real library on seeded (and, where given, TLC-generated) inputs and writes
what it observed; TLC judges every event with the trace specification."""
import os, random, re
from .common import *
from . import walks


def judge(ctx, module, name, trace, consts, cmd, script, env, extra_files=()):
    bad = ctx.validate(module, trace, consts, name)
    if bad is None:
        os.unlink(trace)
        return None
    at, failed = bad
    first = open(trace).read().splitlines()
    ev = first[at - 1] if at <= len(first) else "?"
    ctx.run_driver(cmd, script, "trace " + name, env=env)
    again = ctx.validate(module, trace, consts, "again-" + name)
    if again is None:
        raise Broken("a rejection of %s was not confirmed (event %d, %s)" % (name, at, failed))
    rep = ctx.save_replay("trace", [script, trace] + list(extra_files),
                          "command: %s\nrejected by spec/%s.tla at event %d: %s\nevent: %s" % (" ".join(cmd), module, again[0], again[1], ev[:6000]))
    return Violation("recorded behaviour contradicts spec/%s.tla (%s), event: %s" % (module, name, ev[:700]), rep)


def run(ctx, exe, module, shards, props=None, consts=None, env=None):
    """shards: [(name, args-before-trace, script or None)]; the driver is called
    as `exe args... TRACE`."""
    c = {"Props": "{%s}" % ", ".join('"%s"' % p for p in (props or [ctx.prop]))}
    c.update(consts or {})

    def one(s):
        name, args, script = s[:3]
        tr = ctx.path(name + ".ndjson")
        cmd = [s[3] if len(s) > 3 else exe] + [str(a) for a in args] + [tr]
        ctx.run_driver(cmd, script, "trace " + name, env=env)
        if s is shards[0]:
            with open(tr) as f:
                ctx.cov["samples"] += [f.readline().strip()[:600] for _ in range(6)]
        try:
            return judge(ctx, module, name, tr, c, cmd, script, env)
        except Violation as v:
            return v
    res = []
    for r in pmap(one_guard(one), shards):
        if r:
            res.append(r)
    return res


def one_guard(fn):
    def g(s):
        try:
            return fn(s)
        except Violation as v:
            return v
    return g


def seeds(ctx, n, salt):
    return [ctx.seed * 1000003 + k * 17 + salt for k in range(n)]


# ------------------------------------------------------------------ C12
def numbers(ctx):
    exe = ctx.build(["drv_num"])["drv_num"]
    deep = ctx.thorough()
    ctx.model("NumbersMC", "SPECIFICATION Spec\nCONSTANTS Frac = %d Whole = 3 W = %d\nINVARIANTS OrderOK TruncOK NearestOK\nCHECK_DEADLOCK FALSE\n" % ((4, 7) if deep else (3, 6)), "NumbersMC", workers=NPROC)
    n, ev = (64, 20000) if deep else (16, 6000)
    return run(ctx, exe, "NumTrace", [("num-%d" % k, ["random", s, ev], None) for k, s in enumerate(seeds(ctx, n, 12))])


# ------------------------------------------------------------------ the C interface
def legacy(ctx):
    exe = ctx.build(["drv_legacy"])["drv_legacy"]
    deep = ctx.thorough()
    n, h, ops = (16, 1500, 60) if deep else (6, 300, 60)
    shards = []
    for p in ("roomy", "tight", "coll", "types"):
        for k, s in enumerate(seeds(ctx, n, sum(map(ord, ctx.prop + p)))):
            shards.append(("%s-%d" % (p, k), ["random", p, s, h, ops], None))
    if ctx.prop == "C25":
        for k, s in enumerate(seeds(ctx, n, 25)):
            shards.append(("cmp-%d" % k, ["cmp", s, 40000 if deep else 8000], None))
    return run(ctx, exe, "LegacyTrace", shards)


def capacity(ctx):
    exe = ctx.build(["drv_legacy", "drv_cap"])
    deep = ctx.thorough()
    res = run(ctx, exe["drv_cap"], "CapTrace",
              [("cap-%d" % k, [s, 60000 if deep else 10000], None) for k, s in enumerate(seeds(ctx, 48 if deep else 16, 27))])
    return res + run(ctx, exe["drv_legacy"], "LegacyTrace",
                     [("leg-%s-%d" % (p, k), ["random", p, s, 200, 60], None)
                      for p in ("roomy", "tight") for k, s in enumerate(seeds(ctx, 4, 2700))])


# ------------------------------------------------------------------ the auxiliary parts
def scans(ctx):
    exe = ctx.build(["drv_scan"], "plain")["drv_scan"]
    deep = ctx.thorough()
    shards = [("scan-%d" % k, [s, 140, 400 if deep else 60], None) for k, s in enumerate(seeds(ctx, 32 if deep else 8, 20))]
    shards += [("long-%d" % k, [s, 8191, 60 if deep else 20], None) for k, s in enumerate(seeds(ctx, 16 if deep else 8, 2000))]
    return run(ctx, exe, "ScanTrace", shards)


def misc(ctx, mode, module, quick, deep_n, extra=None):
    exe = ctx.build(["drv_misc"])["drv_misc"]
    deep = ctx.thorough()
    if extra:
        ctx.model(*extra)
    n, ev = deep_n if deep else quick
    return run(ctx, exe, module, [("%s-%d" % (mode, k), [mode, s, ev], None) for k, s in enumerate(seeds(ctx, n, sum(map(ord, mode))))])


def big(ctx):
    return ("BigMC", "SPECIFICATION Spec\nCONSTANTS Upto = %d\nINVARIANTS Representation Sums Products Order Bytes Digits Powers\nCHECK_DEADLOCK FALSE\n"
            % (300 if ctx.thorough() else 100), "BigMC", NPROC)


def times(ctx):
    return misc(ctx, "time", "TimeTrace", (16, 10000), (64, 60000), big(ctx))


def itoa(ctx):
    return misc(ctx, "itoa", "TextTrace", (16, 20000), (64, 150000), big(ctx))


def dtoa(ctx):
    return misc(ctx, "dtoa", "TextTrace", (16, 3000), (64, 16000), big(ctx))


def stamps(ctx):
    ctx.model(*big(ctx))
    return misc(ctx, "stamp", "StampTrace", (16, 5000), (64, 40000),
                ("CalendarMC", "SPECIFICATION Spec\nCONSTANTS Last = %d\nINVARIANTS Dates Counted\nCHECK_DEADLOCK FALSE\n"
                 % (84000 if ctx.thorough() else 49711), "CalendarMC", 1))


def tokens(ctx):
    return misc(ctx, "token", "TokenTrace", (16, 30000), (64, 200000),
                ("TokensMC", "SPECIFICATION Spec\nCONSTANTS Genera = {0, 7, 12} Places = {0, 1%s}\nINVARIANTS Total Strict Congruent EqualIsSame\nCHECK_DEADLOCK FALSE\n"
                 % (", 2" if ctx.thorough() else ""), "TokensMC", NPROC))


def views(ctx):
    return misc(ctx, "view", "ViewTrace", (16, 8000), (64, 40000))


# ------------------------------------------------------------------ schemas
def schema_script(out, keep, rnd):
    """Histories printed by SchemaMC -> lines of the script of drv_schema."""
    o = []
    for l in out.splitlines():
        if not l.startswith('"HIST#') or rnd.random() >= keep:
            continue
        o.append("H")
        for m in re.finditer(r'<<"(\w+)", <<([\d, ]*)>>, (\d+), (\d+), (\d+), (\d+), (\d+), (\d+)>>', l.replace('\\"', '"')):
            op, nm, k, g, x, c, d, ren = m.groups()
            o.append("D %s %s %s %s %s %s 0 %s n%s" % (op, k, g, x, c, d, ren, "".join("%02x" % int(b) for b in nm.split(",") if b.strip())))
    return o


def schemas(ctx):
    exe = ctx.build(["drv_schema"])["drv_schema"]
    deep = ctx.thorough()
    out = ctx.model("SchemaMC", "SPECIFICATION Spec\nCONSTANTS Depth = 3 Emit = TRUE\nINVARIANTS Unique Disjoint OneToOne Neighbours Kept Print_\nCHECK_DEADLOCK FALSE\n", "SchemaMC", workers=NPROC)
    lines = schema_script(out, 1 if deep else 0.15, random.Random(ctx.seed))
    heads = [k for k, l in enumerate(lines) if l == "H"]
    if len(heads) < 1000:
        raise Broken("no histories from SchemaMC")
    parts = 32 if deep else 8
    shards = []
    for p in range(parts):
        a, b = heads[p * len(heads) // parts], (heads[(p + 1) * len(heads) // parts] if p + 1 < parts else len(lines))
        f = ctx.path("hist-%d.script" % p)
        open(f, "w").write("\n".join(lines[a:b]) + "\n")
        shards.append(("hist-%d" % p, ["script", f], f))
    ctx.cov["histories_from_model"] = len(heads)
    for k, s in enumerate(seeds(ctx, 64 if deep else 16, 13)):
        shards.append(("schema-%d" % k, ["random", s, 400 if deep else 60, 30], None))
    for k, s in enumerate(seeds(ctx, 24 if deep else 4, 1300)):
        shards.append(("long-%d" % k, ["long", s, 0], None))
    return run(ctx, exe, "SchemaTrace", shards)


# ------------------------------------------------------------------ managed tuples
HANDLE_OPS = "new write put drop copy assign movec movea swap purge wpurge w2r w2rc w2ro r2w r2wc rwclone rwcloner roclone roclonew take ext nest nest2 nestw fill opt"


def handles(ctx):
    deep = ctx.thorough()
    exe = ctx.build(["drv_handles"])["drv_handles"]
    rnd = random.Random(ctx.seed)
    shards = []
    ops = HANDLE_OPS.split()
    # (slots, values, depth, operations)
    worlds = [(2, 1, "{1}", 2, [o for o in ops if o not in ("movec", "w2rc", "r2wc", "nest2", "take", "ext", "fill", "opt", "assign", "swap", "roclone", "w2ro")]),
              (2, 2, "{1}", 1, ["new", "write", "copy", "movea", "purge", "w2r", "r2w", "rwclone", "rwcloner", "roclonew", "wmovea", "wswap", "wpurge"]),
              (2, 1, "{1}", 1, ops)]
    if deep:
        worlds += [(3, 1, "{1}", 1, ["new", "write", "copy", "assign", "movea", "swap", "purge", "w2r", "r2w", "rwcloner", "roclonew"]),
                   (2, 1, "{1, 2}", 2, ["new", "write", "put", "drop", "copy", "movea", "purge", "w2r", "r2w", "rwcloner", "roclonew", "nest", "nestw", "fill"])]
    nh = 0
    for n, (nr, nw, vals, depth, oo) in enumerate(worlds):
        out = ctx.model("HandlesMC", "SPECIFICATION Spec\nCONSTANTS NR = %d NW = %d Values_ = %s MaxDepth = %d Emit = TRUE\nOps = {%s}\nINVARIANTS Counted Exclusive\nCHECK_DEADLOCK FALSE\n"
                        % (nr, nw, vals, depth, ", ".join('"%s"' % o for o in oo)), "HandlesMC-%d" % n, workers=NPROC)
        adj, _, root = walks.parse(out)
        ws, done, total = walks.cover(adj, root, rnd, 10**9 if deep else 30000, 300)
        ctx.cov.setdefault("graph", []).append({"model": "HandlesMC-%d" % n, "transitions_covered": done, "of": total})
        lines = []
        for w in ws:
            wmap = rnd.sample(range(3), 3)
            rmap = rnd.sample(range(3), 3)
            lines.append("B %d" % rnd.randrange(2))
            for op, ok, _ in w:
                o, a, b = op
                lw, rw_ = handle_args(o)
                lines.append("%s %d %d" % (o, (wmap if lw == "w" else rmap)[a - 1],
                                           b if rw_ == "v" else (wmap if rw_ == "w" else rmap)[b - 1]))
        nh += len(ws)
        heads = [k for k, l in enumerate(lines) if l[0] == "B"]
        parts = min(len(heads), 16 if deep else 4)
        for p in range(parts):
            f = ctx.path("walk-%d-%d.script" % (n, p))
            a = heads[p * len(heads) // parts]
            b = heads[(p + 1) * len(heads) // parts] if p + 1 < parts else len(lines)
            open(f, "w").write("\n".join(lines[a:b]) + "\n")
            shards.append(("walk-%d-%d" % (n, p), ["script", f], f))
    ctx.cov["histories_from_model"] = nh
    for k, s in enumerate(seeds(ctx, 64 if deep else 16, 15)):
        shards.append(("handles-%d" % k, ["random", s, 2000 if deep else 200, 60], None))
    return run(ctx, exe, "HandlesTrace", shards)


def handle_args(o):
    if o in ("write", "fill"):
        return "w", "v"
    if o in ("new", "drop", "reset", "opt", "wpurge", "putw", "wmovec", "wmovea", "wswap", "rwclone"):
        return "w", "w"
    if o in ("put", "r2w", "r2wc", "rwcloner"):
        return "w", "r"
    if o in ("purge", "copy", "assign", "movec", "movea", "swap", "roclone", "nest", "nest2"):
        return "r", "r"
    return "r", "w"


# ------------------------------------------------------------------ nested tuples
def nested(ctx):
    exe = ctx.build(["drv_nested"])["drv_nested"]
    deep = ctx.thorough()
    shards = [("nested-%d" % k, [s, 500 if deep else 60, 150, 2500], None) for k, s in enumerate(seeds(ctx, 48 if deep else 16, 21))]
    shards += [("large-%d" % k, [s, 60 if deep else 12, 200, 60000], None) for k, s in enumerate(seeds(ctx, 24 if deep else 4, 2100))]
    return run(ctx, exe, "NestedTrace", shards)


# ------------------------------------------------------------------ threads
def threads(ctx):
    deep = ctx.thorough()
    for n, (th, mh, mc) in enumerate([("{a, b, c}", 2, 3), ("{a, b, c, d}", 2, 2)] + ([("{a, b, c}", 3, 4), ("{a, b, c, d}", 2, 3)] if deep else [])):
        ctx.model("Refcount", "SPECIFICATION Spec\nCONSTANTS Threads = %s MaxHandles = %d MaxCopies = %d\na = a\nb = b\nc = c\nd = d\n"
                  "INVARIANTS Once NoUseAfter NoLeak Exclusive\nPROPERTY Implements\nCHECK_DEADLOCK FALSE\n" % (th, mh, mc), "Refcount-%d" % n, workers=NPROC)
    # all interleavings of small scenarios by an own scheduler
    exe = ctx.build(["drv_threads"], "sched")["drv_threads"]
    shards = []
    for k, s in enumerate(seeds(ctx, 64 if deep else 16, 16)):
        b = 2 + k % (3 if deep else 2)
        shards.append(("sched-%d" % k, ["sched", s, 60 if deep else 20, 120000 if deep else 15000, b], None))
    res = run(ctx, exe, "ThreadsTrace", shards)
    if res:
        return res
    # real threads under the thread sanitizer: its report or a rejected trace
    # stands by itself, since the schedule cannot be repeated
    exe = ctx.build(["drv_threads"], "tsan")["drv_threads"]

    def one(s):
        tr = ctx.path("free-%d.ndjson" % s)
        cmd = [exe, "free", str(s), "3000" if deep else "400", "300", tr]
        rc, out = sh(cmd, 300, ASAN_ENV)
        if rc == 3:
            raise Broken("driver refused %s: %s" % (cmd, out[-1500:]))
        if rc:
            rep = ctx.save_replay("race", [], "command: %s\nexit code: %s\n%s" % (" ".join(cmd), rc, out[-20000:]))
            m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)", out)
            return Violation("threads: %s" % (m.group(1) if m else "hang" if rc == -999 else "exit code %s" % rc), rep)
        bad = ctx.validate("ThreadsTrace", tr, {"Props": '{"C16"}'}, "free-%d" % s)
        if bad:
            ev = open(tr).read().splitlines()[bad[0] - 1]
            return Violation("threads: " + ev, ctx.save_replay("threads", [tr], "command: %s\nrejected at event %d: %s" % (" ".join(cmd), bad[0], ev)))
        return None
    return [v for v in pmap(one, seeds(ctx, 32 if deep else 8, 1600), 3) if v]


CHECKS = {"C21": (nested, "nested"), "C16": (threads, "threads"), "C15": (handles, "handles"), "C13": (schemas, "schema"), "C20": (scans, "scan"), "C22": (times, "time"), "C23": (itoa, "none"), "C24": (tokens, "token"), "C26": (views, "none"), "C29": (dtoa, "none"), "C30": (stamps, "none"),
          "C12": (numbers, "num"), "C18": (legacy, "legacy"), "C19": (legacy, "legacy"), "C25": (legacy, "legacy"),
          "C27": (capacity, "cap")}
