"""C08: verdicts about arbitrary blocks of bytes.  TLC enumerates tiny images
(WireMC), the driver damages images of random tuples; TLC judges the verdicts
and the shown contents of all of them with ImageTrace."""
import os, random
from .common import *
from .tuplefam import history_of

ALL = "ReadsInside Partition SizeAgrees Balance Show"


def cfg(n, pu, offs, genera, holes, lo, hi):
    return ("SPECIFICATION Spec\nCONSTANTS N = %d PU = %d Offs = {%s} Genera = {%s} Holes = {%s} PayLo = {%s} PayHi = {%s} Emit = TRUE\n"
            "INVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % (n, pu, offs, genera, holes, lo, hi, ALL))


QUICK = [(3, 0, "0,1,2", "0,1,2,3,7,8", "0,1,2047", "0,1,2,3,7,254", "0,1"),
         (4, 0, "0,1,2,3", "0,1,2,3,7,8,13", "0,1,2", "0,1,2,3,4,7", "0,1"),
         (4, 1, "0,1,2", "0,1,3,8", "0,1", "0,1,2,3,7", "0,1")]
DEEP = QUICK + [(5, 0, "0,1,2,3", "0,1,3,8", "0,1,2", "0,1,2,3,7", "0,1"),
                (5, 1, "0,1,2,3", "0,1,3,8", "0,1,2", "0,2,3,7", "0"),
                (4, 0, "0,1,2,3,65535", "0,1,2,3,4,5,6,7,8,12,13,26,30", "0,1,2,3,2047", "0,1,2,3,7,11,253,254,255,511,65535", "0,1,3")]


def judge(ctx, exe, name, sc, tr, cmd):
    consts = {"Props": '{"C08"}'}
    bad = ctx.validate("ImageTrace", tr, consts, name)
    if bad is None:
        os.unlink(tr)
        return None
    at, failed = bad
    lines = open(tr).read().splitlines()
    k = sum(1 for l in lines[:at] if l.startswith('{"e":"cfg"'))
    s2, t2 = ctx.path("confirm-%s.txt" % name), ctx.path("confirm-%s.ndjson" % name)
    with open(s2, "w") as f:
        f.writelines(history_of(sc, k))
    ctx.run_driver([exe, "script", s2, t2], s2, "images of " + name)
    again = ctx.validate("ImageTrace", t2, consts, "confirm-" + name)
    if again is None:
        raise Broken("a rejection of %s was not confirmed (event %d)" % (name, at))
    ev = open(t2).read().splitlines()[again[0] - 1][:6000]
    rep = ctx.save_replay("image", [s2, t2], "driver: drv_tuple script <script> <trace>\nrejected by spec/ImageTrace.tla at event %d: %s\nevent: %s" % (again[0], again[1], ev))
    return Violation("the verdict about an image, or what is shown of it, contradicts the format (%s)" % name, rep)


def check(ctx):
    exe = ctx.build(["drv_tuple"])["drv_tuple"]
    deep = ctx.thorough()
    rng = random.Random(ctx.seed)
    jobs = []
    # images enumerated by TLC
    for n, c in enumerate(DEEP if deep else QUICK):
        out = ctx.model("WireMC", cfg(*c), "WireMC %s" % (c,), workers=NPROC)
        good, bad = [], []
        for l in out.splitlines():
            if l.startswith('"IMG#'):
                _, v, w = l.strip().strip('"').split("#")
                (good if v == "1" else bad).append(w.replace("<<", "").replace(">>", "").replace(",", ""))
        del out
        total = len(good) + len(bad)
        lim = 120000 if deep else 9000
        good = good if len(good) <= lim else rng.sample(good, lim)
        bad = bad if len(bad) <= lim else rng.sample(bad, lim)
        ctx.cov.setdefault("images_enumerated", []).append({"config": list(map(str, c)), "all": total, "well_formed_replayed": len(good), "malformed_replayed": len(bad)})
        imgs = good + bad
        rng.shuffle(imgs)
        per = 10000
        for k in range(0, len(imgs), per):
            name = "wire%d-%d" % (n, k // per)
            sc = ctx.path(name + ".txt")
            with open(sc, "w") as f:
                f.write("clear\nit 0\nquiet 1\n")
                if c[1]:
                    f.write("F 1 0 1 -1\n")
                for g in sorted(set(int(x) for x in c[3].split(","))):
                    if g != 26:
                        f.write("F %d %d %d -1\n" % (rng.choice((0, 2)), g, rng.randrange(2)))
                f.write("N 4 64 0\n")
                for w in imgs[k:k + per]:
                    f.write("W %d %s\n" % (2 * len(w.split()), w))
            jobs.append((name, sc, ctx.path(name + ".ndjson"), None))
    # damaged images of random tuples
    for n in range(96 if deep else 12):
        name = "audit-%d" % n
        sc, tr = ctx.path(name + ".txt"), ctx.path(name + ".ndjson")
        jobs.append((name, sc, tr, [exe, "random", "audit", str(ctx.seed * 1000003 + n * 17 + 8), "70", "24", tr, sc]))

    def one(j):
        name, sc, tr, cmd = j
        cmd = cmd or [exe, "script", sc, tr]
        ctx.run_driver(cmd, sc, "images " + name)
        if name == "audit-0":
            ctx.cov["samples"] += history_of(sc, 1)[:6]
        return judge(ctx, exe, name, sc, tr, cmd)
    return [r for r in pmap(one, jobs) if r]
