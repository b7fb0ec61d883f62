"""Shared machinery of the checks: building the library and the drivers from
/repo's current tree, running TLC, judging, writing evidence."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known-findings.txt")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = max(2, min(8, os.cpu_count() or 2))
ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0",
            "UBSAN_OPTIONS": "print_stacktrace=0",
            "TSAN_OPTIONS": "exitcode=99:halt_on_error=1:suppressions=" + os.path.join(HARNESS, "tsan.supp")}


class Broken(Exception):
    """The check itself could not be carried out (exit 2)."""


class Violation(Exception):
    def __init__(self, what, replay):
        Exception.__init__(self, what)
        self.what, self.replay = what, replay


def sh(cmd, timeout=600, env=None, cwd=None, inp=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env=e, cwd=cwd, input=inp)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return -999, (x.stdout or b"").decode("utf-8", "replace") + "\nTIMEOUT"


# (a resolver of an ifunc runs before the runtime of the sanitizer is ready)
SAN = {"asan": "-fsanitize=address", "asan0": "-fsanitize=address", "tsan": "-fsanitize=thread -DERTHINK_USE_ELF_IFUNC=0", "plain": "",
       "sched": "-fsanitize=thread -DERTHINK_USE_ELF_IFUNC=0 -DSCHED"}


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="fptu-%s-" % prop.lower())
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "events_checked": 0, "models": [], "traces": []}
        self.assumptions = []
        self.violations = []
        self._built = {}
        os.makedirs(EVID, exist_ok=True)

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def thorough(self):
        return self.tier == "thorough"

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ------------------------------------------------------------ building
    def configure(self, san):
        d = self.path("b-" + san)
        if d in self._built:
            return d
        rc, out = sh(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++",
                      "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DBUILD_TESTING=OFF", "-DPROVIDE_VERSIONINFO=OFF",
                      "-DINTERPROCEDURAL_OPTIMIZATION=OFF", "-DBUILD_SHARED_LIBS=OFF", "-DLIBFPTU_TYPE=STATIC",
                      "-DCMAKE_CXX_FLAGS=-Wno-error -w -g1 " + SAN[san]] +
                     # the optimizer hides accesses whose result isn't used
                     (["-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O0 -DNDEBUG"] if san == "asan0" else []))
        if rc:
            raise Broken("cmake failed:\n" + out[-3000:])
        self._built[d] = True
        return d

    def build(self, drivers, san="asan", extra=()):
        """Builds the library and the drivers; returns {driver: path}."""
        d = self.configure(san)
        jobs = [["ninja", "-C", d]]
        for x in drivers:
            jobs.append(["g++", "-std=gnu++20", "-g1", "-O0" if san == "asan0" else "-O1", "-DNDEBUG", "-w"] + SAN[san].split() + list(extra) +
                        ["-I" + REPO, "-I" + d, "-c", os.path.join(HARNESS, x + ".cxx"), "-o", os.path.join(d, x + ".o")])
        if san == "sched":  # the runtime of the sanitizer is replaced by an own one
            jobs.append(["g++", "-O1", "-g1", "-w", "-c", os.path.join(HARNESS, "sched_rt.cxx"), "-o", os.path.join(d, "sched_rt.o")])
        with cf.ThreadPoolExecutor(len(jobs)) as ex:
            for (rc, out), j in zip(ex.map(lambda j: sh(j, 800), jobs), jobs):
                if rc:
                    raise Broken("build failed: %s\n%s" % (" ".join(j[:6]), out[-3000:]))
        res = {}
        for x in drivers:
            exe = os.path.join(d, x)
            rc, out = sh(["g++"] + ([os.path.join(d, "sched_rt.o")] if san == "sched" else SAN[san].split()) + [os.path.join(d, x + ".o"), os.path.join(d, "src/libfptu.a"), "-lpthread", "-o", exe])
            if rc:
                raise Broken("link failed: %s\n%s" % (x, out[-3000:]))
            res[x] = exe
        return res

    # ------------------------------------------------------------ running
    def run_driver(self, cmd, replay_src, what, timeout=240, env=None):
        """Runs a driver; an abnormal end is a violation, once it is confirmed
        by a second run."""
        e = dict(ASAN_ENV)
        e.update(env or {})
        rc, out = sh(cmd, timeout, e)
        if rc == 0:
            return out
        if rc == 3:
            raise Broken("driver refused %s: %s" % (cmd, out[-1500:]))
        rc2, out2 = sh(cmd, timeout, e)
        if rc2 == 0:
            raise Broken("driver failed once but not again: %s rc=%s\n%s" % (cmd, rc, out[-1500:]))
        rep = self.save_replay("crash", [replay_src] if replay_src else [], "command: %s\nexit code: %s\n%s" % (" ".join(cmd), rc, out2[-20000:]))
        m = re.search(r"ERROR: AddressSanitizer: (\S+)", out2)
        raise Violation("%s: %s" % (what, m.group(1) if m else ("hang" if rc2 == -999 else "exit code %s" % rc2)), rep)

    def save_replay(self, kind, files, text):
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        base = os.path.join(d, "%s-%s-%d" % (self.prop, kind, int(time.time() * 1000) % 10**9))
        with open(base + ".txt", "w") as f:
            f.write(text + "\n")
        for n, src in enumerate(files):
            if src and os.path.exists(src) and os.path.getsize(src) < 30e6:
                shutil.copy(src, base + ".%d%s" % (n, os.path.splitext(src)[1]))
        return base + ".txt"

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=1, timeout=800, mem="2g", args=(), specdir=SPEC):
        """Returns (rc, output).  cfg is the text of the configuration."""
        tag = "%s-%d" % (module, len(os.listdir(self.dir)) + int(time.time() * 1e6) % 10**8)
        cfgf = self.path(tag + ".cfg")
        with open(cfgf, "w") as f:
            f.write(cfg)
        meta = self.path(tag + ".meta")
        cmd = ["java", "-Xmx" + mem, "-Xss256m", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC",
               "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + self.dir, "-cp", JARS, "tlc2.TLC", "-nowarning", "-noTE", "-config", cfgf, "-metadir", meta,
               "-workers", str(workers)] + list(args) + [module + ".tla"]
        rc, out = sh(cmd, timeout, env, cwd=specdir)
        shutil.rmtree(meta, ignore_errors=True)
        return rc, out

    @staticmethod
    def tlc_stats(out):
        m = re.findall(r"(\d[\d,]*) states generated[^\n]*?(\d[\d,]*) distinct", out)
        if not m:
            return 0, 0
        return int(m[-1][1].replace(",", "")), int(m[-1][0].replace(",", ""))

    def model(self, module, cfg, name, workers=4, timeout=800, mem="6g", args=()):
        """Checks a model; a failure here is a defect of the specification, not
        of the code under test, hence the check is broken."""
        rc, out = self.tlc(module, cfg, workers=workers, timeout=timeout, mem=mem, args=args)
        st, tr = self.tlc_stats(out)
        if rc != 0 or st == 0:
            raise Broken("model %s failed (rc %s):\n%s" % (name, rc, out[-4000:]))
        self.cov["states"] += st
        self.cov["transitions"] += tr
        self.cov["models"].append({"model": name, "distinct_states": st, "transitions": tr})
        return out

    def validate(self, module, trace, consts, name, timeout=800, mem="2g", extra_cfg=""):
        """Validates a recorded trace; returns None or (event number, names of
        the violated obligations)."""
        cfg = "SPECIFICATION Spec\n%s\nINVARIANT NoFailure\nPOSTCONDITION Complete\nALIAS Brief\nCHECK_DEADLOCK FALSE\n%s" % (
            "\n".join("CONSTANT %s = %s" % kv for kv in consts.items()), extra_cfg)
        rc, out = self.tlc(module, cfg, env={"TRACE": trace}, timeout=timeout, mem=mem)
        st, tr = self.tlc_stats(out)
        at = re.findall(r"^(?:/\\ )?at = (\d+)", out, re.M)
        failed = re.findall(r"^/\\ failed = (\{.*?\})", out, re.M)
        if rc == 0:
            with open(trace) as f:
                n = sum(1 for _ in f)
            if st < n:
                raise Broken("trace %s was not consumed: %d of %d" % (name, st, n))
            self.cov["states"] += st
            self.cov["transitions"] += tr
            self.cov["traces_validated_against_impl"] += 1
            self.cov["events_checked"] += n
            self.cov["traces"].append({"trace": name, "events": n})
            return None
        if "Invariant NoFailure is violated" in out and at:
            return int(at[-1]), failed[-1] if failed else "?"
        # a recorded value so far from the specification that an expression of it
        # cannot be evaluated is as well a rejection of the trace
        if re.search(r"attempted to|Attempted to|evaluat|not in the domain|out of range|CHOOSE", out) and "Parsing or semantic analysis failed" not in out:
            m = re.findall(r"/\\ at = (\d+)", out)
            return (int(m[-1]) + 1 if m else 1), "{unevaluable: %s}" % out[-600:].replace("\n", " ")
        raise Broken("TLC failed on %s (rc %s):\n%s" % (name, rc, out[-4000:]))

    # ------------------------------------------------------------ the end
    def evidence(self, level):
        c = dict(self.cov)
        c["samples"] = c["samples"][:12]
        c["traces"] = c["traces"][:64]
        doc = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": c,
               "wall_s": round(time.time() - self.t0, 1), "assumptions": self.assumptions,
               "violations": len(self.violations)}
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(doc, f, indent=1)


def pmap(fn, items, n=NPROC):
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))


def known_findings(prop):
    res = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                res.append(m.group(2))
    return res
