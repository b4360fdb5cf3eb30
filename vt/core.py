"""Common machinery of the checks: building harnesses from /repo's working
tree, running TLC, replaying cases in the real code, reporting."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
SRC = os.path.join(REPO, "src")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
TLC_CP = ("/opt/veriftools/tla/tla2tools.jar:"
          "/opt/veriftools/tla/CommunityModules-deps.jar")
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself failed: never a verdict about the code."""


def globs(*pats):
    import glob
    out = []
    for p in pats:
        g = sorted(glob.glob(os.path.join(SRC, p)))
        if not g:
            raise CheckError("no source matches " + p)
        out += g
    return out


def core_sources():
    """Every translation unit of the renderer, as CMakeLists.txt globs it."""
    s = []
    for d in ("lights geometry primitives accelerators samplers utility "
              "cameras integrators textures materials").split():
        s += globs(d + "/*.cpp")
    s += globs("renderer.cpp", "parsers/*.cpp")
    s = [x for x in s if not x.endswith(("lex.yy.cc",))]
    s += globs("parsers/*.cc")
    s += globs("utility/imageio/*.c")
    return s


_hdr_hash = None


def header_hash():
    global _hdr_hash
    if _hdr_hash is None:
        h = hashlib.sha1()
        for root, dirs, files in os.walk(SRC):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".hpp", ".h", ".hh", ".tab.h", ".inc", ".tpp")):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, SRC).encode())
                    h.update(open(p, "rb").read())
        for f in sorted(os.listdir(HARN)):
            if f.endswith((".hpp", ".h")):
                h.update(open(os.path.join(HARN, f), "rb").read())
        _hdr_hash = h.hexdigest()
    return _hdr_hash


class TLCResult:
    def __init__(self):
        self.emitted = []
        self.states = 0
        self.distinct = 0
        self.ok = False
        self.text = ""
        self.violated = None
        self.coverage = {}


class Ctx:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.thorough = self.tier == "thorough"
        self.rng = random.Random(self.seed * 1000003 + 17)
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known_hit = {}
        self.known = self._load_known()
        self.tmp = tempfile.mkdtemp(prefix="vt_%s_" % prop)
        self.notes = []

    # ---- known findings ------------------------------------------------
    def _load_known(self):
        p = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(p):
            return {}
        d = json.load(open(p))
        return {e["key"]: e for e in d.get("findings", [])
                if e["property"] == self.prop}

    # ---- reporting ------------------------------------------------------
    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    def violation(self, what, replay, key=None):
        """replay: anything json-serialisable, enough to run it again."""
        if key is not None and key in self.known:
            self.known_hit[key] = self.known[key]["what"]
            return False
        self.violations.append((what, replay))
        return True

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def finish(self):
        for k, w in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        rc = 0
        if self.violations:
            rc = 1
            os.makedirs(OUT, exist_ok=True)
            path = os.path.join(OUT, "%s.replay.json" % self.prop)
            with open(path, "w") as f:
                json.dump([{"what": w, "replay": r}
                           for w, r in self.violations[:50]], f, indent=1)
            for w, r in self.violations[:5]:
                print("  violating case: %s" % (w[:500],))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   samples=self.samples or ["none"])
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier if self.tier in
                  ("quick", "thorough") else "quick", seed=self.seed,
                  level=self.level, coverage=cov,
                  assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        evid = os.environ.get("VT_EVID", os.path.join(VERIF, "evidence"))
        os.makedirs(evid, exist_ok=True)
        with open(os.path.join(evid, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.log("%s: %d states, %d transitions, %d cases against the code, "
                 "%d violations" % (self.prop, self.states, self.transitions,
                                    self.traces, len(self.violations)))
        shutil.rmtree(self.tmp, ignore_errors=True)
        return rc

    # ---- TLC --------------------------------------------------------------
    def tlc(self, module, constants=None, invariants=(), properties=(),
            init="Init", next_="Next", spec=None, constraint=None, view=None,
            simulate=None, depth=None, postcondition=None, workers=None,
            timeout=600, expect_violation=False, extra_cfg="", files=None,
            action_constraint=None, count=True, xmx="6g", seed=None):
        """Run TLC on spec/<module>.tla.  simulate=N: random behaviours."""
        d = tempfile.mkdtemp(prefix="tlc_", dir=self.tmp)
        cfg = []
        if spec:
            cfg.append("SPECIFICATION %s" % spec)
        else:
            cfg.append("INIT %s\nNEXT %s" % (init, next_))
        defs = []
        for k, v in (constants or {}).items():
            cfg.append("CONSTANT %s <- MC_%s" % (k, k))
            defs.append("MC_%s == %s" % (k, v))
        for i in invariants:
            cfg.append("INVARIANT " + i)
        for i in properties:
            cfg.append("PROPERTY " + i)
        if constraint:
            cfg.append("CONSTRAINT " + constraint)
        if action_constraint:
            cfg.append("ACTION_CONSTRAINT " + action_constraint)
        if view:
            cfg.append("VIEW " + view)
        if postcondition:
            cfg.append("POSTCONDITION " + postcondition)
        cfg.append("CHECK_DEADLOCK FALSE")
        cfg.append(extra_cfg)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        for name, content in (files or {}).items():
            with open(os.path.join(d, name), "w") as f:
                f.write(content)
        with open(os.path.join(d, "MC.cfg"), "w") as f:
            f.write("\n".join(cfg) + "\n")
        with open(os.path.join(d, "MC.tla"), "w") as f:
            f.write("---- MODULE MC ----\nEXTENDS %s\n%s\n====\n" %
                    (module, "\n".join(defs)))
        w = workers or (1 if simulate else min(8, NCPU))
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + xmx,
               "-Xss512m" if simulate else "-Xss32m",
               "-cp", TLC_CP, "tlc2.TLC", "-config", "MC.cfg",
               "-metadir", os.path.join(d, "meta"), "-workers", str(w),
               "-noGenerateSpecTE", "-fp", "1"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth",
                    str(depth or 100), "-seed",
                    str(self.seed if seed is None else seed)]
        else:
            cmd += ["-seed", str(self.seed)]
        cmd.append("MC.tla")
        r = TLCResult()
        outp = os.path.join(d, "out.txt")
        try:
            with open(outp, "wb") as fo:
                p = subprocess.Popen(cmd, cwd=d, stdout=fo,
                                     stderr=subprocess.STDOUT)
                try:
                    rc = self._watch(p, outp, timeout)
                finally:
                    if p.poll() is None:
                        p.kill()
                        p.wait()
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % module)
        rest = []
        with open(outp, "r", errors="replace") as f:
            for line in f:
                if line.startswith('"@@'):
                    try:
                        r.emitted.append(json.loads(json.loads(line)[2:]))
                    except ValueError:
                        raise CheckError("bad emission: " + line[:300])
                else:
                    rest.append(line)
        r.text = "".join(rest)
        for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct",
                             r.text):
            r.states = int(m.group(1).replace(",", ""))
            r.distinct = int(m.group(2).replace(",", ""))
        m = re.search(r"number of states generated: ([\d,]+)", r.text)
        if m:
            r.states = int(m.group(1).replace(",", ""))
            r.distinct = r.states
        m = re.search(r"(?:Invariant|Property|Temporal property|"
                      r"Action property) (\S+) (?:is|was) violated", r.text)
        if m:
            r.violated = m.group(1)
        elif "is violated" in r.text or "were violated" in r.text \
                or "was violated" in r.text:
            r.violated = "?"
        r.ok = rc == 0 and r.violated is None
        if not r.ok and r.violated is None:
            raise CheckError("TLC failed on %s (rc %d):\n%s" %
                             (module, rc, r.text[-3000:]))
        if r.violated and not expect_violation:
            # a design-level violation of the specification itself
            raise CheckError("the specification %s violates %s:\n%s" %
                             (module, r.violated, r.text[-4000:]))
        if count:
            self.states += r.distinct
            self.transitions += r.states
        shutil.rmtree(d, ignore_errors=True)
        return r

    @staticmethod
    def _watch(p, outp, timeout):
        """Waits; a simulation worker that dies leaves TLC waiting forever."""
        end = time.time() + timeout
        pos = 0
        while True:
            try:
                return p.wait(timeout=2)
            except subprocess.TimeoutExpired:
                pass
            if time.time() > end:
                raise subprocess.TimeoutExpired("tlc", timeout)
            with open(outp, "rb") as f:
                f.seek(max(0, pos - 64))
                new = f.read()
                pos = f.tell()
            if b"StackOverflowError" in new or b'Exception in thread' in new:
                raise CheckError("TLC worker died: " +
                                 new[-2000:].decode(errors="replace"))

    def sim(self, module, constants, num, depth, par=NCPU, **kw):
        """Random behaviours from several TLC processes (deterministic)."""
        par = max(1, min(par, num))
        kw.setdefault("invariants", ("Emit",))
        kw.setdefault("xmx", "2g")
        with ThreadPoolExecutor(par) as ex:
            fs = [ex.submit(self.tlc, module, constants,
                            simulate=(num + par - 1) // par, depth=depth,
                            seed=self.seed * 7919 + 131 * i + 1, **kw)
                  for i in range(par)]
            out = []
            for f in fs:
                out += f.result().emitted
        if not out:
            raise CheckError("the generator %s emitted nothing" % module)
        return out

    def tlc_traces(self, module, constants, traces, init="TInit",
                   next_="TNext", progress="Progress", timeout=600,
                   invariants=()):
        """Validate recorded traces (each with a 'log' list) against a trace
        specification.  Returns per trace (accepted, events matched)."""
        best = {}
        r = self.tlc(module, constants,
                     invariants=(progress,) + tuple(invariants),
                     init=init, next_=next_, timeout=timeout,
                     files={"traces.json": json.dumps(traces)})
        for tr, n, total in r.emitted:
            best[tr] = max(best.get(tr, 0), n)
        return [(best.get(i + 1, 0) == len(t["log"]), best.get(i + 1, 0))
                for i, t in enumerate(traces)]

    # ---- build ----------------------------------------------------------
    def build(self, name, harness, sources, defines=(), asan=True,
              std="c++14", opt="-O1", libs=("-lpthread",), cflags=()):
        """Compile /repo sources + a harness; objects cached by content."""
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        common = [opt, "-g1", "-include", "cstdint", "-w", "-pthread",
                  "-fno-omit-frame-pointer", "-I", SRC, "-I", HARN]
        common += list(cflags)
        if asan:
            common += ["-fsanitize=address", "-fno-sanitize-recover=all"]
        common += ["-D" + x for x in defines]
        common += ['-DCOMPILER_NAME="GNU"', '-DCOMPILER_VERSION="13"']
        ccommon = [x for x in common]
        i = ccommon.index("-include")
        del ccommon[i:i + 2]
        hh = header_hash()
        jobs, objs = [], []
        for s in list(sources) + [os.path.join(HARN, h) for h in harness]:
            is_c = s.endswith(".c")
            cmd = (["gcc"] + ccommon if is_c else
                   ["g++", "-std=" + std] + common)
            base = os.path.basename(s)
            ed = []
            if base == "imageio.c":
                ed = ["-DJPEG_FOUND", "-DPNG_FOUND", "-DTIFF_FOUND"]
            cmd = cmd + ed
            key = hashlib.sha1()
            key.update(" ".join(cmd).replace(SRC, "@").encode())
            key.update(hh.encode())
            key.update(s.replace(SRC, "@").encode())
            key.update(open(s, "rb").read())
            o = os.path.join(BUILD, "obj", base + "." + key.hexdigest()[:20] +
                             ".o")
            objs.append(o)
            if not os.path.exists(o):
                jobs.append((cmd + ["-c", s, "-o"], o, s))

        def comp(j):
            cmd, o, s = j
            tmp = o + ".%d.tmp" % os.getpid()
            p = subprocess.run(cmd + [tmp], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                return "compiling %s failed:\n%s" % (s, p.stdout[-3000:])
            os.rename(tmp, o)
            return None
        # longest first
        jobs.sort(key=lambda j: -os.path.getsize(j[2]))
        with ThreadPoolExecutor(NCPU) as ex:
            for e in ex.map(comp, jobs):
                if e:
                    raise CheckError(e)
        exe = os.path.join(self.tmp, name)
        cmd = ["g++"] + (["-fsanitize=address"] if asan else []) + objs + \
              ["-o", exe] + list(libs)
        p = subprocess.run(cmd, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise CheckError("linking %s failed:\n%s" % (name,
                                                         p.stdout[-3000:]))
        self.log("built %s (%d compiled)" % (name, len(jobs)))
        return exe

    # ---- replay ------------------------------------------------------------
    def replay(self, exe, cases, timeout=10, total=700, env=None, jobs=None,
               count=True):
        """cases: list of one-line strings.  Returns a list with, per case,
        ('ok', text) or ('crash', reason)."""
        n = len(cases)
        jobs = min(jobs or NCPU, max(1, n))
        res = [None] * n

        def part(k):
            idx = list(range(k, n, jobs))
            d = tempfile.mkdtemp(prefix="rp_", dir=self.tmp)
            inp, outp = os.path.join(d, "in"), os.path.join(d, "out")
            with open(inp, "w") as f:
                for i in idx:
                    assert "\n" not in cases[i]
                    f.write(cases[i] + "\n")
            e = dict(os.environ)
            e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=99:"
                                 "allocator_may_return_null=1:"
                                 "detect_odr_violation=0")
            e.update(env or {})
            with open(os.path.join(d, "log"), "wb") as lg:
                try:
                    p = subprocess.run([exe, inp, outp, str(timeout)],
                                       stdout=lg, stderr=subprocess.STDOUT,
                                       cwd=d, env=e, timeout=total)
                except subprocess.TimeoutExpired:
                    raise CheckError("harness exceeded its total time")
            if p.returncode != 0:
                tail = open(os.path.join(d, "log"), errors="replace"
                            ).read()[-2000:]
                raise CheckError("harness driver failed rc=%d\n%s" %
                                 (p.returncode, tail))
            with open(outp, errors="replace") as f:
                for line in f:
                    t, i, rest = line.rstrip("\n").split(" ", 2)
                    res[idx[int(i)]] = ("ok" if t == "R" else "crash", rest)
            for j, i in enumerate(idx):
                if res[i] is None:
                    raise CheckError("no result for case %r" % cases[i][:200])
            shutil.rmtree(d, ignore_errors=True)
        with ThreadPoolExecutor(jobs) as ex:
            list(ex.map(part, range(jobs)))
        if count:
            self.traces += n
        return res


def main(argv):
    import importlib
    if len(argv) != 2:
        print("usage: run.py PROPERTY")
        return 2
    prop = argv[1]
    sys.path.insert(0, VERIF)
    mod = importlib.import_module("checks." + prop)
    ctx = Ctx(prop, getattr(mod, "LEVEL", "model_checking"))
    try:
        mod.run(ctx)
        return ctx.finish()
    except CheckError as e:
        print("CHECK ERROR: %s" % e)
        shutil.rmtree(ctx.tmp, ignore_errors=True)
        return 2
    except BaseException:
        import traceback
        traceback.print_exc()
        shutil.rmtree(ctx.tmp, ignore_errors=True)
        return 3
