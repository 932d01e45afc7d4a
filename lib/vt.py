"""Build, TLC, evidence and verdict plumbing shared by all checks."""
import concurrent.futures, threading, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CACHELOT_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
CORES = os.cpu_count() or 4
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"


class CheckError(Exception):
    """the machinery itself failed: exit status 2, never a verdict"""


class BuildBroken(CheckError):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------------------------------------- build
_gen_lock = threading.Lock()


def _gen_headers():
    with _gen_lock:
        return _gen_headers_locked()


def _gen_headers_locked():
    """config.h / version.h are generated by cmake and ignored by git: make our own from the templates"""
    d = os.path.join(BUILD, "gen", "cachelot")
    os.makedirs(d, exist_ok=True)
    subst = {"VERSION_MAJOR": "9", "VERSION_MINOR": "8", "VERSION_PATCH": "7"}
    for name in ("config.h", "version.h"):
        src = os.path.join(REPO, "src/cachelot", name + ".in")
        text = open(src).read()
        text = re.sub(r"#cmakedefine\s+(\w+)\s*(\S*)", r"#define \1 \2", text)
        def rep(m):
            for k, v in subst.items():
                if m.group(1).endswith(k):
                    return v
            return "verif"
        text = re.sub(r"@(\w+)@", rep, text)
        text = re.sub(r"\$\{(\w+)\}", rep, text)
        path = os.path.join(d, name)
        if not (os.path.exists(path) and open(path).read() == text):
            tmp = path + ".%d" % os.getpid()
            open(tmp, "w").write(text)
            os.replace(tmp, path)
    return os.path.join(BUILD, "gen")


def _tree_hash(extra):
    h = hashlib.sha256()
    files = []
    for root, dirs, names in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        files += [os.path.join(root, n) for n in sorted(names)]
    files += sorted(glob.glob(HARN + "/*"))
    for f in files:
        h.update(f.encode()); h.update(open(f, "rb").read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:16]


MODES = {
    "release": ["-O1", "-DNDEBUG"],
    "debug": ["-O1", "-DDEBUG"],
    "asan": ["-O1", "-g1", "-DNDEBUG", "-fsanitize=address", "-fno-omit-frame-pointer"],
}


def cachelot_sources():
    return sorted(glob.glob(os.path.join(REPO, "src/cachelot/*.cpp")))


def server_sources(with_main):
    s = sorted(glob.glob(os.path.join(REPO, "src/server/**/*.cpp"), recursive=True))
    return [x for x in s if with_main or os.path.basename(x) != "main.cpp"]


def build(name, sources, mode="release", defines=(), libs=(), lib_sources=None):
    """compile sources (harness + cachelot) from the current working tree; returns path of the binary"""
    gen = _gen_headers()
    flags = ["-std=c++11", "-w", "-DHAVE_CONFIG_H=1", "-DCACHELOT_PLATFORM_BITS=64", "-D_GNU_SOURCE", "-I" + gen, "-I" + REPO + "/src", "-I" + HARN]
    flags += MODES[mode] + ["-D" + d for d in defines]
    srcs = list(sources) + (cachelot_sources() if lib_sources is None else list(lib_sources))
    key = _tree_hash((name, srcs, flags, tuple(libs)))
    out = os.path.join(BUILD, "bin", "%s-%s-%s" % (name, mode, key))
    if os.path.exists(out):
        return out
    obj = out + ".obj%d" % os.getpid()
    os.makedirs(obj)
    try:
        def cc(iv):
            i, src = iv
            o = os.path.join(obj, "%d.o" % i)
            r = subprocess.run(["g++"] + flags + ["-c", src, "-o", o], capture_output=True, text=True)
            if r.returncode:
                raise BuildBroken("cannot compile %s\n%s" % (src, r.stderr[-3000:]))
            return o
        with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
            objs = list(ex.map(cc, enumerate(srcs)))
        tmp = out + ".tmp%d" % os.getpid()
        r = subprocess.run(["g++"] + MODES[mode] + objs + ["-o", tmp, "-pthread"] + list(libs), capture_output=True, text=True)
        if r.returncode:
            raise BuildBroken("cannot link %s\n%s" % (name, r.stderr[-3000:]))
        os.replace(tmp, out)
    finally:
        shutil.rmtree(obj, ignore_errors=True)
    # drop older binaries of the same name and mode
    for old in glob.glob(os.path.join(BUILD, "bin", "%s-%s-*" % (name, mode))):
        if old != out and ".obj" not in old and time.time() - os.path.getmtime(old) > 3600:
            try: os.remove(old)
            except OSError: pass
    return out


def build_many(jobs):
    """jobs: list of kwargs for build(); run in parallel, returns list of paths"""
    with concurrent.futures.ThreadPoolExecutor(len(jobs)) as ex:
        futs = [ex.submit(build, **j) for j in jobs]
        return [f.result() for f in futs]


# ------------------------------------------------------------------------------------------------ TLC
class Tlc:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        self.ok = "Model checking completed. No error has been found." in out
        self.finished = bool(m)

    def violated(self):
        """name of the invariant / property TLC reports as violated, None if none"""
        m = re.search(r"Error: (?:Invariant|Action property|Temporal propert\w+|Property)\s*(\S*) ?(?:is|was|were) violated", self.out)
        if m:
            return m.group(1) or "temporal"
        if "Deadlock reached" in self.out:
            return "deadlock"
        return None


def tlc(module, cfg, env=None, workers=None, timeout=800, heap="4g", extra=(), tag=""):
    """run TLC on spec/<module>.tla with spec/<cfg>"""
    meta = os.path.join(BUILD, "tlc", "%s-%s-%d-%d" % (module, tag, os.getpid(), int(time.time() * 1e6) % 10**9))
    os.makedirs(meta, exist_ok=True)
    cp = ":".join([TLA_JAR] + sorted(glob.glob("/opt/veriftools/tla/*.jar")))
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", cp, "tlc2.TLC", "-workers", str(workers or CORES), "-metadir", meta, "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    t = time.time()
    e = dict(os.environ); e.update(env or {})
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=SPEC)
        res = Tlc(r.stdout + r.stderr, r.returncode, time.time() - t)
    except subprocess.TimeoutExpired as x:
        raise CheckError("TLC timed out on %s/%s" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    if not res.finished and not res.violated():
        raise CheckError("TLC failed on %s/%s:\n%s" % (module, cfg, res.out[-4000:]))
    return res


def accept(module, traces, cfg=None, shards=None, timeout=800, heap="3g"):
    """Decide a list of traces (python objects or JSON text) with the acceptor `module`.
       Returns (rejected, tlc_states): rejected = list of (index, label, event)."""
    if not traces:
        return [], 0, 0
    lines = [t if isinstance(t, str) else json.dumps(t, separators=(",", ":")) for t in traces]
    # balance shards by size
    n = max(1, min(shards or (2 if len(lines) > 40 else 1), len(lines)))
    wk = max(1, CORES // n)
    groups = [[] for _ in range(n)]; load = [0] * n
    for i in sorted(range(len(lines)), key=lambda i: -len(lines[i])):
        g = load.index(min(load)); groups[g].append(i); load[g] += len(lines[i])
    d = os.path.join(BUILD, "traces"); os.makedirs(d, exist_ok=True)
    def one(g):
        if not groups[g]:
            return [], 0, 0
        path = os.path.join(d, "%s-%d-%d-%d.ndjson" % (module, os.getpid(), g, int(time.time() * 1e6) % 10**9))
        with open(path, "w") as f:
            for i in groups[g]:
                f.write(lines[i].strip() + "\n")
        try:
            r = tlc(module, cfg or module + ".cfg", env={"TRACE": path}, workers=wk, timeout=timeout, heap=heap, tag="s%d" % g)
        finally:
            os.remove(path)
        if "Model checking completed" not in r.out:
            raise CheckError("acceptor %s did not complete:\n%s" % (module, r.out[-3000:]))
        acc = set(int(x) for x in re.findall(r'<<"ACCEPTED", (\d+)>>', r.out))
        rej = []
        for j, i in enumerate(groups[g], 1):
            if j not in acc:
                fails = [(int(a), b) for t, a, b in re.findall(r'<<"FAIL", (\d+), (\d+), "([^"]*)">>', r.out) if int(t) == j]
                ev, label = max(fails) if fails else (0, "stuck")
                rej.append((i, label, ev))
        return rej, r.distinct, r.generated
    rej, st, gen = [], 0, 0
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        for a, b, c in ex.map(one, range(n)):
            rej += a; st += b; gen += c
    return sorted(rej), st, gen


# -------------------------------------------------------------------------------------- check framework
class Check:
    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.thorough = tier == "thorough"
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.parts = {}
        self.assumptions = []
        self.viol = []
        self.rdir = os.path.join(BUILD, "replay", prop)
        shutil.rmtree(self.rdir, ignore_errors=True)
        os.makedirs(self.rdir, exist_ok=True)

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def model(self, module, cfg, **kw):
        """exhaustive model check; an error in the model is an error of the machinery"""
        r = tlc(module, cfg, **kw)
        if not r.ok:
            raise CheckError("model %s/%s: %s\n%s" % (module, cfg, r.violated(), r.out[-3000:]))
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.parts["model %s/%s" % (module, cfg)] = {"distinct_states": r.distinct, "transitions": r.generated, "wall_s": round(r.wall, 1)}
        return r

    def sample(self, x):
        if len(self.cov["samples"]) < 6:
            s = x if isinstance(x, str) else json.dumps(x)
            self.cov["samples"].append(s[:1500])

    def validated(self, name, n, events, states, generated=0, distinct=None):
        self.cov["traces_validated_against_impl"] += n
        self.cov["states"] += states
        self.cov["transitions"] += generated
        p = self.parts.setdefault(name, {"traces": 0, "events": 0, "acceptor_states": 0})
        p["traces"] += n; p["events"] += events; p["acceptor_states"] += states
        if distinct is not None:
            p["distinct"] = p.get("distinct", 0) + distinct

    def violation(self, what, files):
        """files: {name: content}"""
        n = len(self.viol) + 1
        d = os.path.join(self.rdir, str(n)); os.makedirs(d, exist_ok=True)
        for name, content in files.items():
            with open(os.path.join(d, name), "wb") as f:
                f.write(content if isinstance(content, bytes) else content.encode("utf-8", "replace"))
        open(os.path.join(d, "WHAT"), "w").write(what + "\n")
        self.viol.append((what, d))
        log("violation of %s: %s" % (self.prop, what))

    def finish(self):
        known = load_known(self.prop)
        rep = []
        for what, d in self.viol:
            k = [x for x in known if x["match"] in what]
            if k:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k[0]["text"]))
            else:
                rep.append((what, d))
        cov = dict(self.cov); cov["parts"] = self.parts
        if not cov["samples"]:
            cov["samples"] = ["(none)"]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(rep)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for what, d in rep[:5]:
            print("VIOLATION property=%s replay=%s" % (self.prop, d), flush=True)
        log("%s %s: %d violations, %.1fs" % (self.prop, self.tier, len(rep), time.time() - self.t0))
        return 1 if rep else 0


def load_known(prop):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) match=\"([^\"]*)\" (.*)", line)
            if m and m.group(1) == prop:
                out.append({"match": m.group(2), "text": m.group(3)})
    return out


# --------------------------------------------------------------------------------------- script running
def run_exec(binary, script, timeout=120, env=None, args=()):
    """run an executor on script text; returns (trace lines, crash description or None)"""
    d = os.path.join(BUILD, "run"); os.makedirs(d, exist_ok=True)
    base = os.path.join(d, "%d-%d-%d" % (os.getpid(), int(time.time() * 1e6) % 10**9, id(script) % 99991))
    sp, op = base + ".script", base + ".out"
    open(sp, "w").write(script)
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1"
    e.update(env or {})
    crash = None
    try:
        try:
            r = subprocess.run([binary, sp, op] + list(args), capture_output=True, timeout=timeout, env=e)
            if r.returncode == 3:
                raise CheckError("executor refused the script: " + r.stderr.decode(errors="replace")[-500:])
            if r.returncode != 0:
                crash = "exit status %d: %s" % (r.returncode, r.stderr.decode(errors="replace")[-2500:])
        except subprocess.TimeoutExpired:
            crash = "hangs (no progress within %d s)" % timeout
        lines = open(op).read().splitlines() if os.path.exists(op) else []
    finally:
        for p in (sp, op):
            if os.path.exists(p): os.remove(p)
    return lines, crash


def run_scripts(binary, scripts, timeout=120, chunk=None, env=None):
    """run many scripts in parallel processes; returns list of (trace line or None, crash or None) per script"""
    n = chunk or max(1, min(64, (len(scripts) + 2 * CORES - 1) // (2 * CORES)))
    groups = [list(range(i, min(i + n, len(scripts)))) for i in range(0, len(scripts), n)]
    res = [(None, None)] * len(scripts)
    def go(g):
        todo = list(g)
        while todo:
            lines, crash = run_exec(binary, "".join(scripts[i] for i in todo), timeout, env)
            lines = lines[:len(todo)]
            for i, l in zip(todo, lines):
                res[i] = (l, None)
            if crash is None:
                if len(lines) != len(todo):
                    raise CheckError("executor returned %d traces for %d scripts" % (len(lines), len(todo)))
                return
            bad = todo[len(lines)] if len(lines) < len(todo) else todo[-1]
            res[bad] = (None, crash)
            todo = todo[len(lines) + 1:]
    with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
        list(ex.map(go, groups))
    return res


def validate(chk, name, binary, module, scripts, cfg=None, timeout=120, sample=True, maxrep=3, env=None):
    """execute scripts on the real code and let TLC decide the recorded traces"""
    if not scripts or chk.viol:
        return 0
    res = run_scripts(binary, scripts, timeout, env=env)
    good = [i for i, (l, c) in enumerate(res) if c is None]
    for i, (l, c) in enumerate(res):
        if c is not None and len(chk.viol) < maxrep:
            chk.violation("%s: crash: %s" % (name, c), {"script": scripts[i], "crash.txt": c})
    lines = [res[i][0] for i in good]
    rej, st, gen = accept(module, lines, cfg)
    nev = sum(l.count('"o":') for l in lines)
    if sample and lines:
        s = min(lines, key=len) if len(lines) > 3 else lines[0]
        chk.sample("%s: %s" % (name, s[:700]))
    for j, label, ev in rej[:maxrep]:
        i = good[j]
        what = "%s: not a behaviour of %s: %s at event %d" % (name, module, label, ev)
        try:
            what += ": " + json.dumps(json.loads(lines[j])["ev"][ev - 1])[:600]
        except Exception:
            pass
        chk.violation(what, {"script": scripts[i], "trace.ndjson": lines[j]})
    chk.validated(name, len(lines) - len(rej), nev, st, gen, distinct=len(set(lines)))
    return len(rej)
