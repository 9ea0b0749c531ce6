"""Shared machinery of the checks: build the harness from /repo, run TLC, run harness programs, judge, report."""
import json, os, re, shutil, subprocess, sys, tempfile, time, threading, random
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(V, "build"))
SPEC = os.path.join(V, "spec")
CMAKE = "/opt/vp/cmake322/bin/cmake"
TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
JAVA = ["java", "-XX:+UseParallelGC"]
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class ToolError(Exception):
    pass

def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)
T0 = time.time()

# ------------------------------------------------------------------ building
FLAVOURS = {
    "asan": "-fsanitize=address -fno-omit-frame-pointer -O1",
    "plain": "-O1",
    "tsan": "-fsanitize=thread -O1",
}
def build(targets, flavour="asan"):
    """Builds harness targets against /repo's working tree; returns the directory with the binaries."""
    if isinstance(targets, str): targets = [targets]
    d = os.path.join(BUILD, flavour)
    os.makedirs(d, exist_ok=True)
    env = dict(os.environ, CC="gcc", CXX="g++", QT_SELECT="qt5", PATH="/opt/vp/cmake322/bin:" + os.environ["PATH"],
               ASAN_OPTIONS="detect_leaks=0", TSAN_OPTIONS="exitcode=0 report_bugs=0", LC_ALL="C.UTF-8")
    if not os.path.exists(os.path.join(d, "build.ninja")):
        r = subprocess.run([CMAKE, "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_CXX_FLAGS_DEBUG=", "-DBUILD_SHARED_LIBS=ON",
            "-DCMAKE_PROJECT_QtProtobuf_INCLUDE=" + V + "/harness/hook.cmake", "-DQT_PROTOBUF_MAKE_TESTS=OFF",
            "-DQT_PROTOBUF_MAKE_EXAMPLES=OFF", "-DQT_PROTOBUF_NATIVE_GRPC_CHANNEL=ON",
            "-DCMAKE_CXX_COMPILER_LAUNCHER=" + V + "/lib/cxx.sh", "-DCMAKE_CXX_FLAGS=" + FLAVOURS[flavour]], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stdout.write(r.stdout[-4000:]); raise ToolError("cmake failed")
    r = subprocess.run([CMAKE, "--build", d, "--target"] + targets, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stdout.write(r.stdout[-6000:]); raise ToolError("build failed")
    log("built", *targets)
    return d

# ------------------------------------------------------------------ scratch
_scratch = []
def scratch():
    os.makedirs(os.path.join(BUILD, "run"), exist_ok=True)
    d = tempfile.mkdtemp(dir=os.path.join(BUILD, "run"))
    _scratch.append(d)
    return d
def cleanup():
    for d in _scratch: shutil.rmtree(d, ignore_errors=True)

# ------------------------------------------------------------------ TLC
class Tlc:
    pass
def cfgval(v):
    if v is True: return "TRUE"
    if v is False: return "FALSE"
    if isinstance(v, (set, frozenset, list, tuple)): return "{" + ", ".join(sorted(cfgval(x) for x in v)) + "}"
    if isinstance(v, str): return '"%s"' % v
    return str(v)
class Budget:      # of memory, for runs of TLC at the same time
    def __init__(self, n): self.n = n; self.cv = threading.Condition()
    def take(self, k):
        with self.cv:
            while self.n < k: self.cv.wait()
            self.n -= k
    def give(self, k):
        with self.cv: self.n += k; self.cv.notify_all()
MEM = Budget(24)
def tlc(module, consts=None, invariants=(), properties=(), workers=8, simulate=None, depth=None, seed=None, env=None,
        spec="Spec", constraint=None, prefix="CASE ", timeout=800, deadlock=False, heap="6g", check=True, view=None, postcondition=None):
    """Runs TLC on spec/<module>.tla.  Returns the statistics and the lines printed with prefix (decoded JSON)."""
    if view and TIER == "quick": workers = 1        # with a view, only one worker explores the same states every time
    if simulate: heap = "2g"
    d = scratch()
    for f in os.listdir(SPEC):
        if f.endswith(".tla"): shutil.copy(os.path.join(SPEC, f), d)
    with open(os.path.join(d, "run.cfg"), "w") as f:
        if consts: f.write("CONSTANTS\n" + "".join("  %s = %s\n" % (k, cfgval(v)) for k, v in consts.items()))
        f.write("SPECIFICATION %s\n" % spec)
        if constraint: f.write("CONSTRAINT %s\n" % constraint)
        if view: f.write("VIEW %s\n" % view)
        for i in invariants: f.write("INVARIANT %s\n" % i)
        for p in properties: f.write("PROPERTY %s\n" % p)
        if postcondition: f.write("POSTCONDITION %s\n" % postcondition)
        f.write("CHECK_DEADLOCK %s\n" % ("TRUE" if deadlock else "FALSE"))
    cmd = JAVA + ["-Djava.io.tmpdir=" + d, "-Xmx" + heap, "-Xss16m", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-config", "run.cfg"]
    if simulate: cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 10), "-seed", str(seed if seed is not None else SEED)]
    elif seed is not None: cmd += ["-seed", str(seed)]
    cmd += [module + ".tla"]
    e = dict(os.environ); e.update(env or {})
    gb = 2 if simulate else 3
    MEM.take(gb)
    try: r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    finally: MEM.give(gb)
    t = Tlc(); t.lines = []; t.rejects = []; t.other = []
    for l in r.stdout.splitlines():
        if l.startswith('"') and l.endswith('"'):
            s = json.loads(l)
            if s.startswith(prefix): t.lines.append(json.loads(s[len(prefix):]))
            elif s.startswith("REJECT "): t.rejects.append(s[7:])
            else: t.other.append(s)
        else: t.other.append(l)
    if workers > 1: t.lines.sort(key=lambda x: json.dumps(x, sort_keys=True))
    text = "\n".join(t.other); t.text = text
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct", text)
    t.states = int(m[-1][1].replace(",", "")) if m else 0
    if not m:
        m = re.findall(r"The number of states generated: (\d+)", text); t.states = int(m[-1]) if m else 0
    t.rc = r.returncode
    t.ok = r.returncode == 0
    shutil.rmtree(d, ignore_errors=True)
    if check and not t.ok:
        sys.stdout.write(text[-5000:] + "\n"); raise ToolError("TLC reports an error in the model %s" % module)
    return t

# ------------------------------------------------------------------ JSON-lines harness programs
def run_cli(binary, cases, jobs=8, timeout=240, env=None, args=(), maxbad=12):
    """Feeds cases (dicts) to harness processes; a case on which the process dies is returned with r='crash'."""
    for n, c in enumerate(cases): c["i"] = n
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1", QT_QPA_PLATFORM="offscreen", QT_LOGGING_RULES="*=false", LC_ALL="C.UTF-8")
    e.update(env or {})
    out = {}
    def worker(part):
        todo = list(part); nbad = 0
        while todo and nbad < maxbad:
            inp = "\n".join(json.dumps(c, separators=(",", ":")) for c in todo) + "\n"
            try:
                p = subprocess.run([binary] + list(args), input=inp, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
                so, se, how = p.stdout, p.stderr, "crash"
            except subprocess.TimeoutExpired as x:
                so = (x.stdout or b"").decode(errors="replace"); se = "timeout"; how = "hang"
            begun = None; done = set(); ended = False
            for l in so.splitlines():
                if l.startswith("BEGIN "): begun = int(l[6:])
                elif l == "END": ended = True
                elif l.startswith("{"):
                    try: o = json.loads(l)
                    except ValueError: continue
                    out[o["i"]] = o; done.add(o["i"])
            if ended: break
            nbad += 1
            if begun in done and out[begun].get("r") == "hang":   # the program gave up on it itself
                todo = [c for c in todo if c["i"] not in done]; continue
            if begun is None or begun in done:
                if len(done) == len(todo): break   # died in teardown after the last case
                if not done: raise ToolError("%s does not run: %s" % (binary, se[-2000:]))
                begun = [c["i"] for c in todo if c["i"] not in done][0]
            bad = [c for c in todo if c["i"] == begun][0]
            o = dict(bad); o["r"] = "crash"; o["how"] = how; o["stderr"] = se[:3000]; out[begun] = o
            todo = [c for c in todo if c["i"] not in done and c["i"] != begun]
    parts = [cases[k::jobs] for k in range(jobs)]
    with ThreadPoolExecutor(jobs) as ex:
        for f in [ex.submit(worker, p) for p in parts if p]: f.result()
    return [out[k] for k in sorted(out)]

def judge(module, records, consts=None, invariants=("Judge",), strip=("stderr", "how"), workers=8, env=None, depth=0, spec="Spec"):
    """Lets TLC judge recordings; returns [(record, reason)]."""
    if not records: return [], 0
    d = scratch(); f = os.path.join(d, "trace.ndjson")
    with open(f, "w") as h:
        for r in records: h.write(json.dumps({k: v for k, v in r.items() if k not in strip}, separators=(",", ":")) + "\n")
    e = {"TRACE": f}; e.update(env or {})
    t = tlc(module, consts, invariants, env=e, workers=workers, check=False, spec=spec)
    if not t.ok:   # a recording that the specification cannot even evaluate is no behaviour of it; it is named by k or i
        m = re.findall(r"^(?:/\\ )?[ki] = (\d+)$", t.text, re.M)
        if not m or "OutOfMemory" in t.text or not 1 <= int(m[-1]) <= len(records): sys.stdout.write(t.text[-5000:] + "\n"); raise ToolError("TLC reports an error in the model %s" % module)
        k = int(m[-1]) - 1
        if len(records) == 1: return [(records[0], "the specification has no such behaviour: " + " ".join(l for l in t.text.splitlines() if "ttempt" in l or "rror" in l)[:300])], 1
        alone, _ = judge(module, [records[k]], consts, invariants, strip, workers, env, 0, spec)
        if not alone: raise ToolError("TLC reports an error in the model %s" % module)
        return alone + ([] if depth >= 4 else judge(module, records[:k] + records[k + 1:], consts, invariants, strip, workers, env, depth + 1, spec)[0]), len(records)
    if t.states < len(records): raise ToolError("judge %s looked at %d of %d recordings" % (module, t.states, len(records)))
    res = []
    for l in t.rejects:
        k, why = l.split(" ", 1); res.append((records[int(k) - 1], why))
    return res, t.states

# ------------------------------------------------------------------ reporting
class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.violations = []; self.known = []; self.cov = {}; self.stages = []; self.assumptions = []; self.notes = []
        self.samples = 0
    def add(self, key, n): self.cov[key] = self.cov.get(key, 0) + n
    def stage(self, what, **kw):
        kw = dict(kw); kw["stage"] = what; self.stages.append(kw); log(what, " ".join("%s=%s" % (k, v) for k, v in kw.items() if k != "stage"))
    def violate(self, what, replay):
        os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
        p = os.path.join(BUILD, "replay", "%s-%d.json" % (self.pid, len(self.violations)))
        json.dump({"property": self.pid, "what": what, "replay": replay}, open(p, "w"), indent=1)
        self.violations.append((what, p))

def known(pid, word):
    """is a finding of this property that mentions the word listed?"""
    p = os.path.join(V, "known-findings.txt")
    return any(l.startswith("finding: property=%s " % pid) and word in l for l in open(p)) if os.path.exists(p) else False
