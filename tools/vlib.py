"""Common parts of the checks: building the code under test, running harnesses, running TLC, reporting."""
import os, sys, json, struct, subprocess, hashlib, glob, time, random, re, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = 8

class ToolError(Exception):
    pass

def sh(cmd, timeout=600, env=None, cwd=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd, errors="replace")

def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode())
        m.update(b"\0")
    return m.hexdigest()[:20]

def readb(p):
    with open(p, "rb") as f:
        return f.read()

# ------------------------------------------------------------------ building
# not part of the library proper: need PETSc, or are never compiled by the project
EXCLUDE = {"blasted_petsc.cpp", "blasted_petsc_io.cpp", "cmdoptions.cpp", "solverops_sgs_sai.cpp"}
BASE = ["-std=c++14", "-g1", "-UNDEBUG", "-msse4.2", "-DEIGEN_DONT_PARALLELIZE", "-w",
        "-I" + REPO + "/include", "-I" + REPO + "/src", "-I/usr/include/eigen3", "-I" + HARN]
# PETSc as installed here; the headers with its private layouts are ours
PETSCDIR = (sorted(glob.glob("/usr/lib/petscdir/petsc3*/x86_64-linux-gnu-real")) or ["/usr/lib/petscdir"])[-1]
PETSC = ["-I" + HARN + "/petsc/include", "-I" + PETSCDIR + "/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include"]
FLAVORS = {
    # address sanitizer and the real OpenMP runtime
    "asan": dict(cxx=["-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-fopenmp"], h=[], link=["-fsanitize=address", "-fopenmp"]),
    # coroutine OpenMP runtime observing every memory access
    "shim": dict(cxx=["-O1", "-fsanitize=thread", "-fno-tree-vectorize", "-DEIGEN_DONT_VECTORIZE", "-fopenmp"], h=[],
                 link=["-Wl,--wrap=malloc,--wrap=free,--wrap=posix_memalign,--wrap=memcpy,--wrap=memmove,--wrap=memset"]),
    # plain optimized code with the real OpenMP runtime
    "rel": dict(cxx=["-O2", "-fopenmp"], h=[], link=["-fopenmp"]),
}

def lib_sources():
    r = []
    for d, _, fs in os.walk(REPO + "/src"):
        for f in sorted(fs):
            if f.endswith(".cpp") and f not in EXCLUDE:
                r.append(os.path.join(d, f))
    return sorted(r)

_tree = None
def tree_hash():
    global _tree
    if _tree is None:
        m = hashlib.sha256()
        for top in ("src", "include"):
            for d, ds, fs in os.walk(os.path.join(REPO, top)):
                ds.sort()
                for f in sorted(fs):
                    if f.endswith(".cpp"): continue      # objects are kept by the contents of these
                    p = os.path.join(d, f)
                    m.update(p.encode()); m.update(readb(p))
        _tree = m.hexdigest()
    return _tree

def compile_one(args):
    src, obj, flags = args
    r = sh(["g++"] + flags + ["-c", src, "-o", obj + ".tmp"], timeout=600)
    if r.returncode == 0:
        os.rename(obj + ".tmp", obj)
    return src, r.returncode, r.stdout

def prune(d, keep):
    """keep the newest few build directories"""
    ds = sorted(glob.glob(d), key=os.path.getmtime)
    for x in ds[:-keep]:
        shutil.rmtree(x, ignore_errors=True)

def build(harnesses):
    """harnesses: list of (flavor, harness source, extra sources). Returns their executables."""
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()
    todo, exes, links = [], [], []
    dirs = {}
    for fl in sorted(set(x[0] for x in harnesses)):
        F = FLAVORS[fl]
        d = os.path.join(BUILD, "lib-%s-%s" % (fl, h(tree_hash(), *F["cxx"], *BASE)))
        os.makedirs(d, exist_ok=True); os.utime(d)
        objs = []
        for s in lib_sources():
            o = os.path.join(d, s[len(REPO) + 5:].replace("/", "_") + "-" + h(readb(s)) + ".o")
            objs.append(o)
            if not os.path.exists(o):
                todo.append((s, o, BASE + F["cxx"]))
        dirs[fl] = (d, objs)
    hh = h(*[readb(p) for p in sorted(glob.glob(HARN + "/*.hpp") + glob.glob(HARN + "/petsc/**/*.h", recursive=True))])
    for fl, src, extra in harnesses:
        F = FLAVORS[fl]; d, objs = dirs[fl]
        hobjs = []
        srcs = [src] + list(extra) + (["shim.cpp"] if fl == "shim" else [])
        for s in srcs:
            p = os.path.join(HARN, s)
            # the shim itself is not instrumented; harness code is not either, except where templates of the library are instantiated in it
            flags = list(BASE) + (["-O1"] if fl == "shim" else F["cxx"])
            if fl == "shim" and s != "shim.cpp" and "//INSTRUMENT" in open(p).read():
                flags = list(BASE) + F["cxx"]
            if "petsc" in os.path.basename(s) or os.path.basename(s) == "cmdoptions.cpp": flags += PETSC
            if fl == "shim": flags += ["-DVSHIM", "-DEIGEN_DONT_VECTORIZE"]
            o = os.path.join(d, "h-%s-%s.o" % (os.path.basename(s), h(readb(p), hh, *flags)))
            hobjs.append(o)
            if not os.path.exists(o) and all(t[1] != o for t in todo):
                todo.append((p, o, flags))
        exe = os.path.join(d, "x-" + os.path.basename(src) + "-" + h(*hobjs, *objs))
        exes.append(exe); links.append((exe, hobjs, objs, F["link"] + (["-lpetsc_real", "-lmpi"] if any("petsc" in os.path.basename(s) for s in srcs) else [])))
    # the slowest first
    slow = {"sai.cpp": 0, "async_blockilu_factor.cpp": 1, "solverops_jacobi.cpp": 2, "solverops_ilu0.cpp": 3, "solverops_sgs.cpp": 4, "coomatrix.cpp": 5}
    todo.sort(key=lambda t: (0 if HARN in t[0] else 1, slow.get(os.path.basename(t[0]), 9)))
    if todo:
        with ThreadPoolExecutor(JOBS) as ex:
            for s, rc, out in ex.map(compile_one, todo):
                if rc:
                    raise ToolError("compiling %s failed:\n%s" % (s, out[-3000:]))
    for exe, hobjs, objs, lk in links:
        if not os.path.exists(exe):
            r = sh(["g++", "-o", exe + ".tmp"] + hobjs + objs + lk)
            if r.returncode:
                raise ToolError("linking %s failed:\n%s" % (exe, r.stdout[-3000:]))
            os.rename(exe + ".tmp", exe)
    for fl in dirs:
        prune(os.path.join(BUILD, "lib-%s-*" % fl), 4)
    return exes, time.time() - t0

# ------------------------------------------------------------------ harness I/O
def fmt(x):
    if isinstance(x, bool): return "1" if x else "0"
    if isinstance(x, int): return str(x)
    if isinstance(x, float): return repr(x)
    if isinstance(x, str): return x
    if isinstance(x, (list, tuple)): return " ".join([str(len(x))] + [fmt(y) for y in x])
    raise TypeError(type(x))

def case_line(cid, *toks):
    return " ".join([str(cid)] + [fmt(t) for t in toks])

def parse_results(path):
    res, cur = {}, None
    with open(path, errors="replace") as f:
        for line in f:
            line = line.rstrip("\n")
            if line.startswith("# "):
                cur = {}; res[int(line[2:])] = cur
            elif line == "." or cur is None:
                continue
            else:
                p = line.split(" ")
                k, ty = p[0], p[1]
                if ty == "s": cur[k] = " ".join(p[3:])
                else:
                    n = int(p[2]); vals = p[3:3 + n]
                    v = [int(x) for x in vals] if ty == "i" else [float(x) for x in vals]
                    if len(v) != n: cur["crash"] = [-1]
                    if k == "u": cur.setdefault("u", []).append(v)      # repeated key: a list
                    else: cur[k] = v
    return res

def fl(x):
    """a double as the pair of 32-bit halves that the specification uses"""
    if x == 0: return [0, 0]
    if x != x: return [2146959360, 0]
    hi, lo = struct.unpack(">ii", struct.pack(">d", x))
    return [hi, lo]

def crashed(r):
    if "crash" in r: return r["crash"][0] or 1
    return 1 if "exception" in r else 0

def fv(xs): return [fl(x) for x in xs]

def blocks(xs, b):
    """flat values -> list of blocks of b values"""
    return [fv(xs[k:k + b]) for k in range(0, len(xs), b)]

# ------------------------------------------------------------------ TLC
def javadir():
    d = os.path.join(BUILD, "java-" + h(*[readb(p) for p in sorted(glob.glob(SPEC + "/java/*.java"))]))
    if not os.path.exists(d + "/ok"):
        os.makedirs(d, exist_ok=True)
        r = sh(["javac", "-nowarn", "-cp", TLAJARS, "-d", d] + sorted(glob.glob(SPEC + "/java/*.java")))
        if r.returncode: raise ToolError("javac: " + r.stdout)
        open(d + "/ok", "w").close()
    return d

def tlc(module, cfg, env=None, timeout=800, workers=1, xmx="3g", extra=(), work=None, consts=None):
    """runs TLC in a scratch directory; returns (exit code, output)"""
    import tempfile
    w = work or tempfile.mkdtemp(prefix="tlc-", dir=BUILD)
    # a line "INCLUDE f" of a configuration stands for the contents of file f
    text = "".join(open(os.path.join(SPEC, l.split()[1])).read() if l.startswith("INCLUDE ") else l for l in open(os.path.join(SPEC, cfg)))
    for k, v in (consts or {}).items(): text = re.sub(r"(?m)^ +%s = .*$" % k, " %s = %s" % (k, v), text)
    cfgp = os.path.join(w, os.path.basename(cfg))
    with open(cfgp, "w") as f: f.write(text)
    e = dict(os.environ); e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss64m", "-XX:TieredStopAtLevel=4",
           "-Djava.io.tmpdir=" + w, "-DTLA-Library=" + SPEC, "-cp", javadir() + ":" + TLAJARS, "tlc2.TLC", "-workers", str(workers),
           "-metadir", w, "-noGenerateSpecTE", "-config", cfgp] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    try:
        r = sh(cmd, timeout=timeout, env=e, cwd=w)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        return -1, "TIMEOUT " + str(x.stdout)[-2000:]
    finally:
        if not work: shutil.rmtree(w, ignore_errors=True)

def tlc_stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", ",").replace("\u00a0", ""))
    if m: return int(m[-1][0]), int(m[-1][1])
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if m: return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
    m = re.findall(r"The number of states generated: ([\d,]+)", out)
    if m: return int(m[-1].replace(",", "")), 0
    return 0, 0

# ------------------------------------------------------------------ a check
class Check:
    def __init__(self, pid, thorough, only=None):
        self.pid, self.thorough, self.only = pid, thorough, only
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.rng = random.Random(self.seed * 1000003 + sum(ord(c) for c in pid))
        self.states = self.trans = self.traces = self.lines = 0
        self.samples = 0
        self.viol = []; self.notrun = set()          # (case, why, detail)
        self.notes = []; self.assume = []
        self.cov = {}           # what was covered: counters
        self.models = {}
        self.case_of = {}       # case id -> (harness exe, line)
        os.makedirs(BUILD, exist_ok=True)
        self.work = os.path.join(BUILD, "work-%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.next_id = 0

    def count(self, k, n=1): self.cov[k] = self.cov.get(k, 0) + n
    def scale(self, quick, thorough): return thorough if self.thorough else quick
    def newid(self):
        self.next_id += 1
        return self.next_id

    def build(self, *hs):
        exes, t = build(list(hs))
        self.notes.append("build %.1fs" % t)
        return exes

    def run_harness(self, exe, lines, timeout=600, env=None, jobs=JOBS):
        """lines: dict id -> case line (without id). Returns dict id -> result."""
        ids = sorted(lines)
        for i in ids: self.case_of[i] = (exe, lines[i])
        n = max(1, min(jobs, (len(ids) + 3) // 4))
        parts = [ids[k::n] for k in range(n)]
        base = os.path.join(self.work, "h%d" % len(os.listdir(self.work)))
        e = dict(os.environ); e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=1"
        e.update(env or {})
        if "OMP_NUM_THREADS" not in (env or {}): e["OMP_NUM_THREADS"] = "4"
        def go(k):
            ci, co = "%s-%d.in" % (base, k), "%s-%d.out" % (base, k)
            with open(ci, "w") as f:
                for i in parts[k]: f.write("%d %s\n" % (i, lines[i]))
            r = sh([exe, ci, co], timeout=timeout, env=e, cwd=self.work)
            if r.returncode: raise ToolError("harness %s: exit %d\n%s" % (exe, r.returncode, r.stdout[-2000:]))
            return parse_results(co)
        res = {}
        with ThreadPoolExecutor(n) as ex:
            for d in ex.map(go, range(n)): res.update(d)
        if any("crash" in r for r in res.values()):
            for i in ids: res.setdefault(i, {"crash": [999]})
        # cases a harness did not run after too many crashes: neither accepted nor rejected
        self.notrun.update(i for i in res if res[i].get("crash", [0])[0] == 999)
        miss = [i for i in ids if i not in res]
        if miss: raise ToolError("harness %s gave no result for %d cases, e.g. %d: %s" % (exe, len(miss), miss[0], lines[miss[0]][:300]))
        return res

    def reject(self, case, why, detail=None):
        if case in self.notrun: return
        self.viol.append((case, why, detail))

    def trace(self, module, cases, cfg=None, jobs=JOBS, timeout=800):
        """cases: list of (case id, [line dict...]). Validates them against the trace specification.
        Every line gets fields case and step. Returns the list of rejected (case, step, why)."""
        cfg = cfg or module + ".cfg"
        if not cases: raise ToolError("no traces for " + module)
        cost = lambda c: 20 + sum(len(json.dumps(x)) for x in c[1][:3])
        n = max(1, min(jobs, len(cases)))
        bins = [[] for _ in range(n)]; w = [0] * n
        for c in sorted(cases, key=lambda c: -cost(c)):
            k = w.index(min(w)); bins[k].append(c); w[k] += cost(c)
        base = os.path.join(self.work, "t%d-%s" % (len(os.listdir(self.work)), module))
        bycase = dict(cases)
        def go(k):
            p = "%s-%d.ndjson" % (base, k)
            nl = 0
            with open(p, "w") as f:
                for cid, ls in bins[k]:
                    for st, x in enumerate(ls):
                        x = dict(x); x["case"] = cid; x["step"] = st + 1
                        f.write(json.dumps(x) + "\n"); nl += 1
            drop = []
            for attempt in range(6):
                rc, out = tlc(module, cfg, env={"TRACE": p}, timeout=timeout)
                if rc == 0 or "TIMEOUT" in out[:10]: break
                # TLC cannot evaluate the specification on some observation: a value outside its domain
                ls = re.findall(r"(?m)^/?\\?\s*l = (\d+)$", out)
                if not ls or "Error:" not in out: break
                at = int(ls[-1])
                rows = [json.loads(x) for x in open(p)]
                if not (1 <= at <= len(rows)): break
                # the same observation must fail again by itself
                bad = rows[at-1]["case"]; one = [r for r in rows if r["case"] == bad]
                q = p + ".one"
                open(q, "w").write("".join(json.dumps(r) + "\n" for r in one))
                rc1, out1 = tlc(module, cfg, env={"TRACE": q}, timeout=timeout)
                if rc1 == 0: break
                if os.environ.get("VERIF_DEBUG"): print(out[-3000:])
                drop.append((bad, rows[at-1]["step"], "the observation is outside the domain of the specification"))
                open(p, "w").write("".join(json.dumps(r) + "\n" for r in rows if r["case"] != bad))
                nl -= len(one)
                if nl == 0: rc, out = 0, '<<"DONE", 0>>'; break
            if rc != 0 and drop: rc, nl, out = 0, 0, '<<"DONE", 0>>'        # enough cases confirmed; the others of this part are not judged
            return p, nl, rc, out, drop
        rej = []
        with ThreadPoolExecutor(n) as ex:
            rs = list(ex.map(go, range(n)))
        for k, (p, nl, rc, out, drop) in enumerate(rs):
            rej += drop
            s, d = tlc_stats(out)
            m = re.search(r'<<"DONE", (\d+)>>', out)
            rr = re.findall(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*"([^"]*)"', out)
            if not m or int(m.group(1)) != nl or rc != 0:
                if "TIMEOUT" in out[:10]: raise ToolError("TLC timed out on " + p)
                # find the line at which evaluation failed
                raise ToolError("TLC failed on %s (exit %d)\n%s" % (p, rc, out[-3500:]))
            self.states += d; self.trans += s; self.lines += nl
            for c, st, why in rr: rej.append((int(c), int(st), why))
        self.traces += len(cases)
        self.models[module] = self.models.get(module, 0) + sum(len(b) for b in bins)
        for c, st, why in sorted(set(rej)):
            self.reject(c, why, {"step": st, "module": module, "lines": bycase[c]})
        return rej

    def mc(self, module, cfg=None, timeout=800, workers=4, consts=None, must=(), xmx="4g"):
        """exhaustive model; it must hold (it does not depend on the code)"""
        cfg = cfg or module + ".cfg"
        t = time.time()
        rc, out = tlc(module, cfg, timeout=timeout, workers=workers, xmx=xmx, consts=consts)
        if rc != 0: raise ToolError("model %s/%s: exit %d\n%s" % (module, cfg, rc, out[-3000:]))
        s, d = tlc_stats(out)
        if d == 0 and s == 0: raise ToolError("model %s explored nothing" % module)
        self.states += d; self.trans += s
        self.models[cfg[:-4]] = {"generated": s, "distinct": d, "s": round(time.time() - t, 1)}
        return out

    def refuted(self, module, cfg=None, consts=None, timeout=600, workers=4, xmx="4g"):
        """the same model with a fault in it: it must be found out (the properties are not vacuous)"""
        cfg = cfg or module + ".cfg"
        rc, out = tlc(module, cfg, timeout=timeout, workers=workers, xmx=xmx, consts=consts)
        if rc not in (12, 13): raise ToolError("faulty model %s/%s %s not found out: exit %d\n%s" % (module, cfg, consts, rc, out[-3000:]))
        self.count("faulty_models_found_out")

    def finish(self, level="model_checking", sample=None):
        known = load_known(self.pid)
        shown = []
        groups = {}
        for c, why, det in self.viol: groups.setdefault(c, []).append((why, det))
        real = 0
        rdir = os.path.join(BUILD, "replay", self.pid)
        shutil.rmtree(rdir, ignore_errors=True)
        knownhit = set()
        lines = []
        for c in sorted(groups):
            sig = signature(self, c)
            k = [x for x in known if x["kind"] == "known" and x.get("signature") == sig and any(x.get("why") in (None, w) for w, _ in groups[c])]
            if k:
                knownhit.add(json.dumps(k[0], sort_keys=True)); continue
            real += 1
            os.makedirs(rdir, exist_ok=True)
            p = os.path.join(rdir, "case-%s.json" % c)
            exe, line = self.case_of.get(c, ("", ""))
            if real <= 20:
                with open(p, "w") as f:
                    json.dump({"property": self.pid, "case": c, "harness": os.path.basename(exe), "input": line, "seed": self.seed,
                               "tier": "thorough" if self.thorough else "quick",
                               "reasons": [w for w, _ in groups[c]], "trace": [d for _, d in groups[c] if d][:2]}, f, indent=1)
                lines.append("VIOLATION property=%s replay=%s" % (self.pid, p))
                lines.append("  case %s: %s" % (c, "; ".join(sorted(set(w for w, _ in groups[c])))[:600]))
        for x in known:
            if x["kind"] == "known":
                print("KNOWN-FINDING: property=%s %s" % (self.pid, x["text"]))
        for s in lines: print(s)
        ev = {"property": self.pid, "tier": "thorough" if self.thorough else "quick", "seed": self.seed, "level": level,
              "coverage": {"states": max(self.states, 1), "transitions": max(self.trans, 1), "traces_validated_against_impl": self.traces,
                           "samples": [str(x) for x in (sample or [])][:10] or ["see counters"]},
              "assumptions": self.assume or ["the C++ compiler and runtime"], "wall_s": round(time.time() - self.t0, 2), "violations": real}
        ev["coverage"]["counters"] = self.cov
        ev["coverage"]["trace_lines"] = self.lines
        ev["coverage"]["models"] = self.models
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
        if not os.environ.get("VERIF_KEEP"): shutil.rmtree(self.work, ignore_errors=True)
        print("%s: %d cases, %d trace lines, %d states, %d violations, %.1fs (%s)" %
              (self.pid, self.traces, self.lines, self.states, real, time.time() - self.t0, ", ".join("%s=%s" % kv for kv in sorted(self.cov.items()))[:900]))
        if self.notrun and not real: raise ToolError("%d cases were not run after crashes that no check rejects" % len(self.notrun))
        return 1 if real else 0

def signature(ck, c):
    exe, line = ck.case_of.get(c, ("", ""))
    return h(line)

def load_known(pid):
    """known_findings.txt: 'fixed: property=<id> <commit> <what>' or 'known: property=<id> signature=<sig> <what>'"""
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) signature=(\S+) (.*)", l)
            if m and m.group(1) == pid: r.append({"kind": "known", "signature": m.group(2), "text": m.group(3)})
    return r
