from vlib import *
import gen, re
from p_c13 import histories

class Ob:
    """what the generator knows of an object: its pattern, and which entries it may address"""
    def __init__(self, n, bs, rp, ci): self.n, self.bs, self.rp, self.ci = n, bs, rp, ci; self.st = {(i, ci[p]) for i in range(n) for p in range(rp[i], rp[i+1])}
    def fulldiag(self): return all((i, i) in self.st for i in range(self.n))
    def sub(self, rng, diag=False):
        """a dense sub-block all of whose entries are stored"""
        best = None
        for _ in range(30):
            h = rng.choice([1, 1, 2, 2, 3]); w = h if diag else rng.choice([1, 1, 2, 2, 3])
            if h > self.n or w > self.n: continue
            i = rng.randrange(self.n - h + 1); j = i if diag else rng.randrange(self.n - w + 1)
            if all((a, b) in self.st for a in range(i, i + h) for b in range(j, j + w)):
                if best is None or h * w > best[2] * best[3] or rng.random() < 0.3: best = (i, j, h, w)
        if best is None and not diag: i, j = rng.choice(sorted(self.st)); best = (i, j, 1, 1)
        if best is None: i = rng.choice([i for i in range(self.n) if (i, i) in self.st]); best = (i, i, 1, 1)
        return best

class Sess:
    def __init__(self, rng, bs, sched):
        self.rng, self.bs, self.ob, self.toks, self.lines = rng, bs, {}, list(sched) + [bs], []
        self.diag = rng.random() < 0.85          # diagonals all stored
        self.n = rng.choice([1, 2, 3, 3, 4, 5] if bs == 1 else [1, 2, 3] if bs == 3 else [1, 2])
    def t(self, *xs): self.toks += xs
    def line(self, op, k, **f): f.update(op=op, k=k); self.lines.append(f)
    def pat(self):
        rng = self.rng; n = self.n if rng.random() < 0.7 else rng.choice([1, 2, 3] if self.bs < 7 else [1, 2])
        s = gen.pattern(rng, n, rng.choice(gen.KINDS), rng.choice([0.3, 0.6]), diag=self.diag)
        if not s: s = {(0, n - 1)}
        rp, ci = gen.csr(s, n, rng.shuffle if self.bs > 1 and rng.random() < 0.5 else None)
        return n, rp, ci
    def new(self, op, k):
        rng, bs = self.rng, self.bs
        last = getattr(self, "lastpat", None)
        n, rp, ci = last if last and rng.random() < 0.5 else self.pat()
        if last and rng.random() < 0.15:         # the same sizes, another pattern
            cand = [self.pat() for _ in range(6)]; cand = [c for c in cand if c[0] == last[0] and len(c[2]) == len(last[2])]
            if cand: n, rp, ci = rng.choice(cand)
        self.lastpat = (n, rp, ci)
        self.ob[k] = Ob(n, bs, rp, ci)
        if op in ("new", "struct", "null"): self.t(op, k, n, rp, ci); self.line(op, k, pat={"n": n, "bs": bs, "rp": rp, "ci": ci})
        else:
            lv = getattr(self, "lastval", None)
            v = list(lv[1]) if lv and lv[0] == (n, rp, ci) and rng.random() < 0.6 else gen.values(rng, rp, ci, n, bs)
            if lv and rng.random() < 0.5: q = rng.randrange(len(v)); v[q] = v[q] + rng.choice([0.25, -0.25, 1.0])      # nearly the same matrix
            self.lastval = ((n, rp, ci), v)
            m = gen.M(n, bs, rp, ci, v); self.t(op, k, *m.toks()); self.line(op, k, m=m.tla())
    def upd(self, k, diag, miss=False):
        rng, bs, o = self.rng, self.bs, self.ob[k]
        if bs == 1: i, j, h, w = o.sub(rng, diag)
        else:
            c = sorted((i, j) for (i, j) in o.st if not diag or i == j)
            if miss: c = [(i, j) for i in range(o.n) for j in range(o.n) if (i, j) not in o.st] or c
            (i, j), h, w = rng.choice(c), 1, 1
        b = gen.vec(rng, h * w * bs * bs)
        return [1 if diag else 0, i, j, h, w, b], {"i": i, "j": j, "h": h, "w": w, "b": blocks(b, bs * bs)}
    def op(self, op, k):
        rng, o = self.rng, self.ob.get(k)
        if op in ("new", "wrap", "take", "move", "struct"):
            if op == "new" and rng.random() < 0.3: op = "null"
            self.new({"take": "raw", "move": "sr"}.get(op, op), k)
        elif op == "copy":
            j = rng.choice([x for x in self.ob if x != k]); self.ob[k] = self.ob[j]; self.t("copy", k, j); self.line("copy", k, j=j)
        elif op == "zero" or (op == "dzero" and not o.fulldiag()): self.t("zero", k); self.line("zero", k)
        elif op == "dzero": self.t("dzero", k); self.line("dzero", k)
        elif op in ("sub", "upd", "udg"):
            d = op == "udg"
            if d and not any((i, i) in o.st for i in range(o.n)): op, d = "upd", False
            t, u = self.upd(k, d, not d and self.bs > 1 and rng.random() < 0.15)
            if op == "upd" and t[0] == 1: op = "udg"
            self.t(op, k, *t); self.line(op, k, u=u)
        elif op == "scale": f = rng.choice([0.5, -1.0, 2.0, 0.0, gen.rnd(rng)]); self.t("scale", k, f); self.line("scale", k, f=fl(f))
        elif op == "par":
            T = rng.choice([2, 2, 3, 4]); us, tk = [], []
            hasd = any((i, i) in o.st for i in range(o.n))
            shared = [self.upd(k, hasd and rng.random() < 0.4) for _ in range(rng.choice([1, 1, 2]))]
            for t in range(T):
                c = rng.choice([1, 2, 3]); tk.append(c)
                for _ in range(c):
                    t1, u = rng.choice(shared) if rng.random() < 0.7 else self.upd(k, hasd and rng.random() < 0.4)
                    tk += t1; us.append(u)
            self.t("par", k, T, *tk); self.line("par", k, us=us)
        elif op == "equal":
            j = rng.choice([x for x in self.ob if x != k]); tol = rng.choice([0.0, 1e-8, 0.3, 2.0])
            self.t("equal", k, j, tol); self.line("equal", k, j=j, tol=fl(tol))
        elif op == "query":
            if self.bs == 1 and o.fulldiag(): self.t("query", k); self.line("query", k)
            else: self.t("scale", k, 2.0); self.line("scale", k, f=fl(2.0))
        elif op == "del": del self.ob[k]; self.t("del", k); self.line("del", k)
    def trace(self, r):
        out = []; bs = self.bs; c = crashed(r)
        for st, x in enumerate(self.lines, 1):
            x = dict(x); objs = []
            for q in (1, 2):
                g = lambda a: r.get("%s%d_%d" % (a, q, st), [])
                h = g("h")
                objs.append([] if not h else [{"n": h[0], "nnzb": h[1], "nbst": h[2], "dim": h[3], "rp": g("rp"), "ci": g("ci"), "di": g("di"), "re": g("re"), "a": blocks(g("v"), bs * bs)}])
            x["objs"] = objs; x["crash"] = c if st == len(self.lines) or not r else 0
            if c and not any(objs): x["crash"] = c
            for a in ("zrow", "nzero", "nulled"):
                if a + str(st) in r: x[a] = r[a + str(st)][0]
            if "eq%d" % st in r: x["eq"] = r["eq%d" % st]
            if "dq%d" % st in r: x["dq"] = fv(r["dq%d" % st])
            out.append(x)
        return out

def usable(h): return any(op not in ("new", "wrap", "take", "move", "struct", "copy", "equal") for op, k in h)

def run(ck):
    rng = ck.rng
    asan, shim = ck.build(("asan", "h_assembly.cpp", []), ("shim", "h_assembly.cpp", []))
    short, total = histories(ck, "AssemblyHist", "AssemblyHist.cfg", {"Depth": 4}, ck.scale(1500, 8000))
    ck.cov["histories_depth4_total"] = total
    rc, out = tlc("AssemblyHist", "AssemblyHist.cfg", extra=["-simulate", "num=%d" % ck.scale(400, 1500), "-depth", "16", "-seed", str(rng.randrange(1 << 30))], consts={"Depth": 14})
    long = [re.findall(r'<<"(\w+)", *(\d+)>>', x) for x in re.findall(r'<< *"HIST",(.*?>>) *>> *>>', " ".join(out.split()))]
    long = sorted(long); rng.shuffle(long); long = long[:ck.scale(300, 2000)]
    if not long: raise ToolError("no random histories\n" + out[-1500:])
    jobs = {asan: {}, shim: {}}; sess = {}
    for h in short + long:
        h = [(op, int(k)) for op, k in h]
        if not usable(h): continue
        bs = rng.choice([1, 1, 1, 3, 7]) if len(h) < 6 else rng.choice([1, 1, 3, 7])
        par = any(op == "par" for op, k in h)
        exe = shim if rng.random() < (0.8 if par else 0.3) else asan
        s = Sess(rng, bs, gen.schedule(rng) if exe == shim else [rng.choice([1, 2, 4]), 0, 0, 1, []])
        for op, k in h: s.op(op, k)
        cid = ck.newid(); sess[cid] = s; jobs[exe][cid] = " ".join(fmt(t) for t in s.toks)
        ck.count("bs%d" % bs); ck.count("schedules" if exe == shim else "native"); ck.count("calls", len(h))
    # two and more threads updating the same few entries
    for _ in range(ck.scale(300, 3000)):
        bs = rng.choice([1, 1, 3, 7]); sc = gen.schedule(rng)
        s = Sess(rng, bs, sc); s.op(rng.choice(["wrap", "take", "move"]), 1)
        for _ in range(rng.choice([1, 2, 3])): s.op("par", 1)
        cid = ck.newid(); sess[cid] = s; jobs[shim][cid] = " ".join(fmt(t) for t in s.toks); ck.count("concurrent")
    cases = []
    for exe in (asan, shim):
        for cid, r in ck.run_harness(exe, jobs[exe]).items(): cases.append((cid, sess[cid].trace(r)))
    ck.trace("T_Assembly", cases)
    ck.mc("MC_Assembly", workers=8, consts={"Depth": 3} if ck.thorough else {})
    ck.refuted("MC_Assembly", workers=8, consts={"Atomic": "FALSE"})
    ck.assume += ["point sub-blocks are fully stored in sorted rows (documented precondition)", "equality up to 1e-9 relative rounding", "matrices up to 5 rows, block sizes 1, 3, 7 (the instantiated ones)"]
    return ck.finish(sample=["case %d: %s" % (c, jobs[asan].get(c, jobs[shim].get(c, ""))[:150]) for c in list(sess)[:4]])
