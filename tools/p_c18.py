"""C18: sessions with the PETSc front end, on PETSc itself."""
from vlib import *
from solver_common import *

METHODS = ["jacobi", "gs", "sgs", "ilu0", "seqilu0", "sfilu0", "sapilu0", "cscbgs", "level_sgs", "async_level_ilu0", "none", "of_the_user"]
PLAIN = ("jacobi", "level_sgs", "none")
FI = ["init_zero", "init_original", "init_sgs", "init_none"]; AI = ["init_zero", "init_jacobi", "init_none"]
KEYS = {"type": "-blasted_pc_type", "sweeps": "-blasted_async_sweeps", "chunk": "-blasted_thread_chunk_size", "scale": "-blasted_use_symmetric_scaling",
        "finit": "-blasted_async_fact_init_type", "ainit": "-blasted_async_apply_init_type", "info": "-blasted_compute_preconditioner_info"}
UNSET = {"type": "", "sweeps": {"set": False, "ok": False, "v": [1, 1]}, "chunk": {"set": False, "ok": False, "v": 0}, "scale": "unset", "finit": "", "ainit": "", "info": "unset"}

class Case:
    def __init__(self, rng, user):
        self.rng, self.user = rng, user
        self.trees = []; self.leaves = []; self.ops = []; self.lines = []; self.step = 0; self.opt = {k: (dict(v) if isinstance(v, dict) else v) for k, v in UNSET.items()}
    # ---- trees
    def leaf(self, kind, m, mt):
        self.leaves.append({"kind": kind, "m": m, "mt": mt, "tree": len(self.trees)})
        return {"kind": "shell", "id": len(self.leaves), "blocks": 0, "sub": []}
    def mat(self, bs, n=None, nodiag=False):
        m = matrix(self.rng, bs, sym=True, nmax=5)
        if n:
            while True:
                m = gen.matrix(self.rng, n, bs, self.rng.choice(["random", "tri", "arrow", "band", "dense"]), .3, diag=True, sym=True, dom=-1.0)
                if sane(m) and sane(m, True): break
        if nodiag:
            d = self.rng.randrange(m.n); k = [p for p in range(m.rp[d], m.rp[d+1]) if m.ci[p] == d][0]; b = bs * bs
            m = gen.M(m.n, bs, [x - (q > d) for q, x in enumerate(m.rp)], m.ci[:k] + m.ci[k+1:], m.v[:k*b] + m.v[(k+1)*b:])
        return m
    def mtype(self, bs): return "baij" if bs > 1 else self.rng.choice(["aij", "aij", "baij"])
    def tree(self, depth, m, mt, toks):
        """fills toks, returns the structure"""
        r = self.rng
        k = r.choice(["shell", "shell", "bjacobi", "asm", "ksp", "mg"] if depth > 0 else ["shell"] * 5 + ["other"])
        if k == "asm" and mt == "aij4": k = "bjacobi"
        return self.node(k, depth, m, mt, toks)
    def node(self, k, depth, m, mt, toks, blocks=1, sub=None):
        r = self.rng
        toks.append(k)
        if k == "shell": return self.leaf("inner", m, mt)
        if k == "other": return {"kind": "other", "id": 0, "blocks": 0, "sub": []}
        if k in ("bjacobi", "asm"):
            toks.append(blocks); t = []; subs = [self.tree(depth - 1, m, mt, t) if blocks == 1 else self.node("shell", 0, m, mt, t)]
            for q in range(blocks - 1): self.node("shell", 0, m, mt, [])
            if blocks > 1: subs = [{"kind": "shell", "id": len(self.leaves) - blocks + 1 + q, "blocks": 0, "sub": []} for q in range(blocks)]
            toks += t; return {"kind": k, "id": 0, "blocks": blocks, "sub": subs}
        if k == "ksp": return {"kind": k, "id": 0, "blocks": 0, "sub": [self.tree(depth - 1, m, mt, toks)]}
        if k == "mg":
            L = r.choice([2, 2, 3]); subs = []; toks.append(L)
            for l in range(L):
                if l < L - 1:
                    bs = r.choice([1, 1, 4, 5]) if m.bs > 1 else 1
                    while True:
                        c = self.mat(bs); ct = self.mtype(bs)
                        if c.n * bs <= m.n * m.bs or c.n == 1 and bs <= m.n * m.bs: break
                        bs = 1
                    toks += [ct] + c.toks()
                else: c, ct = m, mt
                t = []; subs.append(self.node(r.choice(["shell", "shell", "shell", "other"]), 0, c, ct, t)); toks += t
                if subs[-1]["kind"] == "shell": self.leaves[-1]["kind"] = "level" if l < L - 1 else "inner"
            return {"kind": k, "id": 0, "blocks": 0, "sub": subs}
    def add_tree(self, k=None, m=None, mt=None, blocks=1):
        bs = self.rng.choice([1, 1, 1, 4, 5])
        m = m or self.mat(bs); mt = mt or self.mtype(m.bs); toks = []
        if mt == "aij" and self.rng.random() < .2 and m.n % 4 == 0: mt = "aij4"
        first = len(self.leaves)
        t = self.node(k, 1, m, mt, toks, blocks) if k else self.tree(2, m, mt, toks)
        if t["kind"] == "shell": self.leaves[-1]["kind"] = "root"
        self.trees.append((m, mt, toks, t, list(range(first + 1, len(self.leaves) + 1))))
    def add_gamg(self, m, mt, probe):
        """algebraic multigrid: PETSc decides on the levels"""
        toks = ["gamg", "shell", "shell"]; self.trees.append([m, mt, toks, None, None])
        r = probe(self); n = r["leaves"][0]; first = len(self.leaves); subs = []
        for k in range(first + 1, n + 1):
            bs = r["bs%d" % k][0]; rp = r["rp%d" % k]; ty = r["type%d" % k]
            q = gen.M(len(rp) - 1, bs, rp, r["ci%d" % k], [x for x in r["v%d" % k]])
            self.leaves.append({"kind": "inner", "m": q, "mt": "aij", "tree": len(self.trees) - 1}); subs.append({"kind": "shell", "id": k, "blocks": 0, "sub": []})
        self.trees[-1][3:] = [{"kind": "gamg", "id": 0, "blocks": 0, "sub": subs}, list(range(first + 1, n + 1))]
    # ---- operations
    def op(self, toks, line=None):
        self.ops += toks; self.step += 1
        if line is not None: self.lines.append((self.step, line))
    def setopt(self, key, text, lexed):
        if text is None: self.op(["clr", KEYS[key]])
        else: self.op(["opt", KEYS[key], "=" + text])
        self.opt[key] = lexed; o = json.loads(json.dumps(self.opt))
        self.lines.append((0, {"op": "opt", "opt": o}))
    def options(self, good=True, bad=None, types=None):
        r = self.rng
        ty = r.choice(types or METHODS[:11])
        if bad == "type": (self.setopt("type", None, "") if r.random() < .3 else (lambda s: self.setopt("type", s, s))(r.choice(["ILU0", "ilu", "sai", "jacobi2", "gauss", "external", "level_ilu0"])))
        else: self.setopt("type", ty, ty)
        # sweeps
        if bad == "sweeps": t = r.choice(["2", "x,1", "1,y", "2,", "two"]); self.setopt("sweeps", t, {"set": True, "ok": t in ("2", "2,"), "v": [2]})
        elif r.random() < .12 and bad != "symbol": self.setopt("sweeps", None, UNSET["sweeps"])
        else:
            v = [r.choice([1, 2, 3, 12]), r.choice([1, 2, 3, 12])]
            if ty in ILU and r.random() < .45 or bad == "symbol": v[r.randrange(2)] = -1
            if ty in ILU and r.random() < .2: v = [-1, -1]
            self.setopt("sweeps", "%d,%d" % tuple(v), {"set": True, "ok": True, "v": v})
        if bad == "chunk": t = r.choice([None, "x", "1x", "four"]); self.setopt("chunk", t, {"set": t is not None, "ok": False, "v": 0})
        elif r.random() < .9 or ty not in PLAIN: v = r.choice([1, 2, 4, 384]); self.setopt("chunk", str(v), {"set": True, "ok": True, "v": v})
        if bad == "scale": t = r.choice([None, "perhaps", "2x"]); self.setopt("scale", t, "unset" if t is None else "bad")
        else: b = r.randrange(2); self.setopt("scale", r.choice([["false", "0", "no", "off", "FALSE"], ["true", "1", "yes", "on", ""]][b]), "yes" if b else "no")
        if bad == "finit": t = r.choice([None, "zero", "init_jacobi", "INIT_ZERO"]); self.setopt("finit", t, t or "")
        else: t = r.choice(FI); self.setopt("finit", t, t)
        if bad == "ainit": t = r.choice([None, "jacobi", "init_sgs", "init_original"]); self.setopt("ainit", t, t or "")
        else: t = r.choice(AI[:2] * 6 + AI[2:]); self.setopt("ainit", t, t)
        if bad == "info": self.setopt("info", "perhaps", "bad")
        elif r.random() < .5: b = r.randrange(2); self.setopt("info", [r.choice(["false", "0"]), r.choice(["true", ""])][b], "yes" if b else "no")
        else: self.setopt("info", None, "unset")
    def k(self): return self.rng.randrange(len(self.leaves)) + 1
    def stack(self, t): self.op(["stack", t], {"op": "stack", "t": t})
    def setup(self, k): self.op(["setup", k], {"op": "setup", "k": k})
    def val(self, k):
        q = revalue(self.rng, self.leaves[k-1]["m"]); self.leaves[k-1]["m"] = q
        self.op(["val", k, list(q.v)], {"op": "val", "k": k, "a": blocks(q.v, q.bs * q.bs)})
    def newmat(self, k, nodiag=False, same=False):
        L = self.leaves[k-1]; m = L["m"]
        if same: q = revalue(self.rng, m); mt = L["mt"] if L["mt"] != "aij4" else "aij"
        else:
            N = m.n * m.bs; bs = self.rng.choice([b for b in (1, 1, 4, 5) if N % b == 0])
            q = self.mat(bs, N // bs, nodiag); mt = self.mtype(bs)
        L["m"] = q; L["mt"] = mt
        self.op(["mat", k, mt] + q.toks(), {"op": "mat", "k": k, "m": q.tla()})
    def grow(self, k):
        """more entries for the matrix that is there; None when it is full"""
        L = self.leaves[k-1]; m = L["m"]; r = self.rng
        have = {(i, m.ci[p]) for i in range(m.n) for p in range(m.rp[i], m.rp[i+1])}
        free = [(i, j) for i in range(m.n) for j in range(i) if (i, j) not in have]
        if not free: return False
        for _ in range(50):
            more = set(r.sample(free, r.randint(1, len(free)))); s = have | more | {(j, i) for i, j in more}
            rp, ci = gen.csr(s, m.n); q = gen.M(m.n, m.bs, rp, ci, gen.values(r, rp, ci, m.n, m.bs, -1.0))
            if sane(q) and sane(q, True): break
        else: return False
        L["m"] = q; self.op(["grow", k, L["mt"]] + q.toks(), {"op": "grow", "k": k, "m": q.tla()}); return True
    def app(self, k):
        m = self.leaves[k-1]["m"]; N = m.n * m.bs; r = gen.vec(self.rng, N); z = gen.vec(self.rng, N)
        self.op(["app", k, r, z], {"op": "app", "k": k, "r": (r, "v"), "z0": (z, "v"), "bs": m.bs})
    def rel(self, k):
        m = self.leaves[k-1]["m"]; N = m.n * m.bs; r = gen.vec(self.rng, N); z = gen.vec(self.rng, N); its = self.rng.choice([1, 2, 3]); gz = self.rng.randrange(2)
        self.op(["rel", k, r, z, its, gz], {"op": "rel", "k": k, "r": (r, "v"), "z0": (z, "v"), "its": its, "gz": gz, "bs": m.bs})
    def solve(self, t):
        m = self.trees[t-1][0]; N = m.n * m.bs; b = gen.vec(self.rng, N)
        ls = self.trees[t-1][4]; bs = self.leaves[ls[0]-1]["m"].bs if ls else 1
        self.op(["solve", t, b], {"op": "solve", "t": t, "b": (b, "v"), "bs": bs})
    def times(self): v = [float(self.rng.randrange(0, 64)) for _ in range(self.rng.choice([3, 5, 7]))]; self.op(["times", v], {"op": "times", "v": [int(x) for x in v]})
    def close(self):
        ts = list(range(1, len(self.trees) + 1)); self.rng.shuffle(ts)
        for t in ts: self.op(["kspdel", t], {"op": "kspdel", "t": t})
        self.op(["times", [3.0, 5.0, 7.0]], {"op": "times", "v": [3, 5, 7]})
        self.op(["listdel"], {"op": "listdel"})
    def line(self):
        ts = [t for m, mt, toks, tr, ls in self.trees for t in [mt] + m.toks() + toks]
        return " ".join(fmt(t) for t in ["user" if self.user else "default", len(self.trees)] + ts + self.ops)
    def trace(self, r):
        cr = crashed(r); n = (r.get("leaves") or [0])[0]
        if not cr and n != len(self.leaves): raise ToolError("leaves %d of %d" % (n, len(self.leaves)))
        ms = []; dist = []
        if not cr:
            for k in range(1, n + 1):
                if "bs%d" % k not in r: dist.append(k); ms.append({"n": 1, "bs": 1, "rp": [0, 1], "ci": [0], "a": [[fl(1.0)]]}); continue
                bs = r["bs%d" % k][0]; rp = r["rp%d" % k]; ms.append({"n": len(rp) - 1, "bs": bs, "rp": rp, "ci": r["ci%d" % k], "a": blocks(r["v%d" % k], bs * bs)})
        out = [{"op": "start", "crash": cr, "user": self.user, "trees": [t[3] for t in self.trees], "ms": ms, "distributed": dist}]
        if cr: return out
        idx = lambda t, k: t[k-1] if 1 <= k <= len(t) else "?"
        for st, x in self.lines:
            x = dict(x)
            if st == 0 or x["op"] in ("opt", "val", "mat", "grow"): out.append(x); continue
            s = str(st); bs = x.pop("bs", 1)
            g = lambda k: r.get(k + s, [])
            for f in ("r", "z0", "b"):
                if f in x: x[f] = blocks(x[f][0], bs)
            ev = g("ev"); x["code"] = g("code")[0]; x["ev"] = ev
            x["made"] = []
            for q in range(0, len(ev), 2):
                if ev[q] == 1:
                    v = r["made%d" % ev[q+1]]
                    x["made"].append({"method": idx(METHODS, v[0]), "bs": v[1], "colmajor": v[2] == 1, "relax": v[3], "chunk": v[4], "scaling": v[5] == 1, "nb": v[6], "na": v[7],
                                      "fi": idx(FI, v[8]), "ai": idx(AI, v[9]), "info": v[10] == 1, "leaf": v[11]})
            for f in ("size", "chain"): x[f] = g(f)[0]
            for f in ("pos", "obj", "rich", "tm", "nbs"): x[f] = g(f)
            x["ninf"] = g("ninf"); x["inf"] = [r.get("inf%s_%d" % (s, k + 1), []) for k in range(n)]
            x["names"] = (r.get("names" + s) or "").split()
            if "z" + s in r: x["z"] = blocks(r["z" + s], bs)
            if x["op"] in ("app", "rel"): x["rsame"] = g("rsame")[0]; x["outits"] = g("outits")[0]; x["why"] = g("why")[0]
            if x["op"] == "times": x["total"] = g("total")
            out.append(x)
        out.append({"op": "end", "left": r["left"][0]})
        return out

def history(ck, c, good=True):
    """a random history over the case's trees"""
    rng = c.rng
    on = [t for t in range(1, len(c.trees) + 1)]
    for t in on: c.stack(t)
    gamg = lambda k: c.trees[c.leaves[k-1]["tree"]][3]["kind"] == "gamg"
    for _ in range(rng.randint(4, 9)):
        if not c.leaves: break
        k = c.k(); w = rng.random()
        if w < .12: c.setup(k); ck.count("setups")
        elif w < .4: c.app(k); ck.count("applications")
        elif w < .58: c.rel(k); ck.count("relaxations")
        elif w < .72:
            if not gamg(k): c.val(k); ck.count("value_changes")
        elif w < .82 and c.leaves[k-1]["kind"] in ("root", "level"):
            c.newmat(k, same=rng.random() < .4); ck.count("matrices_replaced")
        elif w < .9 and c.leaves[k-1]["kind"] == "root":
            if c.grow(k): ck.count("patterns_grown")
        elif w < .95:
            t = c.leaves[k-1]["tree"]
            if c.user or not {"mg", "gamg"} & {x for x in c.trees[t][2] if isinstance(x, str)}: c.solve(t + 1); ck.count("solves")
        else: c.times(); ck.count("totals")
    c.close()

ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:handle_abort=0", "OMP_NUM_THREADS": "1", "OMPI_MCA_ess_singleton_isolated": "1"}
def run(ck):
    rng = ck.rng
    os.environ["OMPI_MCA_orte_tmpdir_base"] = ck.work
    exe, = ck.build(("asan", "h_petsc.cpp", [REPO + "/src/blasted_petsc.cpp"]))
    cases = {}
    def new(user=None):
        c = Case(rng, rng.random() < .75 if user is None else user); cases[ck.newid()] = c; ck.count("user_factory" if c.user else "default_factory"); return c
    # histories on proper trees with proper options
    for q in range(ck.scale(260, 3000)):
        c = new()
        for _ in range(rng.choice([1, 1, 2])): c.add_tree(rng.choice([None, None, "shell"]))
        bsmax = max([x["m"].bs for x in c.leaves] or [1])
        c.options(types=[x for x in METHODS if (x != "of_the_user" or c.user) and (x != "cscbgs" or bsmax == 1)])
        ck.count(c.opt["type"]); history(ck, c)
        for t in c.trees: ck.count("tree_" + t[3]["kind"])
    # every option wrong once, then right
    for q in range(ck.scale(120, 1500)):
        c = new(); c.add_tree("shell")
        bad = ["type", "sweeps", "chunk", "scale", "finit", "ainit", "info", "symbol"][q % 8]; ck.count("bad_" + bad)
        types = {"scale": ["ilu0", "sapilu0", "async_level_ilu0"], "finit": ["ilu0", "sapilu0", "async_level_ilu0"], "symbol": ["gs", "sgs", "async_level_ilu0"]}.get(bad, [x for x in METHODS[:11] if x not in PLAIN and x != "cscbgs"])
        if rng.random() < .2: types = None
        if rng.random() < .5: c.options(bad=bad, types=types); c.stack(1)
        else: c.stack(1); c.options(bad=bad, types=types)
        getattr(c, rng.choice(["setup", "app", "rel"]))(1)
        if rng.random() < .5: c.solve(1)
        c.options(); c.app(1); c.val(1); c.app(1); c.close()
    # algebraic multigrid
    todo = []
    for q in range(ck.scale(16, 120)):
        c = new(); todo.append(c)
        m = gen.matrix(rng, rng.choice([6, 8, 10, 13]), 1, rng.choice(["tri", "band"]), .3, diag=True, sym=True, dom=1.0)
        if q % 2: c.add_tree("shell")
        c.add_gamg(m, "aij", lambda c: ck.run_harness(exe, {1: c.line()}, env=ENV)[1])
        c.options(types=[x for x in METHODS[:11] if x != "cscbgs"]); history(ck, c); ck.count("tree_gamg"); ck.count("gamg_levels", len(c.trees[-1][4]))
    # options that change between the first set-ups of two nodes
    for q in range(ck.scale(40, 500)):
        c = new(); c.add_tree("shell"); c.add_tree(); c.options(); c.stack(1); c.app(1); c.options(); c.stack(2)
        for k in range(1, len(c.leaves) + 1): c.app(k); c.rel(k)
        c.close(); ck.count("options_changed")
    # matrices that cannot be used
    for q in range(ck.scale(60, 700)):
        c = new(); w = q % 4
        if w == 0: c.add_tree("shell", m=c.mat(rng.choice([2, 3]), None), mt="baij"); ck.count("bad_block_size")
        elif w == 1: c.add_tree("shell", m=c.mat(rng.choice([4, 5])), mt="baij"); ck.count("unsupported_combination")
        elif w == 2: c.add_tree("shell", m=c.mat(rng.choice([1, 4, 5]), None, True)); ck.count("missing_diagonal")
        else:
            bs = rng.choice([1, 4]); c.add_tree("shell", m=c.mat(bs, rng.choice([2, 3, 4]))); ck.count("missing_diagonal_later")
        c.options(types=["cscbgs"] if w == 1 else [x for x in METHODS[:11] if x != "cscbgs"]); c.stack(1); c.app(1)
        if w == 3:
            L = c.leaves[0]; N = L["m"].n; q = c.mat(L["m"].bs, N, True); keep = L["m"]
            L["m"] = q; L["mt"] = c.mtype(q.bs); c.op(["mat", 1, L["mt"]] + q.toks(), {"op": "mat", "k": 1, "m": q.tla()})
            c.setup(1); c.app(1)
        if w in (2, 3): c.newmat(1); c.app(1); c.rel(1)
        c.close()
    # trees of the wrong shape
    for q in range(ck.scale(30, 200)):
        c = new(); w = q % 3
        m = c.mat(1, rng.choice([3, 4, 5, 6]))
        if w == 0: c.add_tree("bjacobi", m=m, mt="aij", blocks=2); ck.count("two_blocks")
        elif w == 1: c.add_tree("asm", m=m, mt="aij", blocks=2); ck.count("two_subdomains")
        else: c.add_tree("shell", m=m, mt="mpiaij"); ck.count("distributed")
        c.options(); c.stack(1); c.close()
    res = ck.run_harness(exe, {i: c.line() for i, c in cases.items()}, env=ENV)
    ck.trace("T_Petsc", [(i, c.trace(res[i])) for i, c in cases.items()])
    ck.mc("MC_Petsc", workers=8)
    for f in ("attached-after", "dangling", "first-early", "kept-view", "no-check", "old-block-size") if ck.thorough else (rng.choice(["attached-after", "dangling", "kept-view"]),): ck.refuted("MC_Petsc", consts={"Faults": '{"%s"}' % f}, workers=8)
    if ck.thorough: ck.mc("MC_Petsc", "MC_Petsc_two.cfg", workers=8, xmx="8g")
    return ck.finish(sample=[c.line()[:200] for c in list(cases.values())[:3]])
