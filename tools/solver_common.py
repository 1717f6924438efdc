"""Sessions with solver objects: cases and traces for T_Solver and T_AsyncRelax."""
from vlib import *
import gen, math
from ilu_common import pick_matrix, factors, parse_updates, inv, pos_of, bl, scaled

ILU = ["ilu0", "seqilu0", "sfilu0", "sapilu0", "async_level_ilu0"]
SGS = ["sgs", "level_sgs"]
ALL = ["none", "jacobi", "gs", "cscbgs"] + SGS + ILU
AINIT = {"zero": 0, "jacobi": 1, "none": 2}

def sane(m, scaling=False):
    """all diagonal blocks and pivots comfortably invertible"""
    f = factors(m, scaling)
    if f is None or max(abs(x) for x in f) > 1e3: return False
    w = pos_of(m)
    for i in range(m.n):
        d = inv(bl(m, w[(i, i)]), m.bs); e = inv(f[w[(i, i)]*m.bs**2:][:m.bs**2], m.bs)
        if d is None or e is None or max(map(abs, d + e)) > 50: return False
    return True

def matrix(rng, bs, sym=False, big=False, nmax=None):
    while True:
        if sym:
            n = rng.choice([1, 2, 3, 4, 4, 5, 6] + ([8, 10] if big else [])) if bs == 1 else rng.choice([1, 2, 3, 4])
            kind = rng.choice(["random", "random", "dense", "tri", "arrow", "arrow0", "grid", "diag", "band"])
            m = gen.matrix(rng, n, bs, kind, rng.choice([0.15, 0.3, 0.5]), diag=True, sym=True, dom=-rng.choice([1.0, 0.7]))
        else: m = pick_matrix(rng, bs, big)
        if nmax and m.n > nmax: continue
        if sane(m) and sane(m, True): return m

def revalue(rng, m):
    while True:
        q = gen.M(m.n, m.bs, m.rp, m.ci, gen.values(rng, m.rp, m.ci, m.n, m.bs, -rng.choice([1.0, 0.7])))
        if sane(q) and sane(q, True): return q

def matvec(m, x):
    n = m.bs; y = [0.0] * (m.n * n)
    for i in range(m.n):
        for p in range(m.rp[i], m.rp[i+1]):
            for r in range(n):
                for c in range(n): y[i*n+r] += m.v[(p*n+r)*n+c] * x[m.ci[p]*n+c]
    return y

class Session:
    def __init__(self, rng, m, rm, sc=None, mt=0):
        self.rng, self.m, self.rm, self.mt = rng, m, rm, mt
        self.sc = sc or [1, 0, 0, 1, []]
        self.toks = []; self.lines = []; self.step = 0; self.objs = {}; self.cur = m
        self.logged = None
    def _add(self, toks, line):
        self.toks += toks; self.step += 1; line["_s"] = self.step; self.lines.append(line)
    def new(self, k, name, scaling=0, nbuild=1, napply=1, finit=1, ainit="zero", relax=0, chunk=1, info=0, bs=None):
        bs = bs or self.m.bs
        self.objs[k] = dict(name=name, scaling=scaling, napply=napply, ainit=ainit, nbuild=nbuild, finit=finit, info=info)
        self._add(["new", k, name, bs, relax, chunk, int(scaling), nbuild, napply, finit, AINIT[ainit], info],
                  {"op": "new", "k": k, "name": name, "bs": bs, "rm": int(self.rm), "scaling": int(scaling), "napply": napply, "ainit": ainit})
    def val(self, q):
        self.cur = q
        self._add(["val", list(q.v)], {"op": "val", "a": blocks(q.v, q.bs * q.bs)})
    def cmp(self, k, log=False, logf=False):
        if log: self.toks.append("log")
        if logf: self.toks.append("logf"); self.flogged = (self.step + 1, k, self.cur)
        self.objs[k]["pm"] = self.cur
        self._add(["cmp", k], {"op": "cmp", "k": k})
    def delete(self, k): self._add(["del", k], {"op": "del", "k": k})
    def app(self, k, r=None, z0=None, check=1, log=False):
        N = self.m.n * self.m.bs
        r = r or gen.vec(self.rng, N); z0 = z0 or gen.vec(self.rng, N)
        if log: self.toks.append("log"); self.logged = (self.step + 1, "app", k, r, z0)
        self._add(["app", k, r, z0], {"op": "app", "k": k, "r": blocks(r, self.m.bs), "z0": blocks(z0, self.m.bs), "check": check})
    def rel(self, k, b=None, x0=None, rtol=0.0, atol=0.0, dtol=1e30, ctol=0, maxits=1, check=1, log=False, fixed=0):
        N = self.m.n * self.m.bs
        b = b or gen.vec(self.rng, N); x0 = x0 or gen.vec(self.rng, N)
        if log: self.toks.append("log"); self.logged = (self.step + 1, "rel", k, b, x0, maxits, fixed)
        self._add(["rel", k, b, x0, rtol, atol, dtol, int(ctol), maxits],
                  {"op": "rel", "k": k, "r": blocks(b, self.m.bs), "r0": blocks(x0, self.m.bs), "rtol": fl(rtol), "atol": fl(atol), "dtol": fl(dtol),
                   "ctol": int(ctol), "maxits": maxits, "check": check, "fixed": fixed})
    def both(self, x, y):
        """two calls ("cmp" or "app", object) on different objects at once"""
        ts = ["both"]
        for op, k in (x, y):
            if op == "cmp": self.objs[k]["pm"] = self.cur; self._add([], {"op": "cmp", "k": k}); ts += ["cmp", k]
            else:
                N = self.m.n * self.m.bs; r = gen.vec(self.rng, N); z0 = gen.vec(self.rng, N)
                self._add([], {"op": "app", "k": k, "r": blocks(r, self.m.bs), "z0": blocks(z0, self.m.bs), "check": 1}); ts += ["app", k, r, z0]
        self.toks += ts
    def line(self): return " ".join(fmt(t) for t in self.sc + [self.mt, self.rm, 0] + self.m.toks() + self.toks)
    def trace(self, r):
        k = crashed(r)
        ls = [{"op": "start", "m": self.m.tla(), "crash": k}]
        if k: return ls
        for x in self.lines:
            x = dict(x); s = str(x.pop("_s"))
            x["exc"] = r["exc" + s][0]; x["intact"] = r["intact" + s][0]
            if x["op"] == "new": x["dim"] = r.get("dim" + s, [-1])[0]; x["ra"] = r.get("ra" + s, [-1])[0]
            if x["op"] in ("app", "rel"): x["z"] = blocks(r["z" + s], self.m.bs); x["rsame"] = r["rsame" + s][0]
            ls.append(x)
        ls.append({"op": "end", "intact": r["intact"][0]})
        return ls

def async_trace(ses, r):
    """the logged call of a session, for T_AsyncRelax; None when the updates of the object's internal vector could not be observed"""
    m = ses.m; bs = m.bs; n = m.n
    st, call, k, rhs, z0 = ses.logged[:5]
    o = ses.objs[k]; name = o["name"]
    cr = crashed(r)
    sweeps = o["napply"] if call == "app" else ses.logged[5]
    hdr = {"op": "begin", "call": call, "method": name, "m": ses.cur.tla(), "pm": o["pm"].tla(), "scaling": int(o["scaling"] and name in ILU), "n": sweeps, "ainit": o["ainit"],
           "r": blocks(rhs, bs), "z0": blocks(z0, bs), "fair": int(getattr(ses, "fair", False)), "crash": cr, "exc": 0 if cr else r["exc%d" % st][0], "g": [], "nupd": -1}
    if cr or hdr["exc"]: return [hdr]
    us = parse_updates(r.get("u", []), {a: bs for a in range(12)})
    two = call == "app" and name not in ("gs",)
    tail = 1 if o["scaling"] and name in ILU else 0
    per = {}
    for q, u in enumerate(us): per.setdefault(u["a"], {}).setdefault(u["c"], []).append(q)
    cnt = sweeps * (2 if call == "rel" and name in SGS else 1)
    stages = []
    if two:
        cands = [a for a in per if a != 0 and len(per[a]) == n and all(len(v) >= cnt for v in per[a].values())]
        if not cands:
            return None
        if len(cands) > 1:
            mx = max(sum(len(v) for v in per[a].values()) for a in cands)
            cands = [a for a in cands if sum(len(v) for v in per[a].values()) == mx][:1]
        stages.append((cands[0], 0))
    stages.append((0, tail))
    sel = {}; gs = []; tot = 0
    for s, (a, tl) in enumerate(stages):
        g = []
        for c in range(n):
            ns = per.get(a, {}).get(c, [])
            if tl: ns = ns[:-tl]
            sw = ns[len(ns) - cnt:] if len(ns) >= cnt else ns
            tot += len(sw)
            if not two and len(ns) != cnt: tot += 100000      # a relaxation writes only its updates
            for q in sw: sel[q] = s + 1
            g.append(us[sw[0]]["prev"] if sw else z0[c*bs:(c+1)*bs])
        gs.append([fv(v) for v in g])
    hdr["g"] = gs; hdr["nupd"] = tot
    ls = [hdr]
    for q, u in enumerate(us):
        if q in sel:
            ls.append({"op": "upd", "s": sel[q], "t": u["t"], "i": u["c"], "v": fv(u["new"]),
                       "reads": [[rc, [fv(v) for v in vs]] for (a, rc, vs) in u["reads"] if a == u["a"]]})
    inorder = ses.sc[1] == 0 and not (two and False)
    ls.append({"op": "end", "z": blocks(r["z%d" % st], bs), "intact": r["intact%d" % st][0], "rsame": r["rsame%d" % st][0], "inorder": int(inorder),
               "fixed": ses.logged[6] if call == "rel" else 0})
    return ls
