"""Generators of matrices and vectors for the checks."""
import random

def pattern(rng, n, kind="random", density=0.45, diag=True, sym=False):
    s = set()
    if kind == "dense": s = {(i, j) for i in range(n) for j in range(n)}
    elif kind == "tri": s = {(i, j) for i in range(n) for j in range(n) if abs(i - j) <= 1}
    elif kind == "arrow": s = {(i, j) for i in range(n) for j in range(n) if i == j or i == n-1 or j == n-1}
    elif kind == "arrow0": s = {(i, j) for i in range(n) for j in range(n) if i == j or i == 0 or j == 0}
    elif kind == "diag": s = {(i, i) for i in range(n)}
    elif kind == "lower": s = {(i, j) for i in range(n) for j in range(i + 1)}
    elif kind == "upper": s = {(i, j) for i in range(n) for j in range(i, n)}
    elif kind == "band": s = {(i, j) for i in range(n) for j in range(n) if abs(i - j) in (0, 2)}
    elif kind == "grid":
        w = 2
        while w * w < n: w += 1
        for i in range(n):
            for d in (0, 1, -1, w, -w):
                j = i + d
                if 0 <= j < n and not (abs(d) == 1 and i // w != j // w): s.add((i, j))
    else:
        s = {(i, j) for i in range(n) for j in range(n) if rng.random() < density}
    if diag: s |= {(i, i) for i in range(n)}
    if sym: s |= {(j, i) for (i, j) in s}
    return s

KINDS = ["random", "dense", "tri", "arrow", "arrow0", "diag", "lower", "upper", "band", "grid", "random", "random"]

def csr(s, n, order=None):
    rp, ci = [0], []
    for i in range(n):
        cols = sorted(j for (a, j) in s if a == i)
        if order: order(cols)
        ci += cols; rp.append(len(ci))
    return rp, ci

def rnd(rng, lo=-2.0, hi=2.0):
    """a value with a short binary expansion, never tiny"""
    while True:
        v = rng.randrange(int(lo * 64), int(hi * 64) + 1) / 64.0
        if abs(v) >= 0.1: return v

def values(rng, rp, ci, n, bs, dom=None, lo=-2.0, hi=2.0):
    """random blocks; with dom, diagonal entries dominate their row by that factor"""
    v = []
    for i in range(n):
        for p in range(rp[i], rp[i+1]):
            v += [rnd(rng, lo, hi) for _ in range(bs * bs)]
    if dom:
        for i in range(n):
            d = [p for p in range(rp[i], rp[i+1]) if ci[p] == i]
            if not d: continue
            d = d[0]
            for r in range(bs):
                t = sum(abs(v[p*bs*bs + r*bs + c]) for p in range(rp[i], rp[i+1]) for c in range(bs)) - abs(v[d*bs*bs + r*bs + r])
                v[d*bs*bs + r*bs + r] = (1 if rng.random() < 0.5 or dom < 0 else -1) * (int(abs(dom) * t * 4 + 4) / 4.0 + rng.randrange(0, 16) / 16.0)
    return v

class M:
    """a matrix for a case"""
    def __init__(self, n, bs, rp, ci, v): self.n, self.bs, self.rp, self.ci, self.v = n, bs, rp, ci, v
    def toks(self): return [self.n, self.bs, self.rp, self.ci, self.v]
    def tla(self):
        import vlib
        return {"n": self.n, "bs": self.bs, "rp": self.rp, "ci": self.ci, "a": vlib.blocks(self.v, self.bs * self.bs)}

def matrix(rng, n, bs=1, kind="random", density=0.45, diag=True, sym=False, dom=None, order=None, lo=-2.0, hi=2.0):
    s = pattern(rng, n, kind, density, diag, sym)
    if not s: s = {(0, 0)}
    rp, ci = csr(s, n, order)
    return M(n, bs, rp, ci, values(rng, rp, ci, n, bs, dom, lo, hi))

def vec(rng, n, lo=-2.0, hi=2.0): return [rnd(rng, lo, hi) for _ in range(n)]

def schedule(rng, T=None, pol=None):
    """thread count, policy, parameter, seed, script"""
    T = T or rng.choice([2, 2, 3, 4])
    pol = rng.choice([0, 1, 1, 1, 2, 2, 3, 4]) if pol is None else pol
    param = {1: rng.choice([30, 100, 250, 500]), 2: rng.choice([1, 2, 3, 5])}.get(pol, 0)
    return [T, pol, param, rng.randrange(1, 1 << 30), []]
