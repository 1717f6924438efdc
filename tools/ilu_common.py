"""Incomplete factorizations: cases, exact factors, traces."""
from vlib import *
import gen

def pos_of(m):
    w = {}
    for i in range(m.n):
        for p in range(m.rp[i], m.rp[i+1]): w[(i, m.ci[p])] = p
    return w

def bl(m, p): b = m.bs * m.bs; return m.v[p*b:(p+1)*b]
def mm(a, b, n): return [sum(a[i*n+k] * b[k*n+j] for k in range(n)) for i in range(n) for j in range(n)]
def inv(a, n):
    a = list(a); r = [1.0 if i == j else 0.0 for i in range(n) for j in range(n)]
    for c in range(n):
        p = max(range(c, n), key=lambda i: abs(a[i*n+c]))
        if abs(a[p*n+c]) < 1e-300: return None
        for j in range(n):
            a[c*n+j], a[p*n+j] = a[p*n+j], a[c*n+j]; r[c*n+j], r[p*n+j] = r[p*n+j], r[c*n+j]
        q = a[c*n+c]
        for j in range(n): a[c*n+j] /= q; r[c*n+j] /= q
        for i in range(n):
            if i != c and a[i*n+c] != 0:
                g = a[i*n+c]
                for j in range(n): a[i*n+j] -= g * a[c*n+j]; r[i*n+j] -= g * r[c*n+j]
    return r

def scaled(m):
    import math
    w = pos_of(m); n = m.bs
    s = []
    for i in range(m.n):
        d = bl(m, w[(i, i)]); s += [1.0 / math.sqrt(d[r*n+r]) for r in range(n)]
    v = []
    for i in range(m.n):
        for p in range(m.rp[i], m.rp[i+1]):
            b = bl(m, p); j = m.ci[p]
            v += [s[i*n+r] * b[r*n+c] * s[j*n+c] for r in range(n) for c in range(n)]
    return v

def factors(m, scaling=False):
    """exact factors, used only to start the code from them (the specification checks that they are exact)"""
    n = m.bs; b = n * n
    v = scaled(m) if scaling else list(m.v)
    w = pos_of(m); f = [None] * len(m.ci)
    for i in range(m.n):
        for p in range(m.rp[i], m.rp[i+1]):
            j = m.ci[p]; a = v[p*b:(p+1)*b]
            for k in range(min(i, j)):
                if (i, k) in w and (k, j) in w:
                    t = mm(f[w[(i, k)]], f[w[(k, j)]], n); a = [x - y for x, y in zip(a, t)]
            if i > j:
                d = inv(f[w[(j, j)]], n)
                if d is None: return None
                a = mm(a, d, n)
            f[p] = a
    return [x for q in f for x in q]

def pick_matrix(rng, bs, big=False):
    n = rng.choice([2, 3, 3, 4, 4, 5] + ([6, 8] if big else [])) if bs == 1 else rng.choice([2, 2, 3, 3, 4])
    kind = rng.choice(["random", "random", "dense", "tri", "arrow", "arrow0", "grid", "lower", "upper", "diag"])
    dom = rng.choice([1.0, 0.6, 0.6]) * -1
    return gen.matrix(rng, n, bs, kind, rng.choice([0.3, 0.5, 0.8]), diag=True, dom=dom)

def parse_updates(rows, lens):
    """rows: the 'u' lines as lists of doubles -> list of dicts; lens[array id] = doubles per cell"""
    r = []
    for x in rows:
        t, a, c, reg = int(x[0]), int(x[1]), int(x[2]), int(x[3]); k = 4; L = lens[a]
        prev = x[k:k+L]; k += L; new = x[k:k+L]; k += L
        nr = int(x[k]); k += 1; reads = []
        for _ in range(nr):
            ra, rc, nc = int(x[k]), int(x[k+1]), int(x[k+2]); k += 3
            vs = []
            for _ in range(nc): vs.append(x[k:k+lens[ra]]); k += lens[ra]
            reads.append((ra, rc, vs))
        r.append(dict(t=max(t, 0), a=a, c=c, region=reg, prev=prev, new=new, reads=reads, tid=t))
    return r
