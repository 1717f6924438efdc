from vlib import *
import gen

def number(rng, integer):
    if integer: return str(rng.choice([-1, 1]) * rng.randrange(1, 2000))
    v = rng.choice([gen.rnd(rng), rng.uniform(-5, 5), rng.uniform(-1, 1) * 10.0 ** rng.randrange(-12, 13), float(rng.randrange(-9, 10)), 0.0])
    return rng.choice([repr(v), "%.17g" % v, "%.16e" % v, "%.6E" % v])

class F:
    """a coordinate file"""
    def __init__(self, rng, nr, nc, places, header=None, plain=False):
        self.nr, self.nc = nr, nc
        self.header = header or ["%%MatrixMarket", "matrix", "coordinate", rng.choice(["real", "real", "integer"]), "general"]
        integer = "integer" in self.header
        places = list(places); rng.shuffle(places)
        if rng.random() < 0.3: places.sort(reverse=rng.random() < 0.5)
        elif rng.random() < 0.3: places.sort(key=lambda p: (p[1], p[0]))
        txt, self.es = [], []
        sep = rng.choice([" ", "  ", "\t"]) if not plain else " "
        for i, j in places:
            s = number(rng, integer); self.es.append((i, j, float(s) + 0.0)); txt.append("%d%s%d%s%s" % (i + 1, sep, j + 1, sep, s))
        com = [rng.choice(["% a comment", "%", "%%", "% 3 3 3", "%1 2 3.5"]) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
        nl = "\n"
        self.text = nl.join([sep.join(self.header)] + com + ["%d %d %d" % (nr, nc, len(txt))] + txt) + rng.choice(["", nl, nl + nl])
    def hex(self): return self.text.encode().hex()
    def line(self, **f):
        f.update(op="read", header=self.header, nr=self.nr, nc=self.nc, es=[[i, j, fl(v)] for i, j, v in self.es])
        return f

def places(rng, n, nc, kind, dens, diag):
    if n == nc: s = gen.pattern(rng, n, kind, dens, diag)
    else: s = {(i, j) for i in range(n) for j in range(nc) if rng.random() < dens}
    for i in range(n):
        if not any(a == i for a, b in s): s.add((i, rng.randrange(nc)))
    return s

BAD = [[a, b, c, d, e] for a in ["%%MatrixMarket"] for b in ["matrix"] for c in ["coordinate", "array"] for d in ["real", "integer", "complex", "pattern"]
       for e in ["general", "symmetric", "skew-symmetric", "skewsymmetric", "hermitian"] if not (c == "coordinate" and d in ("real", "integer") and e == "general")]
ODD = [["%%MatrixMarket", "vector", "coordinate", "real", "general"], ["%%MatrixMarket", "matrix", "elemental", "real", "general"], ["%%MatrixMarket", "matrix", "coordinate", "double", "general"],
       ["%%MatrixMarket", "matrix", "coordinate", "real", "unsymmetric"], ["%MatrixMarket", "matrix", "coordinate", "real", "general"], ["%%MatrixMarkets", "matrix", "coordinate", "real", "general"],
       ["%%MatrixMarket", "matrix", "coordinate", "real"], ["%%MatrixMarket", "matrix", "coordinate", "general"], ["%%MatrixMarket"], ["%%MatrixMarket", "matrix", "coordinate", "real", "general", "extra"],
       ["3", "3", "5"], ["%"], [], ["%%MatrixMarket", "coordinate", "matrix", "real", "general"], ["%%MatrixMarket", "matrix", "coordinate", "general", "real"],
       ["%%MatrixMarket", "matrix", "coordinate", "reals", "general"], ["%%MatrixMarket", "matrix", "coordinate", "int", "general"], ["%%MatrixMarket", "matrix", "coordinates", "real", "general"],
       ["%%MatrixMarket", "matrix", "coordinate", "real", "generals"], ["%%MatrixMarket", "graph", "coordinate", "real", "general"]]

def run(ck):
    rng = ck.rng
    asan, = ck.build(("asan", "h_convert.cpp", []))
    jobs, meta = {}, {}
    def add(f, bs, order, direct, kind):
        cid = ck.newid(); jobs[cid] = " ".join(fmt(t) for t in ["read", f.hex(), bs, order, direct])
        meta[cid] = f.line(bs=bs, rm=int(order == "rowmajor"), direct=direct); ck.count(kind)
    # all patterns of small matrices
    from itertools import product
    for n in (1, 2, 3):
        rows = [[j for j in range(n) if (k >> j) & 1] for k in range(1, 2 ** n)]
        for q in product(rows, repeat=n): add(F(rng, n, n, [(i, j) for i in range(n) for j in q[i]]), 1, rng.choice(["rowmajor", "colmajor"]), rng.randrange(2), "all_small")
    for bs, want in ((1, 220), (3, 160), (4, 120), (7, 90)):
        for _ in range(ck.scale(want, 8 * want)):
            nb = rng.choice([1, 2, 3, 4, 5, 7, 9] if bs == 1 else [1, 2, 3, 4, 5] if bs < 7 else [1, 2, 3])
            n = nb * bs; nc = n if bs > 1 or rng.random() < 0.8 else rng.choice([1, 2, 5, 8, 11])
            style = rng.randrange(3)
            if style == 0 or bs == 1 or n != nc: pl = places(rng, n, nc, rng.choice(gen.KINDS), rng.choice([0.05, 0.15, 0.4]), rng.random() < 0.5)
            else:
                bp = places(rng, nb, nb, rng.choice(gen.KINDS), rng.choice([0.2, 0.5]), rng.random() < 0.6)
                pl = {(i * bs + r, j * bs + c) for (i, j) in bp for r in range(bs) for c in range(bs) if style == 1 or rng.random() < 0.4}
                for i in range(n):
                    if not any(a == i for a, b in pl): pl.add((i, rng.choice([j for a, j in bp if a == i // bs]) * bs + rng.randrange(bs)))
            order = rng.choice(["rowmajor", "colmajor"]); direct = int(bs in (1, 7) and n == nc and rng.random() < 0.3)
            if direct: order = "rowmajor"
            add(F(rng, n, nc, pl), bs, order, direct, "bs%d" % bs)
    for _ in range(ck.scale(1, 4)):
        for h in BAD + ODD:
            n = rng.choice([1, 2, 3]); f = F(rng, n, n, places(rng, n, n, "dense", 1, True), header=h or [""])
            f.header = h; add(f, 1, "rowmajor", rng.randrange(2), "headers")
    for _ in range(ck.scale(30, 200)):
        a, b = rng.randrange(1, 8), rng.randrange(1, 4); s = [number(rng, False) for _ in range(a * b)]
        txt = "%%MatrixMarket matrix array real general\n" + "".join("% note\n" for _ in range(rng.randrange(3))) + "%d %d\n" % (a, b) + "\n".join(s) + "\n"
        cid = ck.newid(); jobs[cid] = "dense " + txt.encode().hex(); meta[cid] = {"op": "dense", "v": fv([float(x) + 0.0 for x in s])}; ck.count("dense")
    cases = []
    for cid, r in ck.run_harness(asan, jobs).items():
        m = dict(meta[cid]); g = lambda k: r.get(k, [])
        m["crash"] = crashed(r)
        if m["op"] == "dense": m["out"] = fv(g("v"))
        else:
            m.update(accepted=r.get("accepted", [0])[0], refused=r.get("refused", [0])[0], h=g("h"), nnzb=len(g("ci")), rp=g("rp"), ci=g("ci"), di=g("di"), re=g("re"),
                     a=blocks(g("v"), m["bs"] ** 2), dim=r.get("dim", [m["nr"]])[0], size=g("size"), erp=g("erp"), rd=[[a, b, fl(c)] for a, b, c in zip(g("er"), g("ec"), g("ev"))])
        cases.append((cid, [m]))
    ck.trace("T_Coo", cases)
    ck.mc("MC_Coo", workers=4)
    ck.mc("MC_Coo", "MC_Coo_block.cfg", workers=8, consts={"MaxRow": 4} if ck.thorough else {})
    ck.assume += ["every row of the file holds an entry and no place is given twice (documented preconditions)", "header words in lower case"]
    return ck.finish(sample=["case %d: %s" % (c, "%d x %d, %d entries, header %s" % (meta[c]["nr"], meta[c]["nc"], len(meta[c]["es"]), " ".join(meta[c]["header"]))) for c in list(meta)[:500:120]])
