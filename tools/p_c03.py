from vlib import *
import gen
from itertools import product, permutations

def run(ck):
    rng = ck.rng
    asan, = ck.build(("asan", "h_convert.cpp", []))
    jobs, meta = {}, {}
    def add(op, m, base=0, rm=1):
        cid = ck.newid(); jobs[cid] = " ".join(fmt(t) for t in ([op, base, rm] if op == "csc" else [op]) + m.toks())
        meta[cid] = {"op": op, "m": m.tla(), "base": base}; ck.count("%s_bs%d%s" % (op, m.bs, "_from1" if base else ""))
    def all3(m, bs):
        add("csc", m, 0, rng.randrange(2))
        if bs == 1: add("csc", m, 1)
        if bs in (1, 3, 4, 5, 7): add("adj", m)
    def mk(n, bs, rows):
        rp, ci = [0], []
        for r in rows: ci += r; rp.append(len(ci))
        return gen.M(n, bs, rp, ci, gen.values(rng, rp, ci, n, bs))
    # all patterns with every order of columns
    for n in (1, 2):
        ch = [list(p) for k in range(n + 1) for c in product(range(n), repeat=k) if len(set(c)) == k for p in [c]]
        for rows in product(ch, repeat=n):
            if any(rows): all3(mk(n, 1, rows), 1)
    ch = [[j for j in range(3) if (k >> j) & 1] for k in range(8)]
    for rows in product(ch, repeat=3):
        if any(rows): all3(mk(3, 1, [rng.sample(r, len(r)) for r in rows]), 1)
    for bs, want in ((1, 200), (3, 80), (4, 80), (5, 50), (7, 40)):
        for _ in range(ck.scale(want, 10 * want)):
            n = rng.choice([1, 2, 4, 5, 6, 8, 11, 20, 40] if bs == 1 else [1, 2, 3, 4, 6, 9])
            m = gen.matrix(rng, n, bs, rng.choice(gen.KINDS), rng.choice([0.08, 0.2, 0.5]), diag=rng.random() < 0.5, order=rng.shuffle if rng.random() < 0.6 else None)
            all3(m, bs)
    cases = []
    for cid, r in ck.run_harness(asan, jobs).items():
        m = dict(meta[cid]); g = lambda k: r.get(k, [])
        m.update(crash=crashed(r), cp=g("cp"), ri=g("ri"), di=g("di"), loc=g("loc"), a=blocks(g("v"), m["m"]["bs"] ** 2), nc=r.get("n", [0])[0], intact=r.get("intact", [0])[0])
        cases.append((cid, [m]))
    ck.trace("T_Columns", cases)
    ck.mc("MC_Columns", workers=8)
    ck.assume += ["square matrices without repeated entries"]
    return ck.finish(sample=["case %d: %s" % (c, jobs[c][:150]) for c in list(meta)[:2000:500]])
