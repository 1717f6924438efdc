from vlib import *
import gen, itertools
from ilu_common import *

def factor_case(rng, bs, exe, shim, big, info=False, seq=True):
    while True:
        m = pick_matrix(rng, bs, big)
        scaling = int(rng.random() < 0.4)
        ex = factors(m, scaling)
        if ex is not None and max(abs(x) for x in ex) < 1e3: break
    init = rng.randrange(4); nsweeps = rng.choice([1, 1, 2, 3])
    rm = 0 if bs == 5 else rng.randrange(2)
    usethreads = rng.randrange(2)
    if seq: sc = [1 if usethreads else rng.choice([1, 2, 3, 4]), 3, 0, 1, []] if exe == shim else [1 if usethreads else rng.choice([1, 3, 4]), 0, 0, 1, []]
    else: sc = gen.schedule(rng) if exe == shim else [rng.choice([2, 3, 4]), 0, 0, 1, []]
    f0 = [gen.rnd(rng) for _ in m.v] if bs == 1 else ex
    if bs == 1 and init == 3 and rng.random() < 0.2: f0 = ex
    toks = ["info" if info else "factor"] + sc + [rm, scaling, init, nsweeps, rng.choice([1, 2, 400]), usethreads, int(info)] + m.toks() + [f0]
    return dict(m=m, scaling=scaling, init=init, nsweeps=nsweeps, f0=f0, toks=toks, seq=int(seq))

def line(c, r, op):
    m, b = c["m"], c["m"].bs ** 2
    d = {"op": op, "m": m.tla(), "scaling": c["scaling"], "init": c["init"], "nsweeps": c["nsweeps"], "seq": c["seq"], "crash": crashed(r)}
    if not d["crash"]:
        d.update({"posptr": r["posptr"], "lowerp": r["lowerp"], "upperp": r["upperp"], "f": blocks(r["f"], b), "scale": fv(r["scale"]), "intact": r["intact"][0]})
        if op == "info": d.update({"info": fv(r["info"]), "f0": blocks(c["f0"], b), "fsame": r["fsame"][0] if c["seq"] else 1})
    return d

def all_patterns(n):
    off = [(i, j) for i in range(n) for j in range(n) if i != j]
    for k in range(1 << len(off)):
        yield {(i, i) for i in range(n)} | {off[q] for q in range(len(off)) if k >> q & 1}

def run(ck):
    rng = ck.rng
    asan, shim = ck.build(("asan", "h_ilu.cpp", []), ("shim", "h_ilu.cpp", []))
    jobs = {asan: {}, shim: {}}; meta = {}
    n = ck.scale(1, 8)
    for bs, k in ((1, 160 * n), (4, 60 * n), (5, 16 * n)):
        for q in range(k):
            exe = asan if q % 2 else shim
            c = factor_case(rng, bs, exe, shim, True)
            i = ck.newid(); meta[i] = ("factor", c); jobs[exe][i] = " ".join(fmt(t) for t in c["toks"])
            ck.count("bs%d" % bs); ck.count("init%d" % c["init"]); ck.count("scaled", c["scaling"]); ck.count("sweeps", c["nsweeps"])
    # position lists of every pattern with a full diagonal, and of larger random ones
    pats = [(nn, p) for nn in (1, 2, 3) for p in all_patterns(nn)]
    p4 = list(all_patterns(4)); pats += [(4, p) for p in (p4 if ck.thorough else rng.sample(p4, 250))]
    for q in range(ck.scale(40, 400)):
        nn = rng.choice([5, 6, 7, 9, 12]); pats.append((nn, gen.pattern(rng, nn, rng.choice(gen.KINDS), rng.choice([0.2, 0.4, 0.7]))))
    for nn, p in pats:
        rp, ci = gen.csr(p, nn)
        m = gen.M(nn, 1, rp, ci, [1.0] * len(ci))
        i = ck.newid(); meta[i] = ("lists", dict(m=m))
        jobs[asan][i] = " ".join(fmt(t) for t in ["lists", rng.choice([1, 2, 4]), 0, 0, 1, []] + m.toks())
        ck.count("patterns")
    cases = []
    for exe in (asan, shim):
        for i, r in ck.run_harness(exe, jobs[exe]).items():
            op, c = meta[i]
            if op == "factor": cases.append((i, [line(c, r, "factor")]))
            else: cases.append((i, [{"op": "lists", "m": c["m"].tla(), "crash": crashed(r), "posptr": r.get("posptr", []), "lowerp": r.get("lowerp", []), "upperp": r.get("upperp", [])}]))
    ck.trace("T_ILU", cases)
    ck.mc("MC_ILU", workers=8)
    ck.mc("MC_AsyncILU", "MC_AsyncILU_seq.cfg", workers=8)
    if ck.thorough: ck.mc("MC_ILU", "MC_ILU_big.cfg", workers=8)
    ck.assume += ["columns of each row sorted and a stored diagonal in every row; non-singular pivots", "equality up to 1e-9 relative to the entries of the matrix (at least 1)"]
    return ck.finish(sample=[" ".join(fmt(t) for t in c["toks"])[:150] for (o, c) in list(meta.values())[:4]])
