from vlib import *
from solver_common import *

def seq_session(ck, rng, bs):
    m = matrix(rng, bs, big=True); rm = 0 if bs == 5 else rng.randrange(2)
    s = Session(rng, m, rm)
    name = rng.choice(ILU[:4])
    ainit = rng.choice(["zero", "jacobi", "zero", "jacobi", "none"]) if rng.random() < 0.1 else rng.choice(["zero", "jacobi"])
    s.new(0, name, scaling=rng.random() < 0.5, nbuild=rng.choice([1, 2]), napply=rng.choice([1, 1, 2, 3]), finit=rng.randrange(3), ainit=ainit,
          chunk=rng.choice([1, 2, 5]), info=rng.randrange(2))
    s.cmp(0)
    for _ in range(rng.choice([1, 1, 2])): s.app(0)
    ck.count("seq_bs%d" % bs); ck.count("seq_" + name)
    return s

def par_session(ck, rng, bs, names=None):
    m = matrix(rng, bs, big=False); rm = 0 if bs == 5 else rng.randrange(2)
    name = rng.choice(["ilu0", "ilu0", "sfilu0", "seqilu0", "sapilu0"])
    scaling = rng.random() < 0.35
    T = rng.choice([2, 3, 4])
    if bs > 1 and scaling:
        ts = [t for t in (2, 3, 4) if m.n % t == 0]
        if ts: T = rng.choice(ts)
        else: scaling = False
    sc = gen.schedule(rng, T=T)
    s = Session(rng, m, rm, sc)
    napply = rng.choice([1, 2, 2, 3, 4]) if bs == 1 else rng.choice([1, 1, 2, 3])
    s.new(0, name, scaling=scaling, nbuild=1, napply=napply, ainit=rng.choice(["zero", "jacobi"]), chunk=rng.choice([1, 1, 2]))
    s.cmp(0)
    for _ in range(rng.choice([0, 1, 1])): s.app(0)              # leaves something in the object's internal vector
    s.app(0, log=True, check=0)
    ck.count("par_bs%d" % bs); ck.count("par_" + name); ck.count("par_scaled", int(scaling))
    return s

def run(ck):
    rng = ck.rng
    asan, shim = ck.build(("asan", "h_solver.cpp", []), ("shim", "h_solver.cpp", []))
    n = ck.scale(1, 8)
    seq = {}; par = {}
    for bs, k in ((1, 120), (4, 40), (5, 12)):
        for _ in range(k * n): seq[ck.newid()] = seq_session(ck, rng, bs)
    for bs, k in ((1, 140), (4, 40), (5, 10)):
        for _ in range(k * n): par[ck.newid()] = par_session(ck, rng, bs)
    res = ck.run_harness(asan, {i: s.line() for i, s in seq.items()}, env={"OMP_NUM_THREADS": "1"})
    ck.trace("T_Solver", [(i, s.trace(res[i])) for i, s in seq.items()])
    res = ck.run_harness(shim, {i: s.line() for i, s in par.items()})
    cases = []; rest = []
    for i, s in par.items():
        t = async_trace(s, res[i])
        if t is None: ck.count("unobserved"); rest.append((i, s.trace(res[i]))); continue
        cases.append((i, t)); ck.count("updates", len(t) - 2); ck.count("switch_points", res[i].get("yields", [0])[0])
    if cases: ck.trace("T_AsyncRelax", cases)
    if rest: ck.trace("T_Solver", rest)
    for cfg in ["MC_AsyncRelax_ilu", "MC_AsyncRelax_seq", "MC_AsyncRelax_live"] + (["MC_AsyncRelax_ilu3"] if ck.thorough else []):
        ck.mc("MC_AsyncRelax", cfg + ".cfg", workers=8)
    ck.mc("MC_Solver", "MC_Solver.cfg", workers=8)
    ck.assume += ["schedules are interleavings of single memory accesses (sequential consistency)", "factors computed sequentially; matrices up to 8 rows (4 block-rows)"]
    return ck.finish(sample=[par[i].line()[:150] for i in list(par)[:4]])
