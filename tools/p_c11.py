from vlib import *
from solver_common import *

NAMES = ["none", "jacobi", "gs", "sgs", "level_sgs", "cscbgs"]
def seq_session(ck, rng, bs, mt=0, sc=None, names=NAMES):
    """one thread (or, with mt, a schedule under which the method is still deterministic)"""
    name = rng.choice([x for x in names if not (x == "cscbgs" and bs > 1)])
    m = matrix(rng, bs, sym=name == "level_sgs", big=True)
    s = Session(rng, m, 0 if bs == 5 else rng.randrange(2), sc, mt)
    s.new(0, name, nbuild=1, napply=rng.choice([1, 1, 2, 3]), ainit=rng.choice(["zero", "jacobi"]), relax=rng.randrange(2), chunk=rng.choice([1, 2, 5]))
    s.cmp(0, log=sc is not None)
    for _ in range(rng.choice([1, 1, 2])): s.app(0)
    if rng.random() < 0.15: s.val(revalue(rng, m)); s.app(0)
    ck.count("%s_bs%d" % ("mt" if mt else "seq" if sc is None else "pcmp", bs)); ck.count(name)
    return s

def par_session(ck, rng, bs):
    m = matrix(rng, bs)
    name = rng.choice(["gs", "sgs"])
    s = Session(rng, m, 0 if bs == 5 else rng.randrange(2), gen.schedule(rng, T=rng.choice([2, 3, 4])))
    s.new(0, name, napply=rng.choice([1, 2, 2, 3]), ainit=rng.choice(["zero", "jacobi", "jacobi"]), chunk=rng.choice([1, 1, 2]))
    s.cmp(0, log=True)
    for _ in range(rng.choice([0, 1, 1])): s.app(0)              # leaves something in the object's internal vector
    s.app(0, log=True, check=0)
    ck.count("par_bs%d" % bs); ck.count("par_" + name)
    return s

def judge_logged(ck, par, res):
    cases = []; rest = []
    for i, s in par.items():
        t = async_trace(s, res[i])
        if t is None: ck.count("unobserved"); rest.append((i, s.trace(res[i]))); continue
        cases.append((i, t)); ck.count("updates", len(t) - 2); ck.count("switch_points", res[i].get("yields", [0])[0])
    if cases: ck.trace("T_AsyncRelax", cases)
    if rest: ck.trace("T_Solver", rest)

def run(ck):
    rng = ck.rng
    asan, shim = ck.build(("asan", "h_solver.cpp", []), ("shim", "h_solver.cpp", []))
    n = ck.scale(1, 8)
    seq = {}; mt = {}; par = {}
    for bs, k in ((1, 160), (4, 60), (5, 15)):
        for _ in range(k * n): seq[ck.newid()] = seq_session(ck, rng, bs)
    for bs, k in ((1, 60), (4, 25), (5, 8)):
        for _ in range(k * n):
            sc = gen.schedule(rng, T=rng.choice([2, 3, 4, 7]))
            if rng.random() < 0.5: mt[ck.newid()] = seq_session(ck, rng, bs, 1, sc, ["none", "jacobi", "level_sgs"])
            else: mt[ck.newid()] = seq_session(ck, rng, bs, 0, sc)
    for bs, k in ((1, 140), (4, 50), (5, 12)):
        for _ in range(k * n): par[ck.newid()] = par_session(ck, rng, bs)
    res = ck.run_harness(asan, {i: s.line() for i, s in seq.items()}, env={"OMP_NUM_THREADS": "1"})
    ck.trace("T_Solver", [(i, s.trace(res[i])) for i, s in seq.items()])
    res = ck.run_harness(shim, {i: s.line() for i, s in list(mt.items()) + list(par.items())})
    ck.trace("T_Solver", [(i, s.trace(res[i])) for i, s in mt.items()])
    judge_logged(ck, par, res)
    for cfg in ["MC_AsyncRelax_sgs", "MC_AsyncRelax_gs", "MC_AsyncRelax_seqgs"] + (["MC_AsyncRelax_gs3"] if ck.thorough else []):
        ck.mc("MC_AsyncRelax", cfg + ".cfg", workers=8)
    ck.mc("MC_Solver", "MC_Solver.cfg", workers=8)
    ck.assume += ["schedules are interleavings of single memory accesses (sequential consistency)", "matrices up to 8 rows (4 block-rows) in threaded runs"]
    return ck.finish(sample=[par[i].line()[:150] for i in list(par)[:4]])
