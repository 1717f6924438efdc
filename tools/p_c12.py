from vlib import *
from solver_common import *
from p_c11 import judge_logged

def diffs(m, b, x, n):
    """the changes of n Jacobi steps (used only to choose tolerances away from them)"""
    w = pos_of(m); k = m.bs
    d = [inv(bl(m, w[(i, i)]), k) for i in range(m.n)]
    out = []
    for _ in range(n):
        ax = matvec(m, x); y = [0.0] * len(x)
        for i in range(m.n):
            r = [b[i*k+q] - ax[i*k+q] for q in range(k)]
            for q in range(k): y[i*k+q] = x[i*k+q] + sum(d[i][q*k+p] * r[p] for p in range(k))
        out.append(math.sqrt(sum((p - q)**2 for p, q in zip(x, y)))); x = y
        if not out[-1] < 1e12: break
    return out

def jacobi_rel(ck, rng, s, k=0):
    N = s.m.n * s.m.bs
    u = rng.choice([1.0, 0.01, 0.01, 100.0])
    b = [u*v for v in gen.vec(rng, N)]; x0 = [u*v for v in gen.vec(rng, N)]
    d = diffs(s.cur, b, x0, 8)
    maxits = rng.choice([0, 1, 2, 3, 5, 8])
    maxits = min(maxits, len(d))
    t = dict(rtol=0.0, atol=0.0, dtol=1e30)
    def between(ref):            # a value no change is close to
        for _ in range(20):
            v = rng.choice(d) * rng.choice([0.5, 0.8, 1.25, 2.0]) / ref
            if v > 0 and all(abs(x/ref - v) > 1e-4*v for x in d): return v
        return None
    ctol = rng.random() < 0.85
    if ctol or rng.random() < 0.5:
        for which in rng.sample(["rtol", "atol", "dtol"], rng.choice([1, 1, 1, 2, 3])):
            v = between(1.0 if which == "atol" else d[0]) if d[0] > 0 else 1.0
            if v: t[which] = v
        if ctol: ck.count("tolerances")
    s.rel(k, b, x0, ctol=ctol, maxits=maxits, **t)

def fixed_args(s, rng):
    x0 = [float(rng.randrange(-8, 9)) / 4 for _ in range(s.m.n * s.m.bs)]
    return dict(b=matvec(s.cur, x0), x0=x0, fixed=1)

def seq_session(ck, rng, bs, mt=0, sc=None, names=("jacobi", "jacobi", "gs", "sgs", "level_sgs")):
    name = rng.choice(names)
    m = matrix(rng, bs, sym=name == "level_sgs", big=True)
    if name == "jacobi" and rng.random() < 0.25:            # a divergent iteration
        q = gen.M(m.n, bs, m.rp, m.ci, [v if any(p // (bs*bs) in range(m.rp[i], m.rp[i+1]) and m.ci[p // (bs*bs)] == i for i in range(m.n)) else 3*v for p, v in enumerate(m.v)])
        if sane(q): m = q
    s = Session(rng, m, 0 if bs == 5 else rng.randrange(2), sc, mt)
    s.new(0, name, napply=rng.choice([1, 2]), ainit=rng.choice(["zero", "jacobi"]), relax=1, chunk=rng.choice([1, 2, 5]))
    s.cmp(0)
    for _ in range(rng.choice([1, 2, 2]) if name != "jacobi" else 5):
        if rng.random() < 0.2: s.rel(0, maxits=rng.choice([1, 2, 3]), ctol=int(name != "jacobi" and rng.random() < 0.5), **fixed_args(s, rng)); ck.count("fixed_points")
        elif name == "jacobi": jacobi_rel(ck, rng, s)
        else: s.rel(0, maxits=rng.choice([0, 1, 2, 3, 4]), ctol=rng.randrange(2), rtol=rng.choice([0.0, 0.5]), atol=rng.choice([0.0, 10.0]), dtol=rng.choice([1e30, 0.1]))
    ck.count("%s_bs%d" % ("mt" if mt else "seq", bs)); ck.count(name)
    return s

def par_session(ck, rng, bs):
    m = matrix(rng, bs); name = rng.choice(["gs", "sgs"])
    s = Session(rng, m, 0 if bs == 5 else rng.randrange(2), gen.schedule(rng, T=rng.choice([2, 3, 4])))
    s.new(0, name, napply=rng.choice([1, 2]), ainit="zero", relax=1, chunk=rng.choice([1, 1, 2]))
    s.cmp(0)
    kw = fixed_args(s, rng) if rng.random() < 0.25 else {}
    if kw: ck.count("par_fixed")
    s.rel(0, maxits=rng.choice([0, 1, 1, 2, 3]), check=0, log=True, **kw)
    ck.count("par_bs%d" % bs); ck.count("par_" + name)
    return s

def run(ck):
    rng = ck.rng
    asan, shim = ck.build(("asan", "h_solver.cpp", []), ("shim", "h_solver.cpp", []))
    n = ck.scale(1, 8)
    seq = {}; mt = {}; par = {}
    for bs, k in ((1, 180), (4, 90), (5, 25)):
        for _ in range(k * n): seq[ck.newid()] = seq_session(ck, rng, bs)
    for bs, k in ((1, 60), (4, 25), (5, 8)):
        for _ in range(k * n): mt[ck.newid()] = seq_session(ck, rng, bs, 1, gen.schedule(rng, T=rng.choice([2, 3, 4, 7])), ["jacobi", "jacobi", "level_sgs"])
    for bs, k in ((1, 140), (4, 50), (5, 12)):
        for _ in range(k * n): par[ck.newid()] = par_session(ck, rng, bs)
    res = ck.run_harness(asan, {i: s.line() for i, s in seq.items()}, env={"OMP_NUM_THREADS": "1"})
    ck.trace("T_Solver", [(i, s.trace(res[i])) for i, s in seq.items()])
    res = ck.run_harness(shim, {i: s.line() for i, s in list(mt.items()) + list(par.items())})
    ck.trace("T_Solver", [(i, s.trace(res[i])) for i, s in mt.items()])
    judge_logged(ck, par, res)
    for cfg in ["MC_AsyncRelax_sgsrelax", "MC_AsyncRelax_fix"] + (["MC_AsyncRelax_fix3"] if ck.thorough else []):
        ck.mc("MC_AsyncRelax", cfg + ".cfg", workers=8)
    ck.mc("MC_Solver", "MC_Solver.cfg", workers=8)
    ck.assume += ["tolerances keep a relative distance of 1e-4 from every observed change", "schedules are interleavings of single memory accesses (sequential consistency)"]
    return ck.finish(sample=[par[i].line()[:150] for i in list(par)[:4]])
