from vlib import *
from solver_common import *
from itertools import combinations

def sym_pattern(n, pairs):
    s = {(i, i) for i in range(n)} | set(pairs) | {(j, i) for (i, j) in pairs}
    rp, ci = gen.csr(s, n)
    return gen.M(n, 1, rp, ci, [1.0] * len(ci))
def all_sym(n):
    off = [(i, j) for i in range(n) for j in range(i + 1, n)]
    for k in range(len(off) + 1):
        for pairs in combinations(off, k): yield sym_pattern(n, pairs)

def lmatrix(rng, bs, big):
    while True:
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 9] + ([12, 14] if big else [])) if bs == 1 else rng.choice([1, 2, 3, 4, 5])
        kind = rng.choice(["random", "random", "random", "tri", "arrow", "arrow0", "grid", "diag", "band", "dense"])
        m = gen.matrix(rng, n, bs, kind, rng.choice([0.08, 0.15, 0.25]), diag=True, sym=True, dom=-rng.choice([1.0, 0.7]))
        if sane(m) and sane(m, True): return m

def session(ck, rng, bs, kind, native=False):
    m = lmatrix(rng, bs, ck.thorough)
    sc = [rng.choice([2, 3, 4, 8]), 0, 0, 1, []] if native else gen.schedule(rng, T=rng.choice([2, 3, 4, 4, 7]))
    ilu = kind == "async_level_ilu0"
    s = Session(rng, m, 0 if bs == 5 else rng.randrange(2), sc, 0 if ilu else 1)
    scaling = ilu and rng.random() < 0.5
    s.new(0, kind, scaling=scaling, nbuild=rng.choice([1, 1, 2]), napply=rng.choice([1, 3]), finit=rng.randrange(3), relax=rng.randrange(2), chunk=rng.choice([1, 2]))
    s.cmp(0)
    for _ in range(rng.choice([1, 2, 2])):
        if not ilu and rng.random() < 0.5: s.rel(0, maxits=rng.choice([1, 1, 2, 3])); ck.count("relaxations")
        else: s.app(0, log=ilu); ck.count("applications")
        if rng.random() < 0.2 and ilu == 0: s.val(revalue(rng, m)); s.cmp(0)
    ck.count("%s_%s_bs%d" % ("native" if native else "sched", kind, bs))
    return s

def run(ck):
    rng = ck.rng
    lev, asan, shim = ck.build(("asan", "h_levels.cpp", []), ("asan", "h_solver.cpp", []), ("shim", "h_solver.cpp", []))
    n = ck.scale(1, 8)
    ms = [m for k in range(1, 6 if ck.thorough else 5) for m in all_sym(k)]
    ck.count("exhaustive_patterns", len(ms))
    for _ in range(ck.scale(300, 2500)):
        k = rng.choice([5, 6, 8, 10, 13, 20]) if not ck.thorough else rng.choice([6, 8, 10, 16, 24, 30])
        ms.append(gen.matrix(rng, k, 1, rng.choice(["random", "random", "random", "tri", "arrow", "arrow0", "grid", "band"]), rng.choice([0.03, 0.06, 0.12, 0.3]), diag=True, sym=True))
        ck.count("random_patterns")
    jobs = {ck.newid(): m for m in ms}
    res = ck.run_harness(lev, {i: " ".join(fmt(t) for t in m.toks()) for i, m in jobs.items()})
    ck.trace("T_Levels", [(i, [{"op": "levels", "m": m.tla(), "crash": crashed(res[i]), "levels": res[i].get("levels", []), "intact": res[i].get("intact", [0])[0]}]) for i, m in jobs.items()])
    nat = {}; sch = {}
    for bs, k in ((1, 140), (4, 50), (5, 12)):
        for q in range(k * n):
            kind = rng.choice(["level_sgs", "level_sgs", "async_level_ilu0"])
            if q % 6 == 0: nat[ck.newid()] = session(ck, rng, bs, kind, True)
            else: sch[ck.newid()] = session(ck, rng, bs, kind)
    res = ck.run_harness(asan, {i: s.line() for i, s in nat.items()})
    ck.trace("T_Solver", [(i, s.trace(res[i])) for i, s in nat.items()])
    res = ck.run_harness(shim, {i: s.line() for i, s in sch.items()})
    ck.trace("T_Solver", [(i, s.trace(res[i])) for i, s in sch.items()])
    ck.count("switch_points", sum(r.get("yields", [0])[0] for r in res.values()))
    for cfg in ["sgs", "ilu", "relax", "live"] + (["three", "five"] if ck.thorough else []):
        ck.mc("MC_Levels", "MC_Levels_%s.cfg" % cfg, workers=8)
    for cfg in ("sgs", "ilu", "relax") if ck.thorough else ("sgs",): ck.refuted("MC_Levels", "MC_Levels_%s.cfg" % cfg, consts={"Waits": "FALSE"}, workers=8)
    ck.assume += ["patterns structurally symmetric with a full diagonal and sorted rows", "schedules are interleavings of single memory accesses (sequential consistency)", "level ILU factors computed by one thread"]
    return ck.finish(sample=[s.line()[:150] for s in list(sch.values())[:4]])
