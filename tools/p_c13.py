from vlib import *
from solver_common import *
from p_c11 import judge_logged
import re

def histories(ck, module, cfg, consts, want):
    """histories printed by TLC: all of them when there are not too many, else a sample drawn with the check's seed"""
    out = ck.mc(module, cfg, workers=1, consts=consts)
    hs = [re.findall(r'<<"(\w+)", *(\d+)>>', x) for x in re.findall(r'<< *"HIST",(.*?>>) *>> *>>', " ".join(out.split()) )]
    hs = [x for x in hs if x]
    total = len(hs); hs.sort(); ck.rng.shuffle(hs)
    return hs[:want], total

def session(ck, rng, h, bs, par=0):
    """a history on the real code; par = 1: its last call is threaded and logged; par = 2: neighbouring calls on different objects are issued at once"""
    names = {k: rng.choice([x for x in ALL if bs == 1 or x != "cscbgs"]) for k in "12"}
    if rng.random() < 0.3: names["2"] = names["1"]
    sym = any(x in ("level_sgs", "async_level_ilu0") for x in names.values())
    m = matrix(rng, bs, sym=sym, nmax=5)
    s = Session(rng, m, 0 if bs == 5 else rng.randrange(2), gen.schedule(rng, T=rng.choice([2, 3, 4])) if par else None)
    if par == 1:       # the last call: an asynchronous method whose every update is observed
        op, k = h[-1]
        names[k] = rng.choice(["gs", "sgs"] if op == "rel" else ["gs", "sgs", "ilu0", "sapilu0", "sgs", "ilu0"])
        noscale = bs > 1          # the last, pointwise scaling of a block may be shared by two threads
    q = -1
    while q + 1 < len(h):
        q += 1; op, k = h[q]; last = q + 1 == len(h)
        k = int(k)
        if par == 2 and not last and op in ("cmp", "app") and h[q+1][0] in ("cmp", "app") and h[q+1][1] != str(k):
            s.both((op, k), (h[q+1][0], int(h[q+1][1]))); q += 1; ck.count("at_once"); continue
        if par == 1 and last:
            if op == "app": s.app(k, log=True, check=0)
            else: s.rel(k, maxits=rng.choice([1, 2]), check=0, log=True)
            continue
        if op == "new":
            if rng.random() < 0.15 and par != 1: names[str(k)] = rng.choice([x for x in ALL if (bs == 1 or x != "cscbgs") and x not in ("level_sgs", "async_level_ilu0")])
            s.new(k, names[str(k)], scaling=rng.random() < 0.5 and not (par == 1 and noscale and str(k) == h[-1][1]), nbuild=rng.choice([1, 2, 8]), napply=rng.choice([1, 2, 3] if par == 1 else [1, 2, 12]), finit=rng.randrange(3),
                  ainit=rng.choice(["zero", "jacobi"] + ([] if par else ["none"])), relax=rng.randrange(2), chunk=rng.choice([1, 3]), info=rng.random() < 0.2)
        elif op == "cmp": s.cmp(k)
        elif op == "val": s.val(revalue(rng, m))
        elif op == "del": s.delete(k)
        elif op == "app": s.app(k)
        else: s.rel(k, maxits=rng.choice([1, 2]))
    for x in names.values(): ck.count(x)
    return s

def pair(ck, rng, bs):
    """two objects, most often of one method, computed and applied at once"""
    a = rng.choice([x for x in ALL if bs == 1 or x != "cscbgs"]); b = a if rng.random() < 0.7 else rng.choice([x for x in ALL if bs == 1 or x != "cscbgs"])
    m = matrix(rng, bs, sym="level" in a + b, nmax=5)
    sc = gen.schedule(rng, T=2)
    while sc[1] not in (1, 2, 3): sc = gen.schedule(rng, T=2)
    s = Session(rng, m, 0 if bs == 5 else rng.randrange(2), sc)
    for k, x in ((1, a), (2, b)):
        s.new(k, x, scaling=rng.random() < 0.5, nbuild=rng.choice([1, 2]), napply=rng.choice([1, 2]), finit=rng.randrange(3), ainit=rng.choice(["zero", "jacobi"]), relax=rng.randrange(2), chunk=rng.choice([1, 3]))
    s.both(("cmp", 1), ("cmp", 2))
    if rng.random() < 0.4: s.val(revalue(rng, m)); s.both(("cmp", 1), ("cmp", 2))
    for _ in range(rng.choice([1, 2])): s.both(("app", 1), ("app", 2))
    ck.count("pairs_bs%d" % bs)
    return s

def run(ck):
    rng = ck.rng
    asan, shim = ck.build(("asan", "h_solver.cpp", []), ("shim", "h_solver.cpp", []))
    jobs = {}
    two_obj = [(5, 80), (6, 200), (7, 200)] if not ck.thorough else [(5, 80), (6, 600), (7, 2000), (8, 2000)]
    one_obj = [(5, 60), (6, 240), (7, 240), (8, 240)] if not ck.thorough else [(6, 300), (7, 700), (8, 2400), (9, 2000)]
    for objs, depth, want in [("{1, 2}", d, w) for d, w in two_obj] + [("{1}", d, w) for d, w in one_obj]:
        hs, total = histories(ck, "History", "MC_History.cfg", {"Depth": depth, "Objects": objs}, want)
        ck.count("histories_%dobj_depth%d_of_%d" % (1 + (objs != "{1}"), depth, total), len(hs))
        if objs == "{1}": hs = (hs * 4)[:want]
        for h in hs:
            bs = rng.choice([1, 1, 1, 4, 4, 5])
            jobs[ck.newid()] = session(ck, rng, h, bs); ck.count("bs%d" % bs)
    par = {}; two = {}
    hs, total = histories(ck, "History", "MC_History.cfg", {"Depth": 6}, 4096)
    hs2 = [x for x in hs if any(a[0] in ("cmp", "app") and b[0] in ("cmp", "app") and a[1] != b[1] for a, b in zip(x, x[1:-1]))]
    for x in hs[:ck.scale(150, 1500)]: par[ck.newid()] = session(ck, rng, x, rng.choice([1, 1, 4, 5]), 1); ck.count("threaded_histories")
    for x in (hs2 * 8)[:ck.scale(250, 2000)]: two[ck.newid()] = session(ck, rng, x, rng.choice([1, 1, 4, 5]), 2); ck.count("concurrent_histories")
    for bs, k in ((1, 90), (4, 60), (5, 30)):
        for _ in range(ck.scale(k, 8 * k)): two[ck.newid()] = pair(ck, rng, bs)
    res = ck.run_harness(shim, {i: s.line() for i, s in list(par.items()) + list(two.items())})
    ck.trace("T_Solver", [(i, s.trace(res[i])) for i, s in two.items()])
    judge_logged(ck, par, res)
    ck.count("switch_points", sum(r.get("yields", [0])[0] for r in res.values()))
    res = ck.run_harness(asan, {i: s.line() for i, s in jobs.items()}, env={"OMP_NUM_THREADS": "1"})
    ck.trace("T_Solver", [(i, s.trace(res[i])) for i, s in jobs.items()])
    ck.mc("MC_Solver", "MC_Solver.cfg" if not ck.thorough else "MC_Solver_3.cfg", workers=8)
    for f in ("diagonal", "columns") if ck.thorough else ("columns",): ck.refuted("MC_Solver", consts={"Faults": '{"%s"}' % f}, workers=8)
    ck.assume += ["operations on solver objects are issued by one thread", "objects are destroyed by their owner once, after their last use"]
    return ck.finish(sample=[s.line()[:150] for s in list(jobs.values())[:4]])
