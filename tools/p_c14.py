from vlib import *
from solver_common import *
from p_c08 import trace_of
from p_c11 import judge_logged

TABLES = {"solver": ALL, "fact": ["init_zero", "init_original", "init_sgs", "init_none"], "apply": ["init_zero", "init_jacobi", "init_none"]}
def strings(rng, thorough):
    """documented names of every table and strings near them"""
    good = sorted(set(x for t in TABLES.values() for x in t))
    out = set(good) | {"", " ", "None", "NONE", "external", "ilu", "csc_bgs", "levelsgs", "level_ilu0", "init", "init_", "zero", "original", "default", "sai", "isai", "0", "-1", "async_level_sgs", "level_ilu0", "async_sgs"}
    for x in good:
        out |= {x.upper(), x.capitalize(), x + " ", " " + x, x + "\n", x + "0", "_" + x, x.replace("_", ""), x.replace("_", "-"), x + x, x[::-1]}
        out |= {x[:k] for k in range(len(x))} | {x[k:] for k in range(1, len(x))}
        out |= {x[:k] + x[k+1:] for k in range(len(x))} | {x[:k] + x[k+1:k+2] + x[k:k+1] + x[k+2:] for k in range(len(x) - 1)}
        for _ in range(60 if thorough else 12):
            k = rng.randrange(len(x) + 1); c = rng.choice("abcdefghijklmnopqrstuvwxyz_0123456789.-")
            out |= {x[:k] + c + x[k:], x[:k] + c + x[k+1:]}
    out |= {a + b for a in good for b in good} if thorough else set()
    return sorted(out)
def encode(s): return "=" + "".join(c if c.isalnum() or c == "_" else "%%%02x" % ord(c) for c in s)

def threads_matrix(rng, bs, sym):
    """at least three rows to hand out; the factors' array is of a size no other array of the object has"""
    while True:
        m = matrix(rng, bs, sym=sym)
        nnz = len(m.ci)
        if m.n >= 3 and nnz * bs * bs != m.n * bs and nnz * bs * bs != m.n * bs * bs: return m

def opt_session(ck, rng, bs, name):
    """every option matters here: chunk, build and apply sweeps are pairwise different"""
    m = threads_matrix(rng, bs, "level" in name)
    fair = rng.random() < 0.6
    s = Session(rng, m, 0 if bs == 5 else rng.randrange(2), gen.schedule(rng, T=rng.choice([2, 3]), pol=3 if fair else None))
    nb, na, ch = rng.sample([1, 2, 3], 3) if not fair else [*rng.sample([2, 3], 2), 1]
    s.fair = fair and ch == 1
    what = rng.choice(["f", "a"]) if name in ILU and name != "async_level_ilu0" else "f" if name in ILU else "a"
    s.new(0, name, scaling=rng.random() < 0.5 and not (what == "a" and bs > 1), nbuild=nb, napply=na, finit=rng.choice([0, 1, 2, 3]) if what == "f" else 1,
          ainit=rng.choice(["zero", "jacobi"]), relax=rng.randrange(2), chunk=ch, info=rng.random() < 0.4)
    s.cmp(0)
    if what == "f":
        if rng.random() < 0.5: s.val(revalue(rng, m))
        s.cmp(0, logf=True)
    else: s.app(0, log=True, check=0)
    ck.count("%s_%s" % (name, "factor" if what == "f" else "apply")); ck.count("fair", int(s.fair))
    return s, what

def factor_cases(s, r):
    """the logged compute: trace for T_AsyncILU, and what it reported for T_ILU"""
    st, k, m = s.flogged; o = s.objs[k]; b = m.bs ** 2
    ids = [int(x.split("_")[1]) for x in r if x.startswith("f%d_" % st)]
    us = parse_updates(r.get("u", []), {a: b for a in range(12)})
    if not ids and not crashed(r): return None, None
    best = max(ids, key=lambda a: sum(u["a"] == a for u in us)) if ids else -1
    us = [dict(u, reads=[x for x in u["reads"] if x[0] == best]) for u in us if u["a"] == best]
    c = dict(m=m, scaling=int(o["scaling"]), init=o["finit"], nsweeps=o["nbuild"], usethreads=1, f0=r.get("f%d_%d" % (st, best), []), exact=0, sc=s.sc, us=us)
    rr = dict(r)
    if not crashed(r): rr["f"] = r["g%d_%d" % (st, best)]; rr["intact"] = r["intact%d" % st]
    t = trace_of(c, rr)
    t[0]["method"] = o["name"]
    if len(t) > 1:
        t[-1]["inorder"] = int(s.sc[1] == 0)
        if s.fair: t[-1]["fair"] = 1
    info = None
    if o["info"] and not crashed(r):
        info = {"op": "info", "m": m.tla(), "scaling": c["scaling"], "init": c["init"], "nsweeps": c["nsweeps"], "crash": 0, "f0": blocks(c["f0"], b), "f": blocks(rr["f"], b),
                "fsame": 1, "info": fv(r["info%d" % st]), "intact": 1}
    return t, info

def run(ck):
    rng = ck.rng
    fa, asan, shim = ck.build(("asan", "h_factory.cpp", []), ("asan", "h_solver.cpp", []), ("shim", "h_solver.cpp", []))
    # names
    ss = strings(rng, ck.thorough); cs = {}
    for t in TABLES:
        for x in ss: cs[ck.newid()] = (t, x)
    res = ck.run_harness(fa, {i: "%s %s" % (t, encode(x)) for i, (t, x) in cs.items()})
    ck.trace("T_Factory", [(i, [{"table": t, "s": x, "crash": crashed(res[i]), "got": res[i].get("got", "")}]) for i, (t, x) in cs.items()])
    ck.count("names", len(cs))
    # every method, block size and layout; then the objects at work
    jobs = {}
    for bs in range(1, 9):
        for rm in (0, 1):
            for name in ALL + ["external", "nosuch"]:
                m = matrix(rng, bs, sym="level" in name)
                ok = name in ALL and (bs == 1 or (bs in (4, 5) and name != "cscbgs" and not (bs == 5 and rm)))
                for rep in range(ck.scale(1, 3)):
                    s = Session(rng, m, rm)
                    s.new(0, name, scaling=rng.randrange(2), nbuild=rng.choice([1, 2]), napply=rng.choice([1, 2]), finit=rng.randrange(3), ainit=rng.choice(["zero", "jacobi"]), relax=rng.randrange(2), chunk=rng.choice([1, 4]), info=rng.randrange(2))
                    if ok: s.cmp(0); s.app(0); s.rel(0, maxits=rng.choice([1, 2])); s.app(0)
                    jobs[ck.newid()] = s
                    ck.count("created" if ok else "refused")
    res = ck.run_harness(asan, {i: s.line() for i, s in jobs.items()}, env={"OMP_NUM_THREADS": "1"})
    ck.trace("T_Solver", [(i, s.trace(res[i])) for i, s in jobs.items()])
    # options, observed at work under controlled schedules
    par = {}
    for bs, k in ((1, 24), (4, 8), (5, 4)):
        for name in ILU + ["gs", "sgs"]:
            for _ in range(k * ck.scale(1, 8)):
                par[ck.newid()] = opt_session(ck, rng, bs, name)
    res = ck.run_harness(shim, {i: s.line() for i, (s, w) in par.items()})
    fac, inf = [], []
    for i, (s, w) in par.items():
        if w != "f": continue
        t, info = factor_cases(s, res[i])
        if t is None: ck.count("unobserved"); continue
        fac.append((i, t)); ck.count("updates", len(t) - 2)
        if info: inf.append((i, [info])); ck.count("diagnostics")
    if not fac: raise ToolError("no factorization could be observed")
    ck.trace("T_AsyncILU", fac)
    ck.trace("T_ILU", inf)
    judge_logged(ck, {i: s for i, (s, w) in par.items() if w == "a"}, res)
    ck.mc("MC_Solver", "MC_Solver.cfg" if not ck.thorough else "MC_Solver_3.cfg", workers=8)
    ck.assume += ["names are compared as byte strings", "under the round-robin schedule a threaded loop over at least three rows is shared by at least two threads"]
    return ck.finish(sample=[s.line()[:150] for s, w in list(par.values())[:4]])
