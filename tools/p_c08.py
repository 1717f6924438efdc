from vlib import *
import gen
from ilu_common import *

def make(ck, rng, bs, exact=False, inorder=False, long=False):
    while True:
        m = pick_matrix(rng, bs, ck.thorough and long)
        scaling = rng.random() < 0.4
        ex = factors(m, scaling)
        if ex is not None and max(abs(x) for x in ex) < 1e3: break
    init = 3 if exact else rng.choice([0, 1, 2, 2, 1, 3])
    nsweeps = rng.choice([1, 1, 2, 3]) if bs > 1 else rng.choice([1, 2, 2, 3, 4])
    chunk = rng.choice([1, 1, 1, 2, 3])
    usethreads = rng.random() < 0.9
    sc = gen.schedule(rng, T=rng.choice([2, 3, 4]), pol=(3 if not usethreads else None))
    if inorder: sc[1] = 0
    f0 = ex if exact else [gen.rnd(rng) for _ in m.v] if bs == 1 else list(m.v)
    rm = 0 if bs == 5 else rng.randrange(2)
    info = 1 if rng.random() < 0.15 else 0
    toks = ["factor"] + sc + [rm, scaling, init, nsweeps, chunk, usethreads, info] + m.toks() + [f0]
    return dict(m=m, scaling=int(scaling), init=init, nsweeps=nsweeps, usethreads=int(usethreads), f0=f0, exact=int(exact), sc=sc, toks=toks, info=info)

def trace_of(c, r):
    m, b = c["m"], c["m"].bs ** 2
    nnz = len(m.ci)
    k = crashed(r)
    hdr = {"op": "begin", "m": m.tla(), "scaling": c["scaling"], "init": c["init"], "nsweeps": c["nsweeps"], "usethreads": c["usethreads"],
           "f0": blocks(c["f0"], b), "exact": c["exact"], "crash": k, "posptr": r.get("posptr", []), "lowerp": r.get("lowerp", []), "upperp": r.get("upperp", []),
           "g": [], "nupd": -1}
    if k: return [hdr]
    us = c["us"] if "us" in c else parse_updates(r.get("u", []), {0: b})
    diag = set(p for i in range(m.n) for p in range(m.rp[i], m.rp[i+1]) if m.ci[p] == i)
    per = {}
    for n, u in enumerate(us): per.setdefault(u["c"], []).append(n)
    sweeps = set(); g = []; tot = 0
    for p in range(nnz):
        ns = per.get(p, [])
        if b > 1 and p in diag:                     # the inversion of the diagonal block comes last
            ns = ns[:-1]
        sw = ns[len(ns) - c["nsweeps"]:] if c["nsweeps"] else []
        if len(ns) < c["nsweeps"]: sw = ns
        tot += len(sw); sweeps |= set(sw)
        if sw: g.append(us[sw[0]]["prev"])
        elif ns: g.append(us[ns[-1]]["new"])
        else: g.append(c["f0"][p*b:(p+1)*b])
        if c["init"] == 3 and len(ns) != c["nsweeps"]: tot += 1000     # no writes but the sweeps
    hdr["nupd"] = tot
    hdr["g"] = [fv(x) for x in g]
    ls = [hdr]
    for n, u in enumerate(us):
        if n in sweeps:
            ls.append({"op": "upd", "t": u["t"], "p": u["c"], "v": fv(u["new"]), "reads": [[rc, [fv(v) for v in vs]] for (_, rc, vs) in u["reads"]]})
    ls.append({"op": "end", "f": blocks(r["f"], b), "intact": r["intact"][0], "threads": r["threads"][0],
               "inorder": int(c["sc"][1] == 0 or not c["usethreads"])})
    return ls

def run(ck):
    rng = ck.rng
    shim, = ck.build(("shim", "h_ilu.cpp", []))
    cs = {}
    n = ck.scale(1, 6)
    plan = [(1, False, False)] * (90 * n) + [(1, True, False)] * (30 * n) + [(1, False, True)] * (20 * n) + \
           [(4, False, False)] * (24 * n) + [(4, True, False)] * (8 * n) + [(4, False, True)] * (6 * n) + [(5, False, False)] * (5 * n)
    for bs, exact, inorder in plan:
        c = make(ck, rng, bs, exact, inorder, long=True); cs[ck.newid()] = c
        ck.count("bs%d" % bs); ck.count("from_exact", int(exact)); ck.count("in_order", int(inorder)); ck.count("init%d" % c["init"])
    res = ck.run_harness(shim, {i: " ".join(fmt(t) for t in c["toks"]) for i, c in cs.items()})
    cases = []
    for i, c in cs.items():
        tr = trace_of(c, res[i]); cases.append((i, tr))
        ck.count("updates", len(tr) - 2); ck.count("switch_points", res[i].get("yields", [0])[0])
    ck.trace("T_AsyncILU", cases)
    for cfg in ["MC_AsyncILU", "MC_AsyncILU_fix", "MC_AsyncILU_live"] + (["MC_AsyncILU_big", "MC_AsyncILU_fix3"] if ck.thorough else []):
        ck.mc("MC_AsyncILU", cfg + ".cfg", workers=8)
    ck.assume += ["schedules are interleavings of single memory accesses (sequential consistency); matrices up to 8 rows (5 block-rows)",
                  "an update whose pivot was singular or whose operands were not finite when read is only counted"]
    return ck.finish(sample=[" ".join(fmt(t) for t in cs[i]["toks"])[:150] for i in list(cs)[:4]])
