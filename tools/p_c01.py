from vlib import *
import gen

CLS = [("csrview", 1, 1), ("csrviewst", 1, 1), ("own", 1, 1), ("wrap", 1, 1), ("own", 3, 1), ("own", 7, 1), ("wrap", 3, 1), ("wrap", 7, 1),
       ("bsrview", 3, 1), ("bsrview", 3, 0), ("bsrview", 4, 1), ("bsrview", 4, 0), ("bsrview", 5, 0), ("bsrview", 7, 1), ("bsrview", 7, 0),
       ("bsrviewst", 3, 0), ("bsrviewst", 4, 0), ("bsrviewst", 5, 0), ("bsrviewst", 4, 1), ("bsrviewst", 7, 1),
       ("col", 3, 0), ("col", 4, 0), ("col", 7, 1)]

def run(ck):
    rng = ck.rng
    asan, shim = ck.build(("asan", "h_matvec.cpp", []), ("shim", "h_matvec.cpp", []))
    jobs = {asan: {}, shim: {}}; meta = {}
    for rep in range(ck.scale(6, 40)):
        for cls, bs, rm in CLS:
            for op in (["gemv3"] if cls == "col" else ["apply", "gemv3"]):
                for exe in (asan, shim):
                    n = rng.choice([1, 2, 3, 4, 5] + ([6, 8, 11] if bs == 1 else [6]))
                    kind = rng.choice(gen.KINDS)
                    m = gen.matrix(rng, n, bs, kind, rng.choice([0.15, 0.4, 0.7]), diag=rng.random() < 0.6,
                                   order=(rng.shuffle if rng.random() < 0.3 and not (cls == "own" and bs == 1) else None))
                    alpha, beta = (1.0, 0.0) if op == "apply" else (rng.choice([1.0, -1.0, gen.rnd(rng)]), rng.choice([0.0, 1.0, gen.rnd(rng)]))
                    alias = 1 if op == "gemv3" and rng.random() < 0.5 else 0
                    x, y = gen.vec(rng, n * bs), gen.vec(rng, n * bs)
                    sc = gen.schedule(rng) if exe == shim else [rng.choice([1, 2, 3, 4, 7]), 0, 0, 1, []]
                    cid = ck.newid()
                    jobs[exe][cid] = " ".join(fmt(t) for t in sc + [cls, op, rm, alias] + m.toks() + [alpha, beta, x, y])
                    meta[cid] = (m, cls, op, alpha, beta, x, y)
                    ck.count(cls); ck.count("schedules" if exe == shim else "native")
    cases = []
    for exe in (asan, shim):
        res = ck.run_harness(exe, jobs[exe])
        for cid, r in res.items():
            m, cls, op, alpha, beta, x, y = meta[cid]
            crash = r.get("crash", [0])[0] or (1 if "exception" in r else 0)
            cases.append((cid, [{"op": "product", "m": m.tla(), "form": "col" if cls == "col" else "row", "alpha": fl(alpha), "beta": fl(beta),
                                 "x": blocks(x, m.bs), "y": blocks(y, m.bs), "z": blocks(r.get("z", []), m.bs), "intact": r.get("intact", [0])[0],
                                 "dim": r.get("dim", [-1])[0], "crash": crash}]))
    ck.trace("T_MatVec", cases)
    ck.mc("MC_MatVec", workers=8)
    if ck.thorough: ck.mc("MC_MatVec", "MC_MatVec_big.cfg", workers=8)
    ck.assume += ["equality up to 1e-9 relative rounding", "matrices up to 11 block-rows, block sizes 1,3,4,5,7"]
    return ck.finish(sample=["case %d: %s" % (c, jobs[asan].get(c, jobs[shim].get(c, ""))[:150]) for c in list(meta)[:4]])
