from vlib import *
import gen
from p_c07 import factor_case, line

def run(ck):
    rng = ck.rng
    asan, shim = ck.build(("asan", "h_ilu.cpp", []), ("shim", "h_ilu.cpp", []))
    jobs = {asan: {}, shim: {}}; meta = {}
    n = ck.scale(1, 8)
    for bs, k in ((1, 140 * n), (4, 60 * n), (5, 20 * n)):
        for q in range(k):
            exe = asan if q % 2 else shim
            c = factor_case(rng, bs, exe, shim, True, info=True, seq=rng.random() < 0.5)
            i = ck.newid(); meta[i] = ("info", c); jobs[exe][i] = " ".join(fmt(t) for t in c["toks"])
            ck.count("bs%d" % bs); ck.count("init%d" % c["init"]); ck.count("sequential", c["seq"])
    for q in range(ck.scale(40, 300)):
        k = rng.choice([0, 1, 2, 3, 5, 8, 17])
        x = [rng.choice([gen.rnd(rng), -abs(gen.rnd(rng)), 0.0]) for _ in range(k)]
        if rng.random() < 0.3: x = [-abs(v) - 1 for v in x]
        exe = asan if q % 2 else shim
        sc = gen.schedule(rng) if exe == shim else [rng.choice([1, 2, 3, 4, 7]), 0, 0, 1, []]
        i = ck.newid(); meta[i] = ("norm", dict(x=x)); jobs[exe][i] = " ".join(fmt(t) for t in ["norm"] + sc + [x]); ck.count("maxnorm")
    cases = []
    for exe in (asan, shim):
        for i, r in ck.run_harness(exe, jobs[exe]).items():
            op, c = meta[i]
            if op == "info": cases.append((i, [line(c, r, "info")]))
            else: cases.append((i, [{"op": "norm", "crash": crashed(r), "x": fv(c["x"]), "norm": fl(r.get("norm", [float("nan")])[0])}]))
    ck.trace("T_ILU", cases)
    ck.mc("MC_ILU", workers=8)
    ck.assume += ["reported numbers equal up to 1e-9 relative to the sum of absolute values of the matrix; factors with non-finite entries are skipped"]
    return ck.finish(sample=[" ".join(fmt(t) for t in c["toks"])[:150] for (o, c) in list(meta.values())[:4] if "toks" in c])
