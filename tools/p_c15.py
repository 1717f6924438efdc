from vlib import *
import gen
from itertools import permutations, product

def run(ck):
    rng = ck.rng
    asan, shim = ck.build(("asan", "h_scan.cpp", []), ("shim", "h_scan.cpp", []))
    jobs = {asan: {}, shim: {}}; meta = {}
    def add(exe, sc, toks, kind, **f):
        cid = ck.newid(); jobs[exe][cid] = " ".join(fmt(t) for t in list(sc) + toks); meta[cid] = dict(f, op=toks[0]); ck.count(kind)
    one = [1, 0, 0, 1, []]
    # prefix sums: every length and thread count, several schedules
    top = ck.scale(40, 90)
    for n in range(top + 1):
        for T in list(range(1, 9)) + ([16] if n % 5 == 0 else []):
            for q in range(ck.scale(2, 6)):
                c = [rng.randrange(-9, 50) for _ in range(n)]
                if q == 0 and T <= 8: add(asan, [T, 0, 0, 1, []], ["psum", c], "native_sums", c=c)
                elif T <= 8: add(shim, gen.schedule(rng, T, rng.choice([0, 1, 1, 2, 3, 4])), ["psum", c], "scheduled_sums", c=c)
    for _ in range(ck.scale(40, 400)):
        n = rng.randrange(100, 700); c = [rng.randrange(0, 30) for _ in range(n)]
        if rng.random() < 0.5: add(asan, [rng.randrange(1, 17), 0, 0, 1, []], ["psum", c], "long_sums", c=c)
        else: add(shim, gen.schedule(rng, rng.randrange(2, 9)), ["psum", c], "long_sums", c=c)
    for n in list(range(0, 12)) + [rng.randrange(12, 200) for _ in range(20)]:
        for k in range(3): c = [rng.randrange(-9, 50) for _ in range(n)]; add(asan, one, ["incl", k, c], "inclusive", c=c)
    def sort(bs, ix):
        v = [float(rng.randrange(1, 10000)) for _ in range(len(ix) * bs * bs)]
        add(asan, one, ["sort", bs, ix, v], "sorts_bs%d" % bs, c=ix, v=[int(x) for x in v], bs=bs)
    for bs in (1, 2, 4, 5, 7):
        for n in range(0, 6 if bs < 4 else 5):
            for p in permutations(range(n)): sort(bs, [3 * x + 1 for x in p])
        for _ in range(ck.scale(60, 500)):
            n = rng.randrange(4, 14); r = rng.randrange(3)
            ix = rng.sample(range(40), n)
            if r == 1: ix.sort(); i, j = rng.randrange(n), rng.randrange(n); ix[i], ix[j] = ix[j], ix[i]
            elif r == 2: ix.sort(reverse=rng.random() < 0.7)
            sort(bs, ix)
    for n in range(0, 4):
        for ix in product(range(3), repeat=n): sort(1, list(ix))
    for _ in range(ck.scale(300, 2000)):
        n = rng.randrange(1, 10); a = [rng.randrange(6) for _ in range(n)]; s = rng.randrange(n + 1); e = rng.randrange(s, n + 1); x = rng.randrange(7)
        add(asan, one, ["find", a, s, e, x, -5], "searches", c=a, x=x, before=-5, **{"from": s, "to": e})
    cases = []
    for exe in (asan, shim):
        for cid, r in ck.run_harness(exe, jobs[exe]).items():
            m = dict(meta[cid]); g = lambda k: r.get(k, [0])[0]
            m.update(crash=crashed(r) or g("dead"), guard=g("guard"), again=g("again"), unchanged=1 - g("changed"))
            m["out"] = r.get("ix" if m["op"] == "sort" else "pos" if m["op"] == "find" else "out", [])
            if m["op"] == "sort": m["w"] = r.get("v", [])
            ck.count("switch_points", g("yields"))
            cases.append((cid, [m]))
    ck.trace("T_Scan", cases)
    ck.mc("MC_Scan", workers=8, consts={"MaxN": 9, "MaxT": 6} if ck.thorough else {})
    ck.refuted("MC_Scan", consts={"WithBarrier": "FALSE"})
    ck.assume += ["the team has as many threads as omp_get_max_threads announces", "schedules are interleavings of single memory accesses"]
    return ck.finish(sample=["case %d: %s" % (c, jobs[asan].get(c, jobs[shim].get(c, ""))[:150]) for c in list(meta)[:4]])
