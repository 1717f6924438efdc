from vlib import *
import gen

def inverse(o): q = [0] * len(o); [q.__setitem__(x, k) for k, x in enumerate(o)]; return q

def matrix(rng, n, r, c):
    """a matrix whose re-ordered form has a dominant positive diagonal; r, c: orderings or None"""
    t = gen.matrix(rng, n, 1, rng.choice(["random", "random", "dense", "tri", "arrow", "arrow0", "grid", "lower", "upper", "diag"]), rng.choice([0.3, 0.5, 0.8]), diag=True, dom=-rng.choice([0.7, 1.0]))
    ent = {}
    for i in range(n):
        for p in range(t.rp[i], t.rp[i + 1]): ent[(r[i] if r else i, c[t.ci[p]] if c else t.ci[p])] = t.v[p]
    rp, ci = gen.csr(set(ent), n)
    return gen.M(n, 1, rp, ci, [ent[(i, ci[p])] for i in range(n) for p in range(rp[i], rp[i + 1])])

def perm(rng, n): o = list(range(n)); rng.shuffle(o); return o

def history(ck, rng, tf, ta):
    n = rng.choice([1, 2, 3, 3, 4, 5, 6, 8])
    kind = rng.choice(["both", "both", "same", "row", "col", "row", "col"])
    r = perm(rng, n) if kind != "col" else None
    c = (r if kind == "same" else perm(rng, n)) if kind != "row" else None
    ck.count("orderings_" + kind)
    m = matrix(rng, n, r, c)
    # enough sweeps for the iterations to end exactly
    nb, na = 2 * n + 1 if tf else 1, n + 1 if ta else 1
    fi = rng.randrange(3)
    s = [m.toks(), [nb + rng.randrange(2), na + rng.randrange(2), rng.choice([1, 2, 8]), fi, rng.randrange(2)]]
    ops = []
    def compute(hr, hc): ops.append(("compute", [hr, r if hr else [], hc, c if hc else []], {"hr": hr, "r": r if hr else [], "hc": hc, "c": c if hc else []}))
    def apply():
        b, z = gen.vec(rng, n), gen.vec(rng, n)
        ops.append(("apply", [b, z], {"b": [fv([x]) for x in b]}))
    compute(int(r is not None), int(c is not None)); apply()
    for _ in range(rng.choice([0, 1, 2, 4])):
        k = rng.randrange(6)
        if k == 0: apply(); ck.count("applied_again")
        elif k == 1:         # new values in the same places
            f = rng.choice([0.5, 2.0, 4.0]); v = [x * f for x in m.v]; e = rng.randrange(len(v)); v[e] *= 1.25
            ops.append(("vals", [v], {"a": [fv([x]) for x in v]}))
            if rng.random() < 0.4: apply(); ck.count("applied_before_computing")
            compute(int(r is not None), int(c is not None)); apply(); ck.count("new_values")
        elif k == 2: compute(0, 0); apply(); ck.count("ordering_kept")
        elif k <= 3 or k == 5:     # another ordering: the re-ordered matrix, re-ordered symmetrically (its structure changes, its diagonal does not)
            q = perm(rng, n); r, c = [(r or range(n))[x] for x in q], [(c or range(n))[x] for x in q]
            compute(1, 1); apply(); ck.count("new_ordering")
        else: ops.append(("relax", [], {})); apply()
    return m, s, ops

def run(ck):
    rng = ck.rng
    asan, shim = ck.build(("asan", "h_rilu.cpp", []), ("shim", "h_rilu.cpp", []))
    jobs = {asan: {}, shim: {}}; info = {}
    for q in range(ck.scale(500, 4000)):
        exe = shim if q % 2 else asan
        tf, ta = rng.choice([(1, 1), (1, 1), (1, 0), (0, 1), (0, 0)])
        m, (mt, (nb, na, chunk, fi, ai)), ops = history(ck, rng, tf, ta)
        # with preemption, or real threads, a thread may fall so far behind that the iterations have not ended: such results are not judged
        # (a part that must be serial is not disturbed by the schedule)
        sc = gen.schedule(rng, pol=rng.choice([1, 1, 2, 4])) if exe == shim else [rng.choice([2, 4]), 0, 0, 1, []]
        pa = sc[1]; raced = exe != shim or rng.random() < 0.3
        if not raced: sc[1], pa = (0 if tf else sc[1]), (0 if ta else pa)
        if not tf and not ta and rng.random() < 0.5: sc = [1, 0, 0, 1, []]; tf = ta = 1
        cid = ck.newid(); info[cid] = (m, ops, int(sc[0] == 1 or not (tf or ta) or not raced)); ck.count("raced", 1 - info[cid][2]); ck.count("%s_factor_%s_apply" % (("threaded" if tf and sc[0] > 1 else "serial"), "threaded" if ta and sc[0] > 1 else "serial"))
        jobs[exe][cid] = " ".join(fmt(t) for t in sc + [pa] + mt + [nb, na, chunk, fi, ai, tf, ta] + [x for op, toks, _ in ops for x in [op] + toks])
    cases = []
    for exe in (asan, shim):
        for cid, r in ck.run_harness(exe, jobs[exe]).items():
            m, ops, exact = info[cid]; lines = []; cr = crashed(r)
            for st, (op, _, f) in enumerate(ops, 1):
                f = dict(f, op=op, exact=exact); seen = "intact%d" % st in r; one = lambda k: (r.get(k + str(st)) or [0])[0]
                last = st == len(ops)
                f.update(crash=(cr or (0 if "end" in r else 1)) if (not seen or last) else 0, intact=one("intact"), calls=one("calls"), same=one("same"), threw=one("threw"), z=blocks(r.get("z%d" % st, []), 1))
                if st == 1: f["m"] = m.tla()
                lines.append(f)
                if not seen: break
            cases.append((cid, lines))
    ck.trace("T_ReorderedIlu", cases)
    ck.mc("MC_ReorderedIlu", workers=8); ck.mc("MC_ReorderedIlu", "MC_ReorderedIlu_3.cfg", workers=8)
    if ck.thorough: ck.mc("MC_ReorderedIlu", "MC_ReorderedIlu_big.cfg", workers=8)
    ck.assume += ["re-ordered matrices with positive, roughly dominant stored diagonal", "with several threads: enough sweeps that the iterations have ended", "results up to 1e-9 relative"]
    return ck.finish(sample=["case %d: n %d %s" % (c, info[c][0].n, " ".join(o[0] for o in info[c][1])) for c in list(info)[:4]])
