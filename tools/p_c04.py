from vlib import *
import gen

def perm(rng, n):
    o = list(range(n))
    k = rng.randrange(4)
    if k == 0 and n > 1: i = rng.randrange(1, n); o = o[i:] + o[:i]         # a cycle
    elif k == 1: o.reverse()
    else: rng.shuffle(o)
    return o

class Sess:
    def __init__(self, rng, m, sched):
        self.rng, self.m, self.lines, self.stack = rng, m, [], []
        self.x0 = gen.vec(rng, m.n * m.bs)
        self.toks = list(sched) + m.toks() + [1, self.x0]
    def t(self, op, toks, **f): self.toks += [op] + toks; f["op"] = op; self.lines.append(f)
    def setord(self, both=None):
        rng, n = self.rng, self.m.n
        hr, hc = both or rng.choice([(1, 1), (1, 1), (1, 0), (0, 1)])
        r, c = perm(rng, n) if hr else [], perm(rng, n) if hc else []
        self.t("setord", [hr, r, hc, c], hr=hr, r=r, hc=hc, c=c)
    def setscale(self):
        rng, n = self.rng, self.m.n
        f = lambda: [rng.choice([0.5, 2.0, -1.0, 1.25, -0.75, 3.0, 0.1]) for _ in range(n)]
        r, c = rng.choice([(1, 1), (1, 1), (1, 0), (0, 1)]); r = f() if r else []; c = f() if c else []
        self.t("setscale", [r, c], r=fv(r), c=fv(c))
    def trace(self, r):
        out = []; c = crashed(r); b = self.m.bs
        for st, f in enumerate(self.lines, 1):
            f = dict(f); g = lambda k: r.get(k + str(st), [])
            seen = "rp%d" % st in r
            f.update(crash=0 if seen else (c or 1), rp=g("rp"), ci=g("ci"), di=g("di"), a=blocks(g("v"), b * b), x=blocks(g("x"), b), isr=(g("isr") or [0])[0], s=fv(g("s")))
            if f["op"] == "comp": f.update(calls=(g("calls") or [0])[0], **{k: g(k) for k in ("srp", "sre", "sci", "sdi", "cnt")}, sa=blocks(g("sv"), b * b))
            if st == 1: f["m0"] = self.m.tla(); f["x0"] = blocks(self.x0, b)
            out.append(f)
            if not seen: break
        return out

def session(ck, rng, bs, sched, long):
    n = rng.choice([1, 2, 3, 4, 5, 7, 10] if bs == 1 else [1, 2, 3, 4, 5] if bs == 4 else [1, 2, 3])
    m = gen.matrix(rng, n, bs, rng.choice(gen.KINDS), rng.choice([0.15, 0.4]), diag=rng.random() < 0.6, order=rng.shuffle if rng.random() < 0.3 else None)
    s = Sess(rng, m, sched)
    if bs != 4 and rng.random() < 0.25: s.t("comp", []); ck.count("computed")
    else: s.setord() if rng.random() < 0.85 else s.setscale()
    if rng.random() < 0.7: s.setscale()
    back = []
    for _ in range(long):
        k = rng.choice(["mord", "mscl", "mrs", "vord", "vord", "vscl", "back", "back", "set"])
        if k == "mrs" and bs == 4: k = "mord"
        if k == "back" and back: op, toks, f = back.pop(); s.t(op, toks, **f); ck.count("undone"); continue
        if k in ("back", "set"):
            if not back and rng.random() < 0.35:
                if bs != 4 and rng.random() < 0.4: s.t("comp", []); ck.count("computed")
                else: (s.setord if rng.random() < 0.6 else s.setscale)()
            continue
        fwd = int(rng.random() < 0.75); row = rng.randrange(2)
        if k[0] == "m": s.t(k, [fwd], fwd=fwd); back.append((k, [1 - fwd], {"fwd": 1 - fwd}))
        else: s.t(k, [fwd, row], fwd=fwd, row=row); back.append((k, [1 - fwd, row], {"fwd": 1 - fwd, "row": row}))
        ck.count(k)
    while back and rng.random() < 0.9: op, toks, f = back.pop(); s.t(op, toks, **f); ck.count("undone")
    return s

def run(ck):
    rng = ck.rng
    asan, shim = ck.build(("asan", "h_reorder.cpp", []), ("shim", "h_reorder.cpp", []))
    jobs = {asan: {}, shim: {}}; sess = {}
    def add(exe, s, what):
        cid = ck.newid(); sess[cid] = s; jobs[exe][cid] = " ".join(fmt(t) for t in s.toks); ck.count(what)
    for bs, want in ((1, 200), (4, 90), (7, 50)):
        for q in range(ck.scale(want, 10 * want)):
            exe = shim if q % 3 == 0 else asan
            sc = gen.schedule(rng) if exe == shim else [rng.choice([1, 1, 2, 4]), 0, 0, 1, []]
            add(exe, session(ck, rng, bs, sc, rng.choice([2, 4, 8])), "sessions_bs%d" % bs)
    for bs, want in ((1, 40), (4, 20), (5, 15)):
        for _ in range(ck.scale(want, 8 * want)):
            n = rng.choice([1, 2, 4, 7] if bs == 1 else [1, 2, 3])
            m = gen.matrix(rng, n, bs, rng.choice(gen.KINDS), 0.3, diag=True, order=rng.shuffle if rng.random() < 0.3 else None)
            for i in range(n):
                for p in range(m.rp[i], m.rp[i + 1]):
                    if m.ci[p] == i:
                        for r in range(bs): m.v[p * bs * bs + r * bs + r] = rng.choice([abs(gen.rnd(rng)), 10.0 ** rng.randrange(-6, 7), 2.0])
            s = Sess(rng, m, [rng.choice([1, 2, 4]), 0, 0, 1, []])
            if bs == 5: s.x0 = []; s.toks = [1, 0, 0, 1, []] + m.toks() + [rng.randrange(2), []]
            s.t("unit", []); add(asan, s, "unit_scalings_bs%d" % bs)
    cases = []
    for exe in (asan, shim):
        for cid, r in ck.run_harness(exe, jobs[exe]).items(): cases.append((cid, sess[cid].trace(r)))
    ck.trace("T_Reorder", cases)
    ck.mc("MC_Reorder", workers=8)
    if ck.thorough: ck.mc("MC_Reorder", "MC_Reorder_3.cfg", workers=8)
    ck.assume += ["scalings up to 1e-9 relative rounding, orderings exactly", "diagonals positive for the symmetric scaling", "block sizes 1, 4, 7 (the instantiated ones), the whole-matrix call 1 and 7"]
    return ck.finish(sample=["case %d: %s" % (c, " ".join(f["op"] for f in sess[c].lines)[:150]) for c in list(sess)[:4]])
