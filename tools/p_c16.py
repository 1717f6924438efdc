from vlib import *
import gen

W = ["whole", "lower", "upper"]

def run(ck):
    rng = ck.rng
    asan, shim = ck.build(("asan", "h_sai.cpp", []), ("shim", "h_sai.cpp", []))
    jobs = {asan: {}, shim: {}}; info = {}
    def matrix(bs, dom=None):
        n = rng.choice([1, 2, 3, 4, 5, 7, 10] if bs == 1 else [1, 2, 3, 4, 6] if bs <= 3 else [1, 2, 3, 4])
        return gen.matrix(rng, n, bs, rng.choice(gen.KINDS), rng.choice([0.15, 0.4, 0.7]), diag=True, sym=rng.random() < 0.3, dom=dom)
    def add(exe, m, rm, op, toks, f, sched=None):
        cid = ck.newid()
        jobs[exe][cid] = " ".join(fmt(t) for t in (sched or [rng.choice([1, 2, 4]), 0, 0, 1, []]) + m.toks() + [rm, op] + toks)
        info[cid] = (m, dict(f, op=op))
    for _ in range(ck.scale(160, 2000)):
        m = matrix(rng.choice([1, 1, 2, 3, 4, 5])); w = rng.choice([1, 2]); form = rng.randrange(2)
        add(asan, m, rng.randrange(2), "view", [w, form], {"w": W[w]}); ck.count(W[w] + ("_storage" if form else "_raw"))
    for _ in range(ck.scale(40, 400)):
        add(asan, matrix(rng.choice([1, 4, 5])), rng.randrange(2), "copy", [], {}); ck.count("copies")
    for q in range(ck.scale(260, 3000)):
        bs = rng.choice([1, 1, 1, 4, 4, 3]); w = rng.choice([0, 0, 1, 2]); inc = rng.randrange(2); rm = rng.randrange(2) if bs == 3 else int(bs == 1)
        # the local systems of the incomplete inverse must be regular
        m = matrix(bs, dom=rng.choice([1, 1.5, 3, -1.5]) if inc or rng.random() < 0.5 else None)
        if not inc and rng.random() < 0.3:      # least squares without full rank
            cand = [i for i in range(m.n) if sum(w == 0 or (j <= i if w == 1 else j >= i) for j in m.ci[m.rp[i]:m.rp[i + 1]]) > 1]
            i = rng.choice(cand) if cand else 0         # not with every coefficient of a local system zero
            if cand:
              for p in range(m.rp[i] * bs * bs, m.rp[i + 1] * bs * bs): m.v[p] = 0.0
              ck.count("rank_deficient")
        exe = shim if q % 4 == 0 else asan
        sc = gen.schedule(rng) if exe == shim else [rng.choice([1, 2, 4]), 0, 0, 1, []]
        add(exe, m, rm, "sai", [w, inc, rng.choice([1, 1, 2, 8])], {"w": W[w], "inc": inc}, sc)
        ck.count("%s_%s_bs%d" % ("incomplete" if inc else "leastsquares", W[w], bs))
    cases = []
    for exe in (asan, shim):
        for cid, r in ck.run_harness(exe, jobs[exe]).items():
            m, f = info[cid]; f = dict(f); b2 = m.bs * m.bs
            g = lambda k: r.get(k, []); one = lambda k: (r.get(k) or [-1])[0]
            f.update(m=m.tla(), crash=crashed(r) or (0 if "end" in r else 1), intact=one("intact"))
            if f["op"] == "view": f.update(nb=one("nb"), nnz=one("nnz"), nst=one("nst"), rb=g("rb"), re=g("re"), shared=int(one("shared") == 1 and "rawbad" not in r), own=one("own"))
            elif f["op"] == "copy": f.update(nb=one("nb"), nnz=one("nnz"), nst=one("nst"), rp=g("rp"), re=g("re"), ci=g("ci"), di=g("di"), a=blocks(g("v"), b2))
            else:
                for k in ("bpos", "browind", "bcolptr", "sairowptr", "nvars", "neqns", "central"): f[k] = g(k)
                f.update(hass=int("s" in r), s=blocks(g("s"), b2))
            cases.append((cid, [f]))
    ck.trace("T_Sai", cases)
    ck.mc("MC_Sai", workers=8)
    if ck.thorough: ck.mc("MC_Sai", "MC_Sai_4.cfg", workers=8)
    ck.assume += ["diagonal entries stored, columns sorted", "no local system whose coefficients are all zero", "row-wise diagonally dominant matrices for the incomplete inverse (regular local systems)",
                  "values computed for block sizes 1 and 4 (by columns), the instantiated ones; patterns for 1, 3, 4", "equations satisfied to 1e-9 relative"]
    return ck.finish(sample=["case %d: %s bs %d n %d" % (c, info[c][1], info[c][0].bs, info[c][0].n) for c in list(info)[:4]])
