from vlib import *
import gen, re
CREATE = {"null", "alloc", "wrap", "own", "share", "move", "const", "mnull", "bnull", "bstruct", "mwrap", "cwrap", "bwrap", "vwrap", "mtake", "braw",
          "mmove", "mconst", "mshare", "bshare", "bsr", "view", "bcopy", "low", "upp", "solver"}
PAT = [(3, [0, 2, 5, 7], [0, 1, 0, 1, 2, 1, 2], [0, 3, 6]), (2, [0, 2, 4], [0, 1, 0, 1], [0, 3]), (1, [0, 1], [0], [0])]
def val(q, i): return (i * 5 + q) % 9 + 1
def toks(bs):
    t = [bs, len(PAT)]
    for q, (n, rp, ci, di) in enumerate(PAT, 1): t += [n, rp, ci, [float(val(q, i)) for i in range(1, rp[n] * bs * bs + 1)], di]
    return t

def parse(out):
    hs = []
    for x in re.findall(r'<< *"HIST",(.*?>>) *>> *>>', " ".join(out.split())):
        hs.append([(op, [int(v) for v in re.findall(r'-?\d+', a)]) for op, a in re.findall(r'<<"(\w+)"((?:, *-?\d+)*) *>>', x)])
    return [h for h in hs if h]

def thin(hs, rng, want):
    """histories that share all but the last call: one of them"""
    d = {}
    hs.sort(key=str); rng.shuffle(hs)
    for h in hs: d.setdefault(str(h[:-1]), h)
    return list(d.values())[:want]

def close(h):
    """the end of a session: every object goes, in turn"""
    live = []
    for op, a in h:
        if op in CREATE: live.append(a[0])
        elif op == "del": live.remove(a[0])
    return live

def observe(h, bs, r):
    out = []; c = crashed(r)
    for st, (op, a) in enumerate(h, 1):
        seen = "new%d" % st in r
        e = {"op": op, "a": a + [0] * (4 - len(a)), "bs": bs, "crash": c if not seen else 0, "nnew": r.get("new%d" % st, [0])[0], "freed": r.get("free%d" % st, []), "objs": []}
        for k in range(1, 6):
            suf = "%d_%d" % (k, st); kind = r.get("k" + suf)
            if kind is None: e["objs"].append([]); continue
            hs = []
            for q in range(1, 6):
                t = "%s_%d" % (suf, q)
                if "n" + t in r: hs.append({"n": r["n" + t][0], "b": r.get("b" + t, [0])[0], "o": r.get("o" + t, [0])[0], "v": r.get("v" + t, [])})
            e["objs"].append([{"kind": kind, "h": hs, "c": r.get("c" + suf, [0, 0, 0])}])
        out.append(e)
        if not seen: break
    return out

def run(ck):
    rng = ck.rng
    asan, = ck.build(("asan", "h_storage.cpp", []))
    hs = []
    def simulate(level, num, want, depth, bs):
        rc, out = tlc("MC_Storage", "StorageHist_%s.cfg" % level, extra=["-simulate", "num=%d" % num, "-depth", str(depth + 2), "-seed", str(rng.randrange(1 << 30))],
                      consts={"Depth": depth, "EmitAt": depth, "BS": bs, "Solvers": "TRUE" if bs == 1 else "FALSE"})
        got = thin(parse(out), rng, want)
        if not got: raise ToolError("no histories\n" + out[-1500:])
        for h in got: hs.append((bs, h))
        ck.count("random_%s_bs%d" % (level, bs), len(got))
    simulate("array", ck.scale(250, 2500), ck.scale(250, 2500), 16, 1)
    simulate("array", ck.scale(60, 600), ck.scale(60, 600), 30, 1)
    for bs, w in ((1, 200), (3, 120), (7, 50)): simulate("matrix", ck.scale(w, 10 * w), ck.scale(w, 10 * w), 14, bs)
    simulate("matrix", ck.scale(60, 600), ck.scale(60, 600), 24, 1)
    # all short ones
    for level, depth in (("array", 4), ("matrix", 4)):
        rc, out = tlc("MC_Storage", "StorageHist_%s.cfg" % level, consts={"Depth": depth, "EmitAt": depth, "Slot": "{1, 2, 3}"}, workers=1)
        ck.states += tlc_stats(out)[1]; ck.trans += tlc_stats(out)[0]
        got = parse(out); ck.cov["depth4_%s_total" % level] = len(got)
        got.sort(key=str); rng.shuffle(got)
        for h in got[:ck.scale(500, 6000)]: hs.append((1, h))
        ck.count("short_" + level, min(len(got), ck.scale(500, 6000)))
    jobs, meta = {}, {}
    for bs, h in hs:
        live = close(h); rng.shuffle(live)
        h = h + [("del", [k]) for k in live]
        cid = ck.newid(); meta[cid] = (bs, h)
        jobs[cid] = " ".join(fmt(t) for t in toks(bs) + [x for op, a in h for x in (op, a)])
        ck.count("operations", len(h))
    cases = [(cid, observe(meta[cid][1], meta[cid][0], r)) for cid, r in ck.run_harness(asan, jobs).items()]
    ck.trace("T_Storage", cases)
    for lev in ("array", "matrix"): ck.mc("MC_Storage", "MC_Storage_%s.cfg" % lev, workers=8, consts={"Depth": {"array": 7, "matrix": 6}[lev]} if ck.thorough else {"Depth": 5})
    ck.assume += ["allocations go through the C allocator (observed with the address sanitizer's hooks)", "element contents observed for int arrays and small-integer doubles"]
    return ck.finish(sample=["case %d: %s" % (c, " ".join(op + str(a) for op, a in meta[c][1])[:150]) for c in list(meta)[:4]])
