"""C21: options and files of PETSc programs."""
from vlib import *
import gen
from p_c02 import F, places, BAD, ODD, number

BOOLS = {"true": 1, "yes": 1, "on": 1, "1": 1, "TRUE": 1, "false": 0, "no": 0, "off": 0, "0": 0, "FALSE": 0}
def meaning(text):
    """what a value means as each type"""
    m = {"none": False, "text": text, "chars": [ord(c) for c in text], "int": [], "real": [], "bool": [], "ints": [], "intsok": False}
    isint = lambda s: re.fullmatch(r"[+-]?\d+", s) is not None
    if isint(text): m["int"] = [int(text)]
    if re.fullmatch(r"[+-]?\d+(\.\d*)?([eE][+-]?\d+)?", text): m["real"] = [fl(float(text) + 0.0)]
    if text in BOOLS: m["bool"] = [BOOLS[text]]
    if all(isint(s) for s in text.split(",")): m["ints"] = [int(s) for s in text.split(",")]; m["intsok"] = True
    return m
ALONE = {"none": True, "text": "", "chars": [], "int": [], "real": [], "bool": [], "ints": [], "intsok": False}

NAMES = ["-a", "-ab", "-abc", "-b_c", "-sweeps", "-initialization", "-use_x", "-x_use"]
def text(rng):
    k = rng.randrange(9)
    if k == 0: return str(rng.randrange(-5000, 5000))
    if k == 1: return rng.choice(list(BOOLS))
    if k == 2: return rng.choice(["%.3f", "%.2e", "%.1f"]) % rng.uniform(-1000, 1000)
    if k == 3: return ",".join(str(rng.randrange(-99, 999)) for _ in range(rng.randrange(2, 7)))
    if k == 4: return "".join(rng.choice("abcdefghijklmnoprstuvwxyz_") for _ in range(rng.randrange(1, 25)))
    if k == 5: return rng.choice(["1.5", "2x", "x2", "1e", "yess", "tru", "1,a", "a,1", "--1", "3.4.5", "0x"])
    if k == 6: return str(rng.choice([0, 1, 2, 2147483647, -2147483647]))
    if k == 7: return rng.choice(["init_zero", "init_sgs", "ilu0", "sgs", "level_sgs"])
    return str(rng.randrange(100))

def dense(rng, a, b):
    s = [number(rng, False) for _ in range(a * b)]
    return "%%MatrixMarket matrix array real general\n" + "".join("% note\n" for _ in range(rng.randrange(3))) + "%d %d\n" % (a, b) + "\n".join(s) + "\n", fv([float(x) + 0.0 for x in s])

def petsc_binary(path):
    """what a file in PETSc's format holds"""
    d = open(path, "rb").read(); k, = struct.unpack(">i", d[:4])
    if k == 1211214:
        n, = struct.unpack(">i", d[4:8]); return list(struct.unpack(">%dd" % n, d[8:8 + 8 * n])) if len(d) == 8 + 8 * n else None
    if k != 1211216: return None
    M, N, nz = struct.unpack(">3i", d[4:16])
    if len(d) != 16 + 4 * M + 12 * nz: return None
    rl = struct.unpack(">%di" % M, d[16:16 + 4 * M]); cj = struct.unpack(">%di" % nz, d[16 + 4 * M:16 + 4 * M + 4 * nz]); v = struct.unpack(">%dd" % nz, d[16 + 4 * M + 4 * nz:])
    if sum(rl) != nz: return None
    return M, N, [i for i in range(M) for _ in range(rl[i])], list(cj), list(v)

def conversions(ck, exe, env):
    """whole runs of the conversion program, in a directory of their own"""
    rng = ck.rng; cases = []; todo = []
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1", **env)
    for q in range(ck.scale(24, 200)):
        bs = rng.choice([1, 1, 2, 3, 4, 7]); nb = rng.choice([1, 2, 3, 4]); n = nb * bs; withx = rng.randrange(2); typ = rng.choice(["aij", "baij", ""])
        f = F(rng, n, n, places(rng, n, n, rng.choice(gen.KINDS), rng.choice([0.1, 0.3]), rng.random() < 0.5))
        (bt, b), (xt, x) = dense(rng, n, 1), dense(rng, n, 1)
        d = os.path.join(ck.work, "conv%d" % q); os.makedirs(d)
        for name, t in (("A.mtx", f.text), ("b.mtx", bt), ("x.mtx", xt)): open(os.path.join(d, name), "w").write(t)
        cmd = [exe, "A.mtx", "b.mtx"] + (["-exact_soln", "x.mtx"] if withx else []) + (["-mat_block_size", str(bs)] if bs > 1 or rng.random() < 0.3 else []) + (["-mat_type", typ] if typ else []) + ["-no_signal_handler"]
        cid = ck.newid(); ck.case_of[cid] = (exe, " ".join(cmd[1:])); todo.append((cid, d, cmd, bs, typ, n, f, b, x if withx else []))
    def go(t):
        for attempt in range(4):       # starting MPI can fail when many processes do so at once
            try:
                r = sh(t[2], timeout=60, env=e, cwd=t[1]); rc = r.returncode
                if rc == 0: break
                if os.environ.get("VERIF_DEBUG"): print(t[0], rc, r.stdout[-1500:])
            except subprocess.TimeoutExpired: rc = 124
            time.sleep(0.5)
        return rc
    with ThreadPoolExecutor(JOBS) as ex: rcs = list(ex.map(go, todo))
    for (cid, d, cmd, bs, typ, n, f, b, x), rc in zip(todo, rcs):
        got = {k: (petsc_binary(os.path.join(d, k + ".mtx.pmat")) if os.path.exists(os.path.join(d, k + ".mtx.pmat")) else None) for k in "Abx"}
        A = got["A"] if isinstance(got["A"], tuple) else (0, 0, [], [], [])
        vec = lambda v: fv([t + 0.0 for t in v]) if isinstance(v, list) else []
        lines = [{"op": "set", "crash": 0, "name": "-mat_block_size", "val": meaning(str(bs))}] + ([{"op": "set", "crash": 0, "name": "-mat_type", "val": meaning(typ)}] if typ else [])
        lines.append({"op": "conv", "crash": 0, "r": rc, "faster": 1, "nr": n, "nc": n, "es": [[i, j, fl(v)] for i, j, v in f.es], "h": [A[0], A[1]], "i": A[2], "j": A[3], "v": fv([t + 0.0 for t in A[4]]),
                      "b": vec(got["b"]), "x": vec(got["x"]), "wantb": b, "wantx": x})
        cases.append((cid, lines)); ck.count("conversions")
    return cases

def run(ck):
    rng = ck.rng
    env = {"OMP_NUM_THREADS": "1", "OMPI_MCA_ess_singleton_isolated": "1", "OMPI_MCA_orte_tmpdir_base": ck.work}
    asan, conv = ck.build(("asan", "h_petscio.cpp", [REPO + "/src/utils/cmdoptions.cpp", REPO + "/src/utils/blasted_petsc_io.cpp"]), ("asan", "h_petscconv.cpp", [REPO + "/src/utils/blasted_petsc_io.cpp"]))
    jobs, info = {}, {}
    for q in range(ck.scale(700, 7000)):
        ops = []; db = {}
        def put(n, t):
            ops.append(("set", [n, t.encode().hex() if t else "-"], {"name": n, "val": meaning(t) if t else ALONE})); db[n] = t
        def ask(n):
            k = rng.choice(["has", "int", "bool", "real", "str", "ints", "oints"]); v = db.get(n) or ""
            size = len(v) if k == "str" else len(v.split(","))
            # (what comes after the entries expected is not read, even if malformed)
            l = 20 if k in ("ints", "oints") and v and not meaning(v)["intsok"] else max(1, rng.choice([size, size, size - 1, size + 1, 1, 20])); d = rng.choice([0.0, 1.0, -2.5, 1e-12])
            ops.append((k, [n] + {"real": [d], "str": [l], "ints": [l], "oints": [l]}.get(k, []), {"name": n, "default": fl(d), "len": l})); ck.count("get_" + k)
        def read():
            bs = int(db.get("-mat_block_size") or 1)
            if rng.random() < 0.15: bs = 0
            if bs == 0 or not db.get("-mat_type") or rng.random() < 0.5:
                for n, c in (("-mat_type", ["aij", "baij", "seqaij", "seqbaij", ""]), ("-mat_block_size", ["", "1", "2", "3", "4", "5", "7"])):
                    t = rng.choice(c)
                    if t: put(n, t)
                    elif n in db: ops.append(("clr", [n], {"name": n})); db.pop(n)
                bs = int(db.get("-mat_block_size") or 1)
            faster = rng.randrange(2)
            nb = rng.choice([1, 2, 3, 4]) if bs > 1 else rng.choice([1, 2, 3, 5, 8, 11]); n = nb * bs
            nc = n if faster or bs > 1 or rng.random() < 0.7 else rng.choice([1, 2, 5, 9])
            bp = None
            if bs > 1 and rng.random() < 0.6:
                bp = places(rng, nb, nb, rng.choice(gen.KINDS), rng.choice([0.2, 0.5]), rng.random() < 0.6)
                pl = {(i * bs + r, j * bs + c) for (i, j) in bp for r in range(bs) for c in range(bs) if rng.random() < 0.4}
                for i in range(n):
                    if not any(a == i for a, b in pl): pl.add((i, rng.choice([j for a, j in bp if a == i // bs]) * bs + rng.randrange(bs)))
            else: pl = places(rng, n, nc, rng.choice(gen.KINDS), rng.choice([0.05, 0.2, 0.5]), rng.random() < 0.5)
            h = None
            if rng.random() < 0.06: h = rng.choice(BAD + ODD)
            f = F(rng, n, nc, pl, header=h if h != [] else [""])
            if h is not None: f.header = h; ck.count("headers")
            ops.append(("mat", [f.hex(), faster], {"faster": faster, "header": f.header, "nr": n, "nc": nc, "es": [[i, j, fl(v)] for i, j, v in f.es]}))
            ck.count("read_%s_bs%d_%s" % (db.get("-mat_type") or "default", bs, "faster" if faster else "direct"))
        for _ in range(rng.choice([3, 6, 12])):
            k = rng.randrange(12)
            if k < 4: put(rng.choice(NAMES), rng.choice([text(rng)] * 6 + [""]))
            elif k == 4 and db: n = rng.choice(list(db)); ops.append(("clr", [n], {"name": n})); db.pop(n)
            elif k < 9: ask(rng.choice(NAMES if not db or rng.random() < 0.25 else list(db)))
            elif k == 9: c = rng.choice([0, rng.randrange(-3, 130), 10 ** 6]); ops.append(("err", [c], {"code": c}))
            elif k == 10:
                a, b = rng.randrange(1, 8), rng.randrange(1, 4); t, want = dense(rng, a, b)
                ops.append(("vec", [t.encode().hex(), rng.randrange(2), a * b, rng.choice([a * b, 1, 3, 9, 30])], {"want": want})); ck.count("vectors")
            else: read()
        if not ops: continue
        cid = ck.newid(); info[cid] = ops; jobs[cid] = " ".join(fmt(x) for op, toks, _ in ops for x in [op] + toks)
    cases = []
    for cid, r in ck.run_harness(asan, jobs, env=env).items():
        cr = crashed(r); lines = []
        for st, (op, _, f) in enumerate(info[cid], 1):
            f = dict(f, op=op); seen = "done%d" % st in r; g = lambda k, d: r.get(k + str(st)) or d
            f.update(crash=0 if seen else (cr or 1), r=g("r", [0])[0], leak=g("leak", [0])[0])
            if op in ("has", "int", "bool", "err"): f["v"] = g("v", [0])[0]
            elif op == "real": f["v"] = fl(g("v", [0.0])[0] + 0.0)
            elif op == "str": t = g("v", ["-"]); t = t if isinstance(t, str) else t[0]; f["v"] = [] if t == "-" else list(bytes.fromhex(t))
            elif op in ("ints", "oints"): f["v"] = g("v", [])
            elif op == "vec": f["v"] = fv(g("v", []))
            elif op == "mat": f.update(h=g("h", [0] * 4), i=g("i", []), j=g("j", []), v=fv(g("v", [])))
            lines.append(f)
            if not seen: break
        cases.append((cid, lines))
    cases += conversions(ck, conv, env)
    ck.trace("T_PetscIo", cases)
    ck.mc("MC_PetscIo", workers=8, consts={"MaxEntries": 5} if ck.thorough else {"MaxEntries": 3})
    ck.refuted("MC_PetscIo", consts={"ByRows": "TRUE", "MaxEntries": 2})
    ck.assume += ["every row of a matrix file holds an entry, no place is given twice, and the faster way of reading gets square matrices", "the number of rows is a multiple of the block size asked for", "storage that PETSc itself keeps after refusing a value is not judged"]
    return ck.finish(sample=["case %d: %s" % (c, " ".join(o[0] for o in info[c])) for c in list(info)[:4]])
