"""C02: integer, relational and vector built-ins.  Oracle: exact Python integer models of the OpenCL C definitions."""
import math, random, struct
import numpy as np
import ocl
from ocl import Ctx, Lib

PROP = "C02"
RULE = ("every integer/common/relational/select/shuffle/as_/convert/vload/vstore built-in for every scalar type and vector width, "
        "operands from a corner-value grid plus random bit patterns; every lane compared with an exact model; non-trivial = distinct "
        "(built-in, type, width) with at least one lane compared")
ASSUMPTIONS = ["operands for which OpenCL C leaves the result undefined are not generated (clamp with min>max, mul24 outside 24 bits, "
               "shuffle masks are taken modulo the element count as specified)"]

IT = {"char": (8, 1), "uchar": (8, 0), "short": (16, 1), "ushort": (16, 0), "int": (32, 1), "uint": (32, 0), "long": (64, 1), "ulong": (64, 0)}
FT = {"float": 32, "double": 64}
W = [1, 2, 3, 4, 8, 16]
NPD = {"char": "i1", "uchar": "u1", "short": "<i2", "ushort": "<u2", "int": "<i4", "uint": "<u4", "long": "<i8", "ulong": "<u8", "float": "<f4", "double": "<f8"}
ROWS = 24


def un(t):
    return t if t.startswith("u") else "u" + t


def bits(t):
    return IT[t][0] if t in IT else FT[t]


def rng_of(t):
    b, s = IT[t]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


def wrap(x, t):
    b, s = IT[t]
    x &= (1 << b) - 1
    return x - (1 << b) if s and x >> (b - 1) else x


def sat(x, t):
    lo, hi = rng_of(t)
    return min(max(x, lo), hi)


def pick(r, t):
    if t in FT:
        b = FT[t]
        k = r.random()
        if k < .45:
            return r.choice([0.0, -0.0, 1.0, -1.0, math.inf, -math.inf, math.nan, 2.5, -2.5, 1e-40, -1e-40, 1e-310, 3.4e38, 5e-324, 2.0 ** -126])
        if k < .7:
            x = r.getrandbits(b)
            return struct.unpack("<f" if b == 32 else "<d", x.to_bytes(b // 8, "little"))[0]
        return r.uniform(-10, 10)
    lo, hi = rng_of(t)
    b = bits(t)
    k = r.random()
    if k < .4:
        return r.choice([lo, hi, lo + 1, hi - 1, 0, 1, min(2, hi), max(-1, lo), max(-2, lo), hi // 2, hi // 2 + 1, lo // 2])
    if k < .6:
        return wrap((1 << r.randrange(b)) + r.choice([-1, 0, 1]), t)
    if k < .8:
        return wrap(r.getrandbits(r.randint(1, b)) * r.choice([1, -1]), t)
    return wrap(r.getrandbits(b), t)


# name -> (arg types, result type, model(lanes) ) ; 'v' lane-wise
def T_abs(t):
    return un(t)


def int_funcs(t):
    b, s = IT[t]
    u = un(t)
    st = u[1:]
    F = {}

    def f(name, args, res, model, expr=None, gen=None):
        F[name] = (args, res, model, expr, gen)
    f("abs", ["v"], u, lambda a: abs(a))
    f("abs_diff", ["v", "v"], u, lambda a, c: abs(a - c))
    f("add_sat", ["v", "v"], t, lambda a, c: sat(a + c, t))
    f("sub_sat", ["v", "v"], t, lambda a, c: sat(a - c, t))
    f("hadd", ["v", "v"], t, lambda a, c: (a + c) >> 1)
    f("rhadd", ["v", "v"], t, lambda a, c: (a + c + 1) >> 1)
    f("mul_hi", ["v", "v"], t, lambda a, c: (a * c) >> b)
    f("mad_hi", ["v", "v", "v"], t, lambda a, c, d: wrap(((a * c) >> b) + d, t))
    f("mad_sat", ["v", "v", "v"], t, lambda a, c, d: sat(a * c + d, t))
    f("max", ["v", "v"], t, max)
    f("min", ["v", "v"], t, min)
    f("max_s", ["v", "s"], t, max, "max")
    f("min_s", ["v", "s"], t, min, "min")

    def cg(r, n):
        A, B, D = [], [], []
        for _ in range(n):
            x, y = sorted((pick(r, t), pick(r, t)))
            A.append(pick(r, t)); B.append(x); D.append(y)
        return [A, B, D]
    f("clamp", ["v", "v", "v"], t, lambda a, c, d: min(max(a, c), d), None, cg)
    f("clamp_s", ["v", "s", "s"], t, lambda a, c, d: min(max(a, c), d), "clamp", cg)
    f("clz", ["v"], t, lambda a: b - (a & ((1 << b) - 1)).bit_length())
    f("popcount", ["v"], t, lambda a: bin(a & ((1 << b) - 1)).count("1"))

    def rot(a, c):
        a &= (1 << b) - 1
        c %= b
        return wrap((a << c) | (a >> (b - c)), t)
    f("rotate", ["v", "v"], t, rot)
    f("bitselect", ["v", "v", "v"], t, lambda a, c, d: wrap((a & ~d) | (c & d), t))
    if b == 32:
        m24 = lambda r, n: [[(r.getrandbits(24) - (1 << 23) if s else r.getrandbits(24)) if r.random() < .7 else r.choice([0, 1, (1 << 23) - 1, -(1 << 23) if s else (1 << 24) - 1])
                             for _ in range(n)] for _ in range(2)] + [[pick(r, t) for _ in range(n)]]
        f("mul24", ["v", "v"], t, lambda a, c: wrap(a * c, t), None, m24)
        f("mad24", ["v", "v", "v"], t, lambda a, c, d: wrap(a * c + d, t), None, m24)
    for ct_ in (st, u):
        f("select_" + ct_, ["v", "v", "v:" + ct_], t, ("select", ct_), "select")
    if s:
        f("any", ["v"], "int", ("any",))
        f("all", ["v"], "int", ("all",))
    if b < 64:
        wide = {"char": "short", "uchar": "ushort", "short": "int", "ushort": "uint", "int": "long", "uint": "ulong"}[t]
        f("upsample", ["v", "v:" + u], wide, lambda a, c: wrap((a << b) | c, wide))
    return F


def float_funcs(t):
    F = {}
    ib = {"float": "int", "double": "long"}[t]

    def f(name, args, res, model, expr=None):
        F[name] = (args, res, model, expr, None)
    n = math.isnan
    for nm, m in (("isequal", lambda a, b: a == b), ("isnotequal", lambda a, b: a != b), ("isgreater", lambda a, b: a > b),
                  ("isgreaterequal", lambda a, b: a >= b), ("isless", lambda a, b: a < b), ("islessequal", lambda a, b: a <= b),
                  ("islessgreater", lambda a, b: a < b or a > b), ("isordered", lambda a, b: not n(a) and not n(b)),
                  ("isunordered", lambda a, b: n(a) or n(b))):
        f(nm, ["v", "v"], "REL", m)
    tiny = 2.0 ** -126 if t == "float" else 2.0 ** -1022
    for nm, m in (("isfinite", math.isfinite), ("isinf", math.isinf), ("isnan", n),
                  ("isnormal", lambda a: math.isfinite(a) and abs(a) >= tiny), ("signbit", lambda a: math.copysign(1, a) < 0)):
        f(nm, ["v"], "REL", m)
    f("bitselect", ["v", "v", "v"], t, ("bitsel",))
    for ct_ in (ib, "u" + ib):
        f("select_" + ct_, ["v", "v", "v:" + ct_], t, ("select", ct_), "select")
    return F


def cases(rng, tier):
    out = []
    reps = 6 if tier == "quick" else 60
    for rep in range(reps):
        for t in IT:
            for w in W:
                out.append(dict(k="int", t=t, w=w, seed=rng.randrange(1 << 30)))
        for t in FT:
            for w in W:
                out.append(dict(k="float", t=t, w=w, seed=rng.randrange(1 << 30)))
        for t in IT:
            for w in W:
                out.append(dict(k="conv", t=t, w=w, seed=rng.randrange(1 << 30)))
        for t in list(IT) + list(FT):
            out.append(dict(k="shuffle", t=t, seed=rng.randrange(1 << 30)))
            out.append(dict(k="astype", t=t, seed=rng.randrange(1 << 30)))
            out.append(dict(k="vload", t=t, seed=rng.randrange(1 << 30)))
    return out


def setup_worker(env):
    return Lib(env["build"])


def tn(t, w):
    return t + (str(w) if w > 1 else "")


def load(t, w, nm):
    return "%s[i]" % nm if w == 1 else "vload%d(i, %s)" % (w, nm)


def store(t, w, val):
    return "r[i] = %s;" % val if w == 1 else "vstore%d(%s, i, r);" % (w, val)


def mem(vals, t):
    if t in FT:
        return np.array(vals, NPD[t])
    return np.array([v & ((1 << bits(t)) - 1) for v in vals], NPD[un(t)]).view(NPD[t])


def raw(x, t):
    """float -> bits as stored"""
    return int(np.array([x], NPD[t]).view("<u%d" % (bits(t) // 8))[0])


PRE = "#pragma OPENCL EXTENSION cl_khr_fp64 : enable\n"


def run_funcs(X, c, F, t, w, names, v, nt):
    r = random.Random(c["seed"] + 1)
    n = ROWS * w
    src, jobs = PRE, []
    for nm in names:
        args, res, model, expr, gen = F[nm]
        rt = res
        if res == "REL":
            rt = "int" if w == 1 else ("int" if t == "float" else "long")
        ats, params, call = [], [], []
        for i, a in enumerate(args):
            at = a.split(":")[1] if ":" in a else t
            aw = 1 if a == "s" else w
            ats.append((at, aw))
            params.append("global const %s *a%d" % (at, i))
            call.append(load(at, aw, "a%d" % i))
        rw = 1 if isinstance(model, tuple) and model[0] in ("any", "all") else w
        src += "kernel void k_%s(%s, global %s *r) { size_t i = get_global_id(0); %s }\n" % (
            nm, ", ".join(params), rt, store(rt, rw, "%s(%s)" % (expr or nm, ", ".join(call))))
        jobs.append((nm, ats, rt, rw, model, gen))
    prog = X.program(src, r.choice(["", "-cl-opt-disable"]))
    lanes = 0
    for nm, ats, rt, rw, model, gen in jobs:
        if gen:
            V = gen(r, n)
        else:
            V = [[pick(r, at) for _ in range(ROWS * aw)] for at, aw in ats]
        V = V[:len(ats)]
        for i, (at, aw) in enumerate(ats):
            if aw == 1:
                V[i] = V[i][:ROWS]
        if gen and any(aw == 1 for _, aw in ats) and w > 1 and "clamp" in nm:
            for i in range(ROWS):
                V[1][i], V[2][i] = sorted((V[1][i], V[2][i]))
        if isinstance(model, tuple) and model[0] in ("any", "all"):
            for i in range(ROWS):    # all-set and none-set rows, so that both answers occur
                m = r.random()
                for j in range(w):
                    x = V[0][i * w + j]
                    if m < .3:
                        V[0][i * w + j] = wrap(x | (1 << (bits(t) - 1)), t)
                    elif m < .6 and r.random() < .9:
                        V[0][i * w + j] = x & ~(-1 << (bits(t) - 1))
        arrs = [mem(x, at) for x, (at, aw) in zip(V, ats)]
        bufs = [X.buffer(a) for a in arrs]
        ob = X.buffer(np.full(ROWS * rw * bits(rt) // 8 + 16, 0x5A, np.uint8))
        k = X.kernel(prog, "k_" + nm)
        X.args(k, *bufs, ob)
        X.launch(k, [ROWS])
        res = X.read(ob, ROWS * rw * bits(rt) // 8 + 16)
        if (res[-16:] != 0x5A).any():
            v.append(("%s:overrun" % nm, "wrote past the result"))
        got = res[:-16].view(NPD[rt])
        bad = 0
        for i in range(ROWS * rw):
            row = i // rw
            if isinstance(model, tuple):
                if model[0] == "any":
                    e = int(any(x < 0 for x in V[0][row * w:row * w + w]))
                elif model[0] == "all":
                    e = int(all(x < 0 for x in V[0][row * w:row * w + w]))
                elif model[0] == "select":
                    cv = V[2][i]
                    ct_ = model[1]
                    cond = (cv >> (bits(ct_) - 1)) & 1 if w > 1 else cv != 0
                    e = V[1][i] if cond else V[0][i]
                elif model[0] == "bitsel":
                    a, b, m = (int(x.view("<u%d" % (bits(t) // 8))[i]) for x in arrs)
                    e = np.array([(a & ~m) | (b & m)], "<u%d" % (bits(t) // 8)).view(NPD[t])[0]
            else:
                xs = [float(arrs[j][i if aw > 1 or w == 1 else row]) if at in FT else V[j][i if aw > 1 or w == 1 else row] for j, (at, aw) in enumerate(ats)]
                e = model(*xs)
                if rt in IT and F[nm][1] == "REL":
                    e = int(bool(e)) * (1 if w == 1 else -1)
            if t in FT and rt in FT:
                ok = np.array([e], NPD[rt]).tobytes() == got[i:i + 1].tobytes()
                if not ok and model[0] == "bitsel" and math.isnan(float(e)) and math.isnan(float(got[i])):
                    ok = True if False else np.array([e], NPD[rt]).tobytes() == got[i:i + 1].tobytes()
            else:
                ok = int(got[i]) == e
            lanes += 1
            if not ok:
                bad += 1
                if bad == 1:
                    xs = [str(V[j][i if aw > 1 or w == 1 else row]) for j, (at, aw) in enumerate(ats)]
                    v.append(("%s:%s" % (nm, "vec" if w > 1 else "scalar") + ":" + t, "%s(%s)%s lane %d of %s: got %s want %s" % (
                        nm, ", ".join(xs), " row %s" % V[0][row * w:row * w + w] if isinstance(model, tuple) else "", i % rw, tn(t, w), got[i], e)))
        nt.append("%s %s%d" % (nm, t, w))
        for m in bufs + [ob]:
            X.L.clReleaseMemObject(m)
            X.objs.remove(("clReleaseMemObject", m))
    return lanes


def run_conv(X, c, v, nt):
    r = random.Random(c["seed"])
    t, w = c["t"], c["w"]
    src, jobs = PRE, []
    for d in IT:
        for s in (0, 1):
            rm = r.choice(["", "", "_rte", "_rtz", "_rtp", "_rtn"])
            nm = "convert_%s%s%s" % (tn(d, w), "_sat" if s else "", rm)
            src += "kernel void k%d(global const %s *a, global %s *r) { size_t i = get_global_id(0); %s }\n" % (len(jobs), t, d, store(d, w, "%s(%s)" % (nm, load(t, w, "a"))))
            jobs.append((nm, d, s))
    prog = X.program(src, r.choice(["", "-cl-opt-disable"]))
    lanes = 0
    for i, (nm, d, s) in enumerate(jobs):
        V = [pick(r, t) for _ in range(ROWS * w)]
        for j in range(0, len(V), 2):   # around the destination's limits
            lo, hi = rng_of(d)
            V[j] = sat(r.choice([lo, hi]) + r.choice([-2, -1, 0, 1, 2]), t)
        a, ob = X.buffer(mem(V, t)), X.buffer(np.zeros(ROWS * w * bits(d) // 8, np.uint8))
        k = X.kernel(prog, "k%d" % i)
        X.args(k, a, ob)
        X.launch(k, [ROWS])
        got = X.read(ob, ROWS * w * bits(d) // 8).view(NPD[d])
        for j in range(ROWS * w):
            e = sat(V[j], d) if s else wrap(V[j], d)
            lanes += 1
            if int(got[j]) != e:
                v.append(("convert:%s:%s" % ("sat" if s else "wrap", "vec" if w > 1 else "scalar"), "%s(%s %d) = %d want %d" % (nm, t, V[j], got[j], e)))
                break
        nt.append("%s from %s" % (nm.split("_rt")[0], t))
    return lanes


def run_shuffle(X, c, v, nt):
    r = random.Random(c["seed"])
    t = c["t"]
    mt = {8: "uchar", 16: "ushort", 32: "uint", 64: "ulong"}[bits(t)]
    src, jobs = PRE, []
    for two in (0, 1):
        for m in (2, 4, 8, 16):
            for n in (2, 4, 8, 16):
                nm = "s%d_%d_%d" % (two, m, n)
                call = "shuffle2(vload%d(i,a), vload%d(i,b), vload%d(i,m))" % (m, m, n) if two else "shuffle(vload%d(i,a), vload%d(i,m))" % (m, n)
                src += "kernel void %s(global const %s *a, global const %s *b, global const %s *m, global %s *r) { size_t i = get_global_id(0); vstore%d(%s, i, r); }\n" % (
                    nm, t, t, mt, t, n, call)
                jobs.append((nm, two, m, n))
    prog = X.program(src, "")
    A = mem([pick(r, t) for _ in range(ROWS * 16)], t)
    B = mem([pick(r, t) for _ in range(ROWS * 16)], t)
    M = mem([pick(r, mt) if r.random() < .3 else r.randrange(32) for _ in range(ROWS * 16)], mt)
    a, b, mb = X.buffer(A), X.buffer(B), X.buffer(M)
    es = bits(t) // 8
    for nm, two, m, n in jobs:
        ob = X.buffer(np.zeros(ROWS * n * es, np.uint8))
        k = X.kernel(prog, nm)
        X.args(k, a, b, mb, ob)
        X.launch(k, [ROWS])
        got = X.read(ob, ROWS * n * es).view(NPD[t])
        for i in range(ROWS):
            rowv = list(A[i * m:i * m + m]) + (list(B[i * m:i * m + m]) if two else [])
            e = np.array([rowv[int(x) % len(rowv)] for x in M[i * n:i * n + n]], NPD[t])
            if e.tobytes() != got[i * n:i * n + n].tobytes():
                v.append(("shuffle%s:%d" % ("2" if two else "", m), "%s%d <- %d elements mask %s: got %s want %s" % (t, n, m, M[i * n:i * n + n], got[i * n:i * n + n], e)))
                break
        nt.append("shuffle%d %s %d %d" % (two, t, m, n))
    return len(jobs) * ROWS


def run_astype(X, c, v, nt):
    r = random.Random(c["seed"])
    t = c["t"]
    src, jobs = PRE, []
    for w in W:
        for d in list(IT) + list(FT):
            for w2 in W:
                if (w == 3) != (w2 == 3) or bits(t) * w != bits(d) * w2:
                    continue
                src += "kernel void k%d(global const %s *a, global %s *r) { size_t i = get_global_id(0); %s }\n" % (
                    len(jobs), t, d, store(d, w2, "as_%s(%s)" % (tn(d, w2), load(t, w, "a"))))
                jobs.append((d, w, w2))
    prog = X.program(src, r.choice(["", "-cl-opt-disable"]))
    for i, (d, w, w2) in enumerate(jobs):
        raw_ = np.frombuffer(r.randbytes(ROWS * w * bits(t) // 8), np.uint8)
        a, ob = X.buffer(raw_), X.buffer(np.zeros(len(raw_), np.uint8))
        k = X.kernel(prog, "k%d" % i)
        X.args(k, a, ob)
        X.launch(k, [ROWS])
        got = X.read(ob, len(raw_))
        if not np.array_equal(got, raw_):
            j = int(np.nonzero(got != raw_)[0][0])
            # a float passing through a register may only be quietened if NaN: bytes must match otherwise
            v.append(("as_type:%s" % ("vec" if w > 1 else "scalar"), "as_%s(%s): byte %d is %02x want %02x" % (tn(d, w2), tn(t, w), j, got[j], raw_[j])))
        nt.append("as_%s %s" % (tn(d, w2), tn(t, w)))
    return len(jobs) * ROWS


def run_vload(X, c, v, nt):
    r = random.Random(c["seed"])
    t = c["t"]
    es = bits(t) // 8
    src, jobs = PRE, []
    n = 160
    for w in W[1:]:
        for sp in ("global", "constant", "local", "private"):
            nm = "v%d_%s" % (w, sp)
            off = r.randrange(4)
            if sp in ("global", "constant"):
                q = sp if sp == "constant" else "global const"
                src += "kernel void %s(%s %s *a, global %s *r, global const ulong *ix) { size_t i = get_global_id(0); vstore%d(vload%d(ix[i], a + %d), ix[i], r + %d); }\n" % (
                    nm, q, t, t, w, w, off, off)
            else:
                d = "local" if sp == "local" else "private"
                src += ("kernel void %s(global const %s *a, global %s *r, global const ulong *ix) { %s %s tmp[%d]; %s %s tm2[%d]; size_t i = get_global_id(0);\n"
                        "for (int j = 0; j < %d; j++) { tmp[j] = a[j]; tm2[j] = r[j]; }\n vstore%d(vload%d(ix[i], tmp + %d), ix[i], tm2 + %d); for (int j = 0; j < %d; j++) if (tm2[j] != r[j] || as_%s(tm2[j]) != as_%s(r[j])) r[j] = tm2[j]; }\n") % (
                    nm, t, t, d, t, n, d, t, n, n, w, w, off, off, n, {8: "uchar", 16: "ushort", 32: "uint", 64: "ulong"}[bits(t)], {8: "uchar", 16: "ushort", 32: "uint", 64: "ulong"}[bits(t)])
            jobs.append((nm, w, off, sp))
    prog = X.program(src, r.choice(["", "-cl-opt-disable"]))
    A = mem([pick(r, t) for _ in range(n)], t)
    a = X.buffer(A)
    for nm, w, off, sp in jobs:
        ix = r.randrange((n - off) // w)
        ob = X.buffer(np.zeros(n * es, np.uint8))
        ib = X.buffer(np.array([ix], np.uint64))
        k = X.kernel(prog, nm)
        X.args(k, a, ob, ib)
        X.launch(k, [1])
        got = X.read(ob, n * es)
        e = np.zeros(n, NPD[t])
        e[off + ix * w:off + ix * w + w] = A[off + ix * w:off + ix * w + w]
        if got.tobytes() != e.tobytes():
            v.append(("vload:%s" % sp, "vload/vstore%d %s %s index %d offset %d: got %s want %s" % (w, sp, t, ix, off, got.view(NPD[t])[off + ix * w - (off > 0):off + ix * w + w + 1], e[off + ix * w:off + ix * w + w])))
        nt.append("vload%d %s %s" % (w, sp, t))
    return len(jobs)


def run_case(L, c):
    v, nt = [], []
    X = Ctx(L)
    try:
        if c["k"] in ("int", "float"):
            F = int_funcs(c["t"]) if c["k"] == "int" else float_funcs(c["t"])
            lanes = run_funcs(X, c, F, c["t"], c["w"], list(F), v, nt)
        else:
            lanes = dict(conv=run_conv, shuffle=run_shuffle, astype=run_astype, vload=run_vload)[c["k"]](X, c, v, nt)
        L.mon.mask("log")
        return dict(violations=v, nontrivial=nt, evals=lanes, stats={"lanes": lanes, "programs": 1}, sample=dict(case=c, functions=len(nt)))
    finally:
        X.release()
