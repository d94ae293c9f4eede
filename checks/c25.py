"""C25: kernel printf against the C library's own formatting of each value, per work-item and in program order."""
import ctypes as ct, random, re, struct
import numpy as np
import ocl
from ocl import Ctx, Lib, CLError
from c21 import Capture

PROP = "C25"
RULE = ("kernels with 1-6 printf calls whose formats combine flags, widths, precisions, length modifiers, vector specifiers (2,3,4,8,16), all conversions, strings, escapes and percent signs, with arguments from memory, "
        "literals and expressions, in loops, divergent branches, functions and around barriers, over 1-24 work-items on 1-8 threads, at -O0 and default optimisation; the captured text must be exactly the records "
        "the C library's formatting of the same values gives: each once, whole, in program order within its work-item, and nothing else; printf must return 0; non-trivial = distinct conversion specification")
ASSUMPTIONS = ["calls of printf by different work-items are not interleaved within one call", "%p prints the address as the C library does", "vector specifiers without a length modifier are only used for int, uint and float elements"]
VARIANT = "rel"
CASE_TIMEOUT = 60
NPT = dict(char=np.int8, uchar=np.uint8, short=np.int16, ushort=np.uint16, int=np.int32, uint=np.uint32, long=np.int64, ulong=np.uint64, float=np.float32, double=np.float64)
libc = ct.CDLL(None)
INT = ["char", "uchar", "short", "ushort", "int", "uint", "long", "ulong"]


def cases(rng, tier):
    return [dict(seed=rng.randrange(1 << 30)) for _ in range(700 if tier == "quick" else 15000)]


class W:
    pass


def setup_worker(env):
    w = W()
    w.env, w.wd = env, env["wd"]
    w.L = Lib(env["build"])
    w.L.err = ct.c_int32()
    return w


def cfmt(spec, val):
    """what C prints for one value; spec is a C conversion specification"""
    c = spec[-1]
    if c in "fFeEgGaA":
        a = ct.c_double(float(val))
    elif c == "s":
        a = ct.c_char_p(val)
    elif c == "p":
        a = ct.c_void_p(int(val))
    elif "l" in spec:
        a = ct.c_int64(int(val) & 0xFFFFFFFFFFFFFFFF)
    else:
        a = ct.c_int32(int(val) & 0xFFFFFFFF)
    n = libc.snprintf(None, 0, ct.c_char_p(spec.encode()), a)
    b = ct.create_string_buffer(n + 1)
    libc.snprintf(b, n + 1, ct.c_char_p(spec.encode()), a)
    return b.raw[:n]


def values(r, t, n):
    if t in ("float", "double"):
        pool = [0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 2.5, 1e10, 1e-10, 123456.789, -99.995, 9.9999995, 1e30, 3e-39, float("inf"), float("-inf"), 0.1, 16777216.0, 1e-5, 1e-4, 123456789.0]
        if t == "double":
            pool += [1e300, 5e-324, 0.30000000000000004, 1e15, 123456789012345678.0]
        return np.array([r.choice(pool) if r.random() < .5 else r.uniform(-1000, 1000) * 10.0 ** r.randint(-8, 8) for _ in range(n)]).astype(NPT[t])
    bits = NPT[t](0).itemsize * 8
    lo, hi = (0, (1 << bits) - 1) if t[0] == "u" else (-(1 << bits - 1), (1 << bits - 1) - 1)
    pool = [0, 1, 2, 7, 8, 9, 10, 99, 100, lo, hi, lo + 1, hi - 1, hi // 2, -1, -5, 65, 255, 256, 65535, 65536]
    return np.array([r.choice([x for x in pool if lo <= x <= hi]) if r.random() < .6 else r.randint(lo, hi) for _ in range(n)], dtype=NPT[t])


def lit(t, x):
    if t in ("float", "double"):
        x = float(x)
        if x != x or x in (float("inf"), float("-inf")):
            return ("-" if x < 0 else "") + "INFINITY" if t == "float" else "(double)(%sINFINITY)" % ("-" if x < 0 else "")
        return x.hex() + ("f" if t == "float" else "")
    x = int(x)
    if t == "long":
        return "(-9223372036854775807L-1)" if x == -(1 << 63) else "%dL" % x
    if t == "ulong":
        return "%dUL" % x
    if t == "int":
        return "(-2147483647-1)" if x == -(1 << 31) else str(x)
    if t == "uint":
        return "%du" % x
    return "(%s)%d" % (t, x)


def flags(r, conv):
    f = ""
    for ch in "-+ #0":
        if r.random() < .2:
            if ch == "#" and conv in "diucsp" or ch in "+ " and conv in "ouxXcsp" or ch == "0" and conv in "csp":
                continue
            f += ch
    f = "".join(r.sample(f, len(f)))
    wd = str(r.choice([1, 2, 3, 5, 8, 12, 20, 40])) if r.random() < .45 else ""
    pr = ""
    if r.random() < .45 and conv not in "cp":
        pr = "." + r.choice(["", "0", "1", "2", "3", "5", "9", "15"])
    return f + wd + pr


TEXT = ["", " ", "x", ": ", ",", "%%", "%%d ", "100%% ", "\\t", "\\n", "\\\\", "\\\"", "'", "\\x41", "a b c", "=", "\\n\\n", "long text " * 9, "v4", "%%%%", "{}", "|", "\\0607"]
PLAIN = {"%%": "%", "%%d ": "%d ", "100%% ": "100% ", "\\t": "\t", "\\n": "\n", "\\\\": "\\", "\\\"": "\"", "\\x41": "A", "\\n\\n": "\n\n", "%%%%": "%%", "\\0607": "07"}


class Call:
    """one printf call: format text, argument expressions and the text for a work-item and loop count"""

    def __init__(self, r, n, first, generic):
        self.parts, self.args, self.nt, self.bufs = [], [], [], []
        for _ in range(r.choice([0, 1, 1, 2, 3, 4, 9])):
            self.parts.append(("t", r.choice(TEXT)))
            if r.random() < .12:
                s = r.choice(["", "a", "hello", "with space", "%d%s", "p\\ttab", "caf\\xc3\\xa9", "x" * 300, "\\\"q\\\""])
                sp = "%" + flags(r, "s") + "s"
                raw = s.replace("\\t", "\t").replace("\\\"", "\"").encode("latin1") if "\\x" not in s else "café".encode()
                self.parts.append(("a", sp, sp, lambda i, j, raw=raw: [raw]))
                # string arguments have to be literals, or constant arrays
                self.args.append('"%s"' % s)
                self.nt.append("s" + sp[1:-1])
                continue
            if r.random() < .06:
                x = r.choice([0, 1, 0x1234, 0xdeadbeef, 0x7fffffffffff, r.getrandbits(47)])
                sp = "%" + flags(r, "p") + "p"
                self.parts.append(("a", sp, sp, lambda i, j, x=x: [x]))
                self.args.append("(%s *)(ulong)%dUL" % (r.choice(["global int", "constant char", "local float4"]), x))
                self.nt.append("p")
                continue
            t = r.choice(INT + ["float", "float", "double"])
            vec = r.choice([1, 1, 1, 2, 3, 4, 8, 16])
            fp = t in ("float", "double")
            conv = r.choice("fFeEgGaA") if fp else r.choice("di" if t[0] != "u" else "ouxX") if r.random() < .8 else r.choice("diouxX")
            sz = NPT[t](0).itemsize
            if fp:
                lm = "" if vec == 1 else "l" if t == "double" else r.choice(["hl", "hl", ""])
                if vec == 1 and r.random() < .3:
                    lm = "l"
                clm = ""
            elif vec == 1:
                if sz == 8:
                    lm = "l"
                else:
                    lm = r.choice(["", "", {1: "hh", 2: "h", 4: ""}[sz], "hh", "h"])
                clm = lm
                if sz < 4 and r.random() < .1 and not fp:
                    conv, lm, clm = "c", "", ""
            else:
                lm = {1: "hh", 2: "h", 4: "hl", 8: "l"}[sz]
                if sz == 4 and r.random() < .3:
                    lm = ""
                clm = lm.replace("hl", "")
            fl = flags(r, conv)
            spec = "%" + fl + ("v%d" % vec if vec > 1 else "") + lm + conv
            cspec = "%" + fl + clm + conv
            vals = values(r, t, (n + 3) * vec).reshape(n + 3, vec)
            if conv == "c":
                vals = (vals & 0x3F) + 48
            how = r.choice(["mem", "mem", "mem", "lit", "expr"])
            if generic and vec > 1:         # vload takes generic pointers there, which the simulator does not support
                how = "lit"
            T = t + (str(vec) if vec > 1 else "")
            b = len(self.bufs)
            if how == "lit":
                vals[:] = vals[0]
                e = "(%s)(%s)" % (T, ", ".join(lit(t, x) for x in vals[0])) if vec > 1 else lit(t, vals[0][0])
            else:
                name = "b%d_%d" % (first, b)
                self.bufs.append((name, t, vals))
                e = "vload%d(i + j, %s)" % (vec, name) if vec > 1 else "%s[i + j]" % name
                if how == "expr" and vec == 1 and not fp:
                    e = "%s[i + j] ^ (%s)3" % (name, t)
                    vals = vals ^ NPT[t](3)
                elif how == "expr" and vec > 1:
                    e = "(" + e + ").%s" % ("s" + "0123456789abcdef"[:vec][::-1])
                    vals = vals[:, ::-1]
            self.args.append(e)
            self.parts.append(("a", spec, cspec, lambda i, j, vals=vals: list(vals[i + j])))
            self.nt.append(spec[1:])
        self.parts.append(("t", r.choice(TEXT)))

    def fmt(self):
        return "".join(p[1] for p in self.parts)

    def text(self, i, j):
        out = b""
        for p in self.parts:
            if p[0] == "t":
                out += PLAIN.get(p[1], p[1]).encode()
            else:
                out += b",".join(cfmt(p[2], x) for x in p[3](i, j))
        return out


def run_case(w, c):
    L = w.L
    r = random.Random(c["seed"])
    v, nt = [], set()
    opts = r.choice(["", "", "-cl-opt-disable", "-cl-std=CL1.2", "-cl-std=CL2.0", "-cl-std=CL3.0"]) + " -w"
    single = r.random() < .25                 # one work-item: the output is compared as a whole, without marks
    n = 1 if single else r.choice([2, 3, 5, 8, 24])
    ls = r.choice([d for d in range(1, n + 1) if n % d == 0])
    calls, body, funcs, bufs = [], [], [], []
    barrier_ok = True
    for k in range(r.randint(1, 6)):
        cl = Call(r, n, k, "CL2" in opts or "CL3" in opts)
        mask = r.choice([None, None, r.getrandbits(32)])
        loops = r.choice([1, 1, 1, 2, 3])
        shape = r.choice(["plain", "plain", "func", "if", "expr"])
        calls.append((cl, mask, loops))
        bufs += cl.bufs
        nt |= set(cl.nt)
        if single:
            f, a = cl.fmt(), cl.args
        else:
            f, a = "@%d:%d:%d|" + cl.fmt() + "~\\n", ["(int)i", str(k), "j"] + cl.args
        call = 'printf(%s)' % ", ".join(['"%s"' % f.replace("\\x41", '\\x41""')] + a).replace("\\xc3\\xa9", '\\xc3\\xa9""')
        if shape == "func":
            funcs.append("%sint f%d(size_t i, int j%s) { return %s; }" % (r.choice(["", "__attribute__((noinline)) "]), k, "".join(", global const %s *%s" % (t, b) for b, t, _ in cl.bufs), call))
            call = "f%d(i, j%s)" % (k, "".join(", " + b for b, _, _ in cl.bufs))
        st = "ret |= %s;" % call if shape != "plain" else call + ";"
        if loops > 1:
            st = "for (int j = 0; j < %d; j++) { %s }" % (loops, st)
        else:
            st = "{ int j = 0; %s }" % st
        if mask is not None:
            st = "if ((%uu >> (i & 31)) & 1) %s" % (mask, st)
        body.append(st)
        if r.random() < .2:
            body.append("barrier(CLK_LOCAL_MEM_FENCE);")
    src = "\n".join(["#pragma OPENCL EXTENSION cl_khr_fp64 : enable"] + funcs +
                    ["kernel void pf(global int *res%s) {\n  size_t i = get_global_id(0); int ret = 0;\n  %s\n  res[i] = ret;\n}" % ("".join(", global const %s *%s" % (t, b) for b, t, _ in bufs), "\n  ".join(body))])
    th = r.choice([1, 1, 2, 4, 8])
    X = Ctx(L, {"NUM_THREADS": th, **({r.choice(["DATA_RACES", "UNINITIALIZED"]): 1} if r.random() < .1 else {})})
    try:
        try:
            K = X.kernel(X.program(src, opts), "pf")
        except CLError as e:
            return dict(machinery="c25: kernel does not build: %s\n%s" % (str(e)[:700], src))
        res = X.buffer(np.full(n, 77, np.int32))
        X.args(K, res, *[X.buffer(np.ascontiguousarray(d)) for _, _, d in bufs])
        L.mon.mask("log")
        L.mon.clear()
        L.mon.jitter(r.choice([0, 6]) if th > 1 else 0, c["seed"])
        cap = Capture(w)
        try:
            X.launch(K, (n,), (ls,))
        finally:
            cap.end()
            L.mon.jitter(0)
        got = open(cap.path, "rb").read()
        ret = X.read(res, 4 * n, dtype=np.int32)
        logs = [m for t, m in L.mon.logs() if t >= 2]
    finally:
        X.release()
    if logs:
        v.append(("message", "printf produced a message: %s" % logs[0][:300]))
    if ret.any():
        v.append(("return", "printf returned %s instead of 0" % [int(x) for x in ret if x][:3]))

    def expected(i):
        for k, (cl, mask, loops) in enumerate(calls):
            if mask is None or mask >> (i & 31) & 1:
                for j in range(loops):
                    yield k, j, cl.text(i, j)
    nrec = 0
    if single:
        exp = [t for _, _, t in expected(0)]
        nrec = len(exp)
        if got != b"".join(exp):
            p = 0
            for k, j, t in expected(0):
                if got[p:p + len(t)] != t:
                    blame(v, calls[k][0], 0, j, t, got[p:p + len(t) + 8], False)
                    break
                p += len(t)
            else:
                v.append(("extra", "more is printed than the calls define: %r" % got[p:][:100]))
    else:
        per, pos, bad = {}, 0, None
        for m in re.finditer(rb"@(\d+):(\d+):(\d+)\|(.*?)~\n", got, re.S):
            if m.start() != pos:
                bad = got[pos:m.start()]
            pos = m.end()
            per.setdefault(int(m.group(1)), []).append((int(m.group(2)), int(m.group(3)), m.group(4)))
            nrec += 1
        if bad is not None or pos != len(got):
            v.append(("mixed", "text outside of records: %r" % (bad if bad is not None else got[pos:])[:200]))
        for i in range(n):
            exp = list(expected(i))
            g = per.pop(i, [])
            if [x[:2] for x in g] != [x[:2] for x in exp]:
                if sorted(x[:2] for x in g) == sorted(x[:2] for x in exp):
                    v.append(("order", "work-item %d prints calls %s instead of %s" % (i, [x[:2] for x in g], [x[:2] for x in exp])))
                else:
                    v.append(("times", "work-item %d prints calls %s instead of %s" % (i, [x[:2] for x in g][:12], [x[:2] for x in exp][:12])))
                break
            for (k, j, a), (_, _, b) in zip(g, exp):
                if a != b:
                    blame(v, calls[k][0], i, j, b, a, True)
                    break
        if per:
            v.append(("who", "records of work-items that do not exist: %s" % list(per)[:4]))
    return dict(violations=v[:4], nontrivial=sorted(nt), evals=nrec, stats={"records": nrec, "bytes": len(got)}, sample=dict(formats=[cl.fmt()[:60] for cl, _, _ in calls], items=n, threads=th, options=opts))


def blame(v, cl, i, j, exp, got, whole):
    """name the first conversion whose text differs"""
    p = 0
    for part in cl.parts:
        if part[0] == "t":
            t = PLAIN.get(part[1], part[1]).encode()
            if got[p:p + len(t)] != t:
                v.append(("text", "%r in %r prints %r" % (part[1], cl.fmt(), got[p:p + len(t)])))
                return
        else:
            t = b",".join(cfmt(part[2], x) for x in part[3](i, j))
            if got[p:p + len(t)] != t:
                vec = re.search(r"v(\d+)", part[1])
                key = "%%%s%s" % ("v" if vec else "", re.sub(r"^%[-+ #0]*\d*(\.\d*)?(v\d+)?", "", part[1]))
                v.append(("conv:" + key, "%s prints %r instead of %r for %s (format %r)" % (part[1], got[p:p + len(t)][:80], t[:80], [str(x) for x in part[3](i, j)][:16], cl.fmt()[:120])))
                return
        p += len(t)
    v.append(("extra", "%r prints %r instead of %r" % (cl.fmt()[:200], got[:200], exp[:200])))
