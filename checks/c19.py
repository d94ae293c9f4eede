"""C19: programs from source, compile and link (headers, libraries) and binaries against a model of the modules they are made of."""
import ctypes as ct, os, random, re
import numpy as np
import ocl
from ocl import Ctx, Lib, Local, C, CLError, ptrs, sizes

PROP = "C19"
RULE = ("random sets of 1-4 modules (functions calling across modules, tables, extern and program-scope variables, structures, equally named static functions, kernels with random argument lists and attributes) brought to an "
        "executable by every route: one source in pieces, compile and link in any order with embedded (nested) headers, libraries, binaries of objects, libraries and executables reloaded in the same or another context; "
        "kernel lists, argument metadata, binary types and results must match the model; failing builds (errors, duplicate symbols, damaged binaries) must return an error and a log and leave no kernels; rebuilding replaces "
        "code and initial values; options must have their effect; non-trivial = distinct route and content")
ASSUMPTIONS = ["options that permit but do not require a change of arithmetic may be ignored", "whether a link with an undefined function fails at link time is not checked"]
CASE_TIMEOUT = 90
M32 = 0xFFFFFFFF
S = lambda x: x.encode()


def cases(rng, tier):
    f = 1 if tier == "quick" else 25
    out = [dict(k="route", seed=rng.randrange(1 << 30)) for _ in range(260 * f)]
    out += [dict(k="rebuild", seed=rng.randrange(1 << 30)) for _ in range(120 * f)]
    out += [dict(k="options", seed=rng.randrange(1 << 30)) for _ in range(220 * f)]
    out += [dict(k="broken", seed=rng.randrange(1 << 30)) for _ in range(120 * f)]
    rng.shuffle(out)
    return out


class W:
    pass


def setup_worker(env):
    w = W()
    w.env, w.wd = env, env["wd"]
    w.L = Lib(env["build"])
    w.L.err = ct.c_int32()
    return w


def run_case(w, c):
    return dict(route=route, rebuild=rebuild, options=options, broken=broken)[c["k"]](w, c)


# ---- the API, with error codes instead of exceptions

CBF = ct.CFUNCTYPE(None, ct.c_void_p, ct.c_void_p)


class Calls:
    """build, compile and link with or without callbacks; counts the callbacks"""

    def __init__(self, L, r, v):
        self.L, self.r, self.v, self.seen = L, r, v, []
        self.cb = CBF(lambda p, u: self.seen.append((p, u)))

    def _cb(self):
        self.seen.clear()
        return (self.cb, 0x77) if self.r.random() < .4 else (None, None)

    def _after(self, what, cb, prog, ran):
        want = [(prog, 0x77)] if cb[0] and ran else []
        if self.seen != want and (prog or self.seen):
            self.v.append(("callback:" + what, "%s calls the callback with %s instead of %s" % (what, self.seen, want)))

    def source(self, X, src):
        """the source in one or several pieces, with and without lengths"""
        r, L = self.r, self.L
        b = src.encode()
        cuts = sorted(r.sample(range(1, len(b)), min(r.choice([0, 0, 1, 3]), len(b) - 1))) if len(b) > 2 else []
        pieces = [b[i:j] for i, j in zip([0] + cuts, cuts + [len(b)])]
        if r.random() < .5:
            tails = [r.choice([b"", b"}} garbage @"]) for _ in pieces]
            ln = sizes([len(p) if t or (len(p) and r.random() < .5) else 0 for p, t in zip(pieces, tails)])
            arr = (ct.c_char_p * len(pieces))(*[p + t for p, t in zip(pieces, tails)])
        else:
            ln, arr = None, (ct.c_char_p * len(pieces))(*pieces)
        p = L.clCreateProgramWithSource(X.ctx, len(pieces), arr, ln, ct.byref(L.err))
        X.chk("clCreateProgramWithSource", L.err.value)
        X.objs.append(("clReleaseProgram", p))
        return p

    def build(self, X, p, opts):
        cb = self._cb()
        dev = ptrs([self.L.device]) if self.r.random() < .7 else None
        c = self.L.clBuildProgram(p, 1 if dev else 0, dev, None if opts is None else ct.c_char_p(S(opts)), cb[0], cb[1])
        self._after("clBuildProgram", cb, p, True)
        return c

    def compile(self, X, p, opts, headers=()):
        cb = self._cb()
        hs = ptrs([h for _, h in headers]) if headers else None
        ns = (ct.c_char_p * len(headers))(*[S(n) for n, _ in headers]) if headers else None
        c = self.L.clCompileProgram(p, 1, ptrs([self.L.device]), None if opts is None else ct.c_char_p(S(opts)), len(headers), hs, ns, cb[0], cb[1])
        self._after("clCompileProgram", cb, p, True)
        return c

    def link(self, X, ps, opts):
        cb = self._cb()
        p = self.L.clLinkProgram(X.ctx, 1, ptrs([self.L.device]), None if opts is None else ct.c_char_p(S(opts)), len(ps), ptrs(ps), cb[0], cb[1], ct.byref(self.L.err))
        if p:
            X.objs.append(("clReleaseProgram", p))
            self._after("clLinkProgram", cb, p, True)
        return p, self.L.err.value

    def info(self, p, name):
        L, n = self.L, ct.c_size_t()
        c = L.clGetProgramInfo(p, C[name], 0, None, ct.byref(n))
        if c:
            return c
        b = ct.create_string_buffer(n.value + 1)
        c = L.clGetProgramInfo(p, C[name], n.value, b, None)
        return c or b.raw[:n.value]

    def binfo(self, p, name):
        L, n = self.L, ct.c_size_t()
        c = L.clGetProgramBuildInfo(p, L.device, C[name], 0, None, ct.byref(n))
        if c:
            return c
        b = ct.create_string_buffer(n.value + 1)
        c = L.clGetProgramBuildInfo(p, L.device, C[name], n.value, b, None)
        return c or b.raw[:n.value]

    def log(self, p):
        x = self.binfo(p, "CL_PROGRAM_BUILD_LOG")
        return x[:-1].decode(errors="replace") if isinstance(x, bytes) else ""

    def btype(self, p):
        x = self.binfo(p, "CL_PROGRAM_BINARY_TYPE")
        return int.from_bytes(x, "little") if isinstance(x, bytes) else x

    def binary(self, p):
        n = int.from_bytes(self.info(p, "CL_PROGRAM_BINARY_SIZES"), "little")
        b = (ct.c_ubyte * (n + 32))(*([0xA5] * 32))
        arr = ptrs([ct.addressof(b)])
        c = self.L.clGetProgramInfo(p, C["CL_PROGRAM_BINARIES"], 8, arr, None)
        return bytes(b)[:n] if c == 0 else None

    def load(self, X, data):
        b = (ct.c_ubyte * len(data)).from_buffer_copy(data)
        st = ct.c_int32(77)
        p = self.L.clCreateProgramWithBinary(X.ctx, 1, ptrs([self.L.device]), sizes([len(data)]), ptrs([ct.addressof(b)]), ct.byref(st), ct.byref(self.L.err))
        ct.memset(b, 0xEE, len(data))        # the caller may reuse its memory
        if p:
            X.objs.append(("clReleaseProgram", p))
        return p, self.L.err.value, st.value


def drop(X, p):
    """release an object before its context is"""
    X.objs.remove(("clReleaseProgram", p))
    X.L.clReleaseProgram(p)


# ---- the model

class Model:
    """functions over 32-bit values spread over modules; eval gives what a kernel computes"""

    def __init__(self, r, nmod, defs=()):
        self.r, self.n = r, nmod
        self.cl2 = r.random() < .4
        self.defs = dict(defs)               # macro -> value, set by options
        self.fn = []                         # (module, name, text for unique flag, eval)
        self.kern = []                       # kernels
        self.tabs = [(r.randrange(nmod), "tab%d" % i, [r.getrandbits(32) for _ in range(8)]) for i in range(r.randint(0, 3))]
        self.stat = [[r.getrandbits(32) for _ in range(4)] for _ in range(nmod)]
        self.shift = [r.randrange(1, 31) for _ in range(nmod)]
        self.glob = [(r.randrange(nmod), "glob%d" % i, r.getrandbits(16)) for i in range(r.randint(0, 2))] if self.cl2 else []
        self.mac = {"HM%d" % i: r.getrandbits(20) for i in range(r.randint(0, 3))}     # defined by the header
        self.hdr_fn = r.random() < .5
        self.struct = r.random() < .6
        for i in range(r.randint(1, 6)):
            self.add_fn(i)
        for m in range(nmod):
            for j in range(r.choice([0, 1, 1, 2]) if m else r.choice([1, 1, 2])):
                self.add_kernel(m, "k%s%d_%d" % (r.choice(["", "ern", "_", "K"]), m, j))

    def add_fn(self, i):
        r = self.r
        m = r.randrange(self.n)
        name = "fn%d" % i
        e, f = "x", lambda x, d: x
        for _ in range(r.randint(1, 4)):
            opts = ["lin", "stat", "help", "xor"] + ["tab"] * 2 * bool(self.tabs) + ["call"] * 3 * bool(self.fn) + ["def"] * 2 * bool(self.defs) + ["mac"] * bool(self.mac) + ["struct"] * self.struct + ["hfn"] * self.hdr_fn
            o = r.choice(opts)
            if o == "lin":
                a, b = r.getrandbits(16) | 1, r.getrandbits(32)
                e, f = "(%s * %du + %du)" % (e, a, b), lambda x, d, f=f, a=a, b=b: (f(x, d) * a + b) & M32
            elif o == "xor":
                a = r.getrandbits(32)
                e, f = "(%s ^ 0x%xu)" % (e, a), lambda x, d, f=f, a=a: f(x, d) ^ a
            elif o == "stat":
                t = self.stat[m]
                e, f = "(%s + @T@[x & 3])" % e, lambda x, d, f=f, t=t: (f(x, d) + t[x & 3]) & M32
            elif o == "help":
                s = self.shift[m]
                e, f = "@helper@(%s)" % e, lambda x, d, f=f, s=s: (lambda y: (y << s | y >> (32 - s)) & M32)(f(x, d))
            elif o == "tab":
                _, nm, t = r.choice(self.tabs)
                e, f = "(%s ^ %s[(x >> 3) & 7])" % (e, nm), lambda x, d, f=f, t=t: f(x, d) ^ t[(x >> 3) & 7]
            elif o == "call":
                g = r.choice(self.fn)
                e, f = "%s(%s)" % (g[1], e), lambda x, d, f=f, g=g: g[3](f(x, d), d)
            elif o == "def":
                q = r.choice(sorted(self.defs))
                e, f = "(%s + (uint)(%s))" % (e, q), lambda x, d, f=f, q=q: (f(x, d) + d[q]) & M32
            elif o == "mac":
                q = r.choice(sorted(self.mac))
                e, f = "(%s - %s)" % (e, q), lambda x, d, f=f, q=q: (f(x, d) - self.mac[q]) & M32
            elif o == "struct":
                e, f = "sumS(mkS(%s))" % e, lambda x, d, f=f: (lambda y: (y + (y & 0xFF) * 3 + (y >> 7)) & M32)(f(x, d))
            elif o == "hfn":
                e, f = "HF(%s)" % e, lambda x, d, f=f: (f(x, d) * 5 + 1) & M32
        st = r.choice(["", "", "noinline"])
        self.fn.append((m, name, "%suint %s(uint x) { return %s; }" % ("__attribute__((noinline)) " if st else "", name, e), f))

    def add_kernel(self, m, name):
        r = self.r
        a = [["out", "uint*", "global", "none", 0], ["in", "uint*", "global", "none", 1]]
        extra = []
        for i in range(r.randint(0, 4)):
            t = r.choice(["uint", "uint4", "uchar", "ulong", "const", "local", "img", "smp", "struct" if self.struct else "uint", "float"])
            nm = "a%d_%s" % (i, r.choice(["x", "val", "_y", "Z9"]))
            if t == "const":
                extra.append([nm, "uint*", "constant", "none", r.choice([0, 1])])
            elif t == "local":
                extra.append([nm, "uint*", "local", "none", 0])
            elif t == "img":
                extra.append([nm, "image2d_t", "global", r.choice(["read_only", "write_only"]), 0])
            elif t == "smp":
                extra.append([nm, "sampler_t", "private", "none", 0])
            elif t == "struct":
                extra.append([nm, "S", "private", "none", 0])
            else:
                extra.append([nm, t, "private", "none", 0])
        r.shuffle(extra)
        k = dict(m=m, name=name, args=a + extra, fn=r.choice(self.fn), reqd=r.choice([None, None, (4, 1, 1), (2, 2, 1), (1, 1, 1)]), g=r.choice(self.glob) if self.glob and r.random() < .6 else None,
                 other=None, scr=r.random() < .3, guard=None)
        prev = [x for x in self.kern if x["m"] == m and not x["g"] and not x["scr"] and len(x["args"]) == 2]
        if prev and not k["g"] and r.random() < .5:
            k["other"] = r.choice(prev)
        self.kern.append(k)

    def value(self, k, x, d, extra):
        y = k["fn"][3](x, d)
        for a in k["args"][2:]:
            e = extra[a[0]]
            if a[1] in ("uint", "uchar", "ulong"):
                y = (y + e) & M32
            elif a[1] == "uint4":
                y = (y + e[2]) & M32
            elif a[1] == "S":
                y = (y + e[0] + e[1]) & M32
            elif a[2] == "constant":
                y = (y ^ e[x & 3]) & M32
        return y ^ self.value(k["other"], x, d, {}) if k["other"] else y

    def ktext(self, k):
        q = dict(zip(("global", "constant", "local", "private"), ("global ", "constant ", "local ", "")))
        ps, use = [], ""
        for nm, t, sp, acc, cn in k["args"]:
            if t == "image2d_t":
                ps.append("%s image2d_t %s" % (acc, nm))
            else:
                ps.append("%s%s%s %s" % ("const " if cn and sp != "constant" else "", q[sp], t, nm))
            if t in ("uint", "uchar", "ulong"):
                use += " y += (uint)%s;" % nm
            elif t == "uint4":
                use += " y += %s.z;" % nm
            elif t == "S":
                use += " y += %s.a + %s.b;" % (nm, nm)
            elif sp == "constant":
                use += " y ^= %s[x & 3];" % nm
            elif sp == "local":
                use += " %s[get_local_id(0)] = y; y = %s[get_local_id(0)];" % (nm, nm)
        if k["scr"]:
            use += " local uint scr[64]; uint l = get_local_id(0) + get_local_size(0) * get_local_id(1); scr[l] = y; barrier(CLK_LOCAL_MEM_FENCE); y = scr[l];"
        at = "__attribute__((reqd_work_group_size(%d, %d, %d))) " % k["reqd"] if k["reqd"] else ""
        if k["g"]:
            use += " y += %s; if (i == 0) { %s += 3; }" % (k["g"][1], k["g"][1])
        body = "uint i = get_global_id(0) + get_global_size(0) * get_global_id(1); uint x = in[i]; uint y = %s(x);%s out[i] = y;" % (k["fn"][1], use)
        if k["other"]:                       # kernels may call kernels
            body = body.replace("out[i] = y;", "%s(out, in); out[i] ^= y;" % k["other"]["name"])
        return "%skernel void %s(%s) { %s }" % (at, k["name"], ", ".join(ps), body)

    def header(self):
        """declarations every module needs"""
        h = ["uint %s(uint x);" % f[1] for f in self.fn] + ["extern constant uint %s[8];" % t[1] for t in self.tabs] + ["extern global uint %s;" % g[1] for g in self.glob]
        h += ["#define %s %du" % x for x in sorted(self.mac.items())]
        if self.struct:
            h.append("typedef struct { uint a; uint b; } S;\nstatic inline S mkS(uint y) { S s; s.a = y; s.b = (y & 0xFF) * 3 + (y >> 7); return s; }\nstatic inline uint sumS(S s) { return s.a + s.b; }")
        if self.hdr_fn:
            h.append("static uint HF(uint x) { return x * 5u + 1u; }")
        return "\n".join(h) + "\n"

    def module(self, m, uniq):
        sub = lambda t: t.replace("@T@", "T%d" % m if uniq else "T").replace("@helper@", "helper%d" % m if uniq else "helper")
        o = ["static constant uint @T@[4] = {%s};" % ", ".join("%du" % x for x in self.stat[m]),
             "static uint @helper@(uint y) { return rotate(y, %du); }" % self.shift[m]]
        o += ["constant uint %s[8] = {%s};" % (t[1], ", ".join("%du" % x for x in t[2])) for t in self.tabs if t[0] == m]
        o += ["global uint %s = %du;" % (g[1], g[2]) for g in self.glob if g[0] == m]
        o += [f[2] for f in self.fn if f[0] == m]
        o += [("#ifdef %s\n%s\n#endif" % (k["guard"], self.ktext(k)) if k["guard"] else self.ktext(k)) for k in self.kern if k["m"] == m]
        return sub("\n".join(o) + "\n")


ADDR = dict(zip(("global", "constant", "local", "private"), ("CL_KERNEL_ARG_ADDRESS_GLOBAL", "CL_KERNEL_ARG_ADDRESS_CONSTANT", "CL_KERNEL_ARG_ADDRESS_LOCAL", "CL_KERNEL_ARG_ADDRESS_PRIVATE")))
ACC = dict(none="CL_KERNEL_ARG_ACCESS_NONE", read_only="CL_KERNEL_ARG_ACCESS_READ_ONLY", write_only="CL_KERNEL_ARG_ACCESS_WRITE_ONLY")


def names_ok(Q, X, p, want, what, v):
    nm, nk = Q.info(p, "CL_PROGRAM_KERNEL_NAMES"), Q.info(p, "CL_PROGRAM_NUM_KERNELS")
    if not isinstance(nm, bytes) or not isinstance(nk, bytes):
        v.append(("kernels", "%s: the kernel names cannot be queried (%s, %s)" % (what, nm, nk)))
        return False
    got = nm[:-1].decode().split(";") if len(nm) > 1 else []
    if sorted(got) != sorted(want) or int.from_bytes(nk, "little") != len(want):
        v.append(("kernels", "%s: kernels are %s (%d) instead of %s" % (what, got, int.from_bytes(nk, "little"), want)))
        return False
    return True


def verify(w, Q, X, p, M, d, what, v, state, btype=True):
    """kernel list, metadata and results of an executable"""
    L, r = w.L, Q.r
    ks = [k for k in M.kern if not k["guard"] or k["guard"] in d]
    if btype and Q.btype(p) != C["CL_PROGRAM_BINARY_TYPE_EXECUTABLE"]:
        v.append(("binary type", "%s: binary type is %#x" % (what, Q.btype(p))))
    if not names_ok(Q, X, p, [k["name"] for k in ks], what, v):
        return 0
    n = ct.c_uint32()
    c = L.clCreateKernelsInProgram(p, 0, None, ct.byref(n))
    arr = (ct.c_void_p * (len(ks) + 1))()
    c = c or L.clCreateKernelsInProgram(p, len(ks), arr, None)
    if c or n.value != len(ks):
        v.append(("kernels in program", "%s: clCreateKernelsInProgram gives %d, %d kernels instead of %d" % (what, c, n.value, len(ks))))
        return 0
    by = {}
    for x in arr[:len(ks)]:
        b = ct.create_string_buffer(200)
        L.clGetKernelInfo(x, C["CL_KERNEL_FUNCTION_NAME"], 200, b, None)
        by[b.value.decode()] = x
    ev = 0
    try:
        if set(by) != {k["name"] for k in ks}:
            v.append(("kernels in program", "%s: clCreateKernelsInProgram creates %s" % (what, sorted(by))))
            return 0
        order = list(ks)
        r.shuffle(order)
        for k in order:
            meta(L, by[k["name"]], k, what, v)
            ev += 1 + runk(w, X, r, by[k["name"]], M, k, d, what, v, state)
            if v:
                break
    finally:
        for x in arr[:len(ks)]:
            L.clReleaseKernel(x)
    return ev


def meta(L, K, k, what, v):
    b, n, u = ct.create_string_buffer(300), ct.c_size_t(), ct.c_uint32()
    L.clGetKernelInfo(K, C["CL_KERNEL_NUM_ARGS"], 4, ct.byref(u), None)
    if u.value != len(k["args"]):
        v.append(("num args", "%s: kernel %s has %d arguments instead of %d" % (what, k["name"], u.value, len(k["args"]))))
        return
    for i, (nm, t, sp, acc, cn) in enumerate(k["args"]):
        got = []
        for q in ("NAME", "TYPE_NAME"):
            c = L.clGetKernelArgInfo(K, i, C["CL_KERNEL_ARG_" + q], 300, b, None)
            got.append(b.value.decode() if not c else c)
        for q, sz in (("ADDRESS_QUALIFIER", 4), ("ACCESS_QUALIFIER", 4), ("TYPE_QUALIFIER", 8)):
            x = ct.c_uint64()
            c = L.clGetKernelArgInfo(K, i, C["CL_KERNEL_ARG_" + q], sz, ct.byref(x), None)
            got.append(x.value if not c else -c)
        want = [nm, t, C[ADDR[sp]], C[ACC[acc]], C["CL_KERNEL_ARG_TYPE_CONST"] if cn or sp == "constant" else 0]
        if got != want:
            v.append(("arg info", "%s: argument %d of %s is %s instead of %s" % (what, i, k["name"], got, want)))
            return
    s3 = (ct.c_size_t * 3)()
    L.clGetKernelWorkGroupInfo(K, L.device, C["CL_KERNEL_COMPILE_WORK_GROUP_SIZE"], 24, s3, None)
    if tuple(s3) != (k["reqd"] or (0, 0, 0)):
        v.append(("attributes", "%s: required work-group size of %s is %s instead of %s" % (what, k["name"], tuple(s3), k["reqd"])))


def runk(w, X, r, K, M, k, d, what, v, state):
    L = w.L
    ls = k["reqd"][:2] if k["reqd"] else r.choice([(1, 1), (4, 1), (2, 3), (8, 1)])
    gs = (ls[0] * r.choice([1, 2, 3]), ls[1] * r.choice([1, 2]))
    n = gs[0] * gs[1]
    if k["g"]:
        gs = ls = (ls if k["reqd"] else (1, 1))
        n = gs[0] * gs[1]
        if n > 1:                            # only defined with one work-item: the counter would race
            return 0
    inp = np.array([r.getrandbits(32) for _ in range(n)], np.uint32)
    out = X.buffer(np.full(n, 0x5A5A5A5A, np.uint32))
    args, extra = [], {}
    for nm, t, sp, acc, cn in k["args"][2:]:
        if t == "image2d_t":
            f, ds = ocl.sizes([0]), None
            img = mkimage(L, X)
            args.append(img)
        elif t == "sampler_t":
            s = L.clCreateSampler(X.ctx, 0, C["CL_ADDRESS_NONE"], C["CL_FILTER_NEAREST"], ct.byref(L.err))
            X.objs.append(("clReleaseSampler", s))
            args.append(s)
        elif sp == "local":
            args.append(Local(4 * ls[0] * ls[1]))
        elif sp == "constant":
            extra[nm] = [r.getrandbits(32) for _ in range(4)]
            args.append(X.buffer(np.array(extra[nm], np.uint32)))
        elif t == "S":
            extra[nm] = [r.getrandbits(32), r.getrandbits(32)]
            args.append(np.array(extra[nm], np.uint32))
        elif t == "uint4":
            extra[nm] = [r.getrandbits(32) for _ in range(4)]
            args.append(np.array(extra[nm], np.uint32))
        elif t == "float":
            args.append(np.float32(1.5))
        else:
            extra[nm] = r.getrandbits(dict(uint=32, uchar=8, ulong=64)[t])
            args.append(dict(uint=np.uint32, uchar=np.uint8, ulong=np.uint64)[t](extra[nm]))
        extra.setdefault(nm, 0)
    if any(a[2] == "local" for a in k["args"]) and ls[1] > 1:
        return 0                             # the kernel indexes its local argument by the first dimension only
    L.mon.mask("log")
    L.mon.clear()
    X.args(K, out, X.buffer(inp), *args)
    X.launch(K, gs, ls)
    got = X.read(out, 4 * n, dtype=np.uint32)
    logs = [m for t, m in L.mon.logs() if t >= 2]
    if logs:
        v.append(("message", "%s: kernel %s: %s" % (what, k["name"], logs[0][:300])))
        return 0
    want = [M.value(k, int(x), d, extra) for x in inp]
    if k["g"]:
        g = state.setdefault(k["g"][1], k["g"][2])
        want = [(x + g) & M32 for x in want]
        state[k["g"][1]] = (g + 3) & M32
    if [int(x) for x in got] != want:
        v.append(("result" + (":variable" if k["g"] else ""), "%s: kernel %s computes %s instead of %s (inputs %s, macros %s)" % (what, k["name"], [hex(x) for x in got][:4], [hex(x) for x in want][:4], [hex(x) for x in inp][:4], d)))
    return n


def mkimage(L, X):
    from c17 import FMT, DESC
    f = FMT(C["CL_RGBA"], C["CL_UNORM_INT8"])
    d = DESC()
    d.image_type, d.image_width, d.image_height = C["CL_MEM_OBJECT_IMAGE2D"], 4, 4
    m = L.clCreateImage(X.ctx, 0, ct.byref(f), ct.byref(d), None, ct.byref(L.err))
    X.chk("clCreateImage", L.err.value)
    X.objs.append(("clReleaseMemObject", m))
    return m


def defopts(r, d):
    """spell macro definitions as build options"""
    o = []
    for k, x in sorted(d.items()):
        e = r.choice([str(x) + "u", hex(x) + "u"])
        if r.random() < .3 and x > 9:
            a = r.randrange(1, x)
            sp = r.choice(["", " "])
            e = '"(%du%s+%s%du)"' % (x - a, sp, sp, a) if sp else "(%du+%du)" % (x - a, a)
        form = r.choice(["-D%s=%s", "-D %s=%s", "-D  %s=%s"])
        if e[0] == '"':
            form = r.choice(['-D"%s=%s"', '-D %s="%s"', '-D "%s=%s"'])
            e = e[1:-1]
        if x == 1 and r.random() < .5:
            o.append(r.choice(["-D%s", "-D %s"]) % k)
        else:
            o.append(form % (k, e))
    r.shuffle(o)
    return o


def optstr(r, M, d, extra=()):
    o = defopts(r, d) + (["-cl-std=CL2.0"] if M.cl2 else r.choice([[], [], ["-cl-std=CL1.2"]])) + list(extra) + r.choice([[], [], ["-cl-opt-disable"], ["-O2"], ["-cl-mad-enable"], ["-cl-fast-relaxed-math"], ["-w"], ["-cl-kernel-arg-info"]])
    r.shuffle(o)
    return r.choice(["", "", " "]) + r.choice([" ", "  "]).join(o) + r.choice(["", "", " "])


# ---- cases

def route(w, c):
    L = w.L
    r = random.Random(c["seed"])
    v, nt, ev = [], set(), 0
    d = {n: r.choice([1, r.getrandbits(12), r.getrandbits(30)]) for n in r.sample(["VAL", "X_1", "lower", "Z"], r.randint(0, 2))}
    M = Model(r, r.choice([1, 2, 2, 3, 4]), d)
    env = {"UNINITIALIZED": 1} if r.random() < .1 else {}
    Xs = [Ctx(L, env) for _ in range(r.choice([1, 2]))]
    Q = Calls(L, r, v)
    try:
        X = Xs[0]
        rt = []
        single = r.random() < .25
        if single:
            src = M.header() + "".join(M.module(m, True) for m in range(M.n))
            p = Q.source(X, src)
            o = optstr(r, M, d)
            rc = Q.build(X, p, o)
            rt.append("single")
            if rc:
                return dict(violations=[("build fails", "clBuildProgram(%r) gives %d for a correct program: %s\n%s" % (o, rc, Q.log(p)[:600], src[:1500]))])
            objs = [p]
        else:
            objs = []
            hmode = r.choice(["inline", "header", "nested", "file", "angle"])
            rt.append(hmode)
            for m in range(M.n):
                body = M.module(m, False)
                heads, extra, inc = [], [], ""
                if hmode == "inline":
                    body = M.header() + body
                elif hmode in ("header", "angle"):
                    nm = r.choice(["defs.h", "dir/defs.h", "a b.h", "x.cl"])
                    heads = [(nm, M.header())]
                    inc = '#include "%s"\n' % nm if hmode == "header" else "#include <%s>\n" % nm
                elif hmode == "nested":
                    ls = M.header().split("\n")
                    cut = r.randrange(len(ls) + 1) if not M.struct else 0
                    heads = [("outer.h", '#ifndef OUTER\n#define OUTER\n%s\n#include "sub/inner.h"\n#endif\n' % "\n".join(ls[:cut])), ("sub/inner.h", "#ifndef INNER\n#define INNER\n" + "\n".join(ls[cut:]) + "\n#endif\n"), ("unused.h", "#error not to be included\n")]
                    heads.append(("one.h", "#define ONELINE 1"))
                    r.shuffle(heads)
                    inc = '#include "one.h"\n#if ONELINE != 1\n#error ONELINE\n#endif\n' + '#include "outer.h"\n' + r.choice(["", '#include "sub/inner.h"\n', '#include "outer.h"\n'])
                else:
                    dr = w.wd + "/" + r.choice(["inc", "inc dir"])
                    os.makedirs(dr, exist_ok=True)
                    open(dr + "/real.h", "w").write(M.header())
                    extra = [r.choice(["-I%s", "-I %s"]) % (dr if " " not in dr else '"%s"' % dr)]
                    inc = r.choice(['#include "real.h"\n', "#include <real.h>\n"])
                hp = [(nm, Q.source(X, t)) for nm, t in heads]
                p = Q.source(X, inc + body)
                o = optstr(r, M, d, extra)
                rc = Q.compile(X, p, o, hp)
                if rc:
                    return dict(violations=[("compile fails:" + hmode, "clCompileProgram(%r) gives %d for a correct module: %s\n%s" % (o, rc, Q.log(p)[:600], (inc + body)[:1200]))])
                if Q.btype(p) != C["CL_PROGRAM_BINARY_TYPE_COMPILED_OBJECT"]:
                    v.append(("binary type", "binary type of a compiled program is %#x" % Q.btype(p)))
                for _, h in hp:
                    if r.random() < .5:
                        drop(X, h)
                objs.append(p)
            names_left = None
            # objects, some of them through their binary
            for i in range(len(objs)):
                if r.random() < .3:
                    data = Q.binary(objs[i])
                    p, rc, st = Q.load(X, data)
                    if rc or not p or st:
                        v.append(("load", "the binary of a compiled program does not load: %d, %d" % (rc, st)))
                        return dict(violations=v)
                    if Q.btype(p) != C["CL_PROGRAM_BINARY_TYPE_COMPILED_OBJECT"]:
                        v.append(("binary type", "binary type of a reloaded compiled program is %#x" % Q.btype(p)))
                    drop(X, objs[i])
                    objs[i] = p
                    rt.append("objbin")
            r.shuffle(objs)
            # libraries
            while len(objs) > 1 and r.random() < .35:
                n = r.randint(1, len(objs))
                o = r.choice(["-create-library", "-create-library -enable-link-options", " -create-library"])
                p, rc = Q.link(X, objs[:n], o)
                if rc or not p:
                    v.append(("library", "clLinkProgram(%r) of %d modules gives %d" % (o, n, rc)))
                    return dict(violations=v)
                if Q.btype(p) != C["CL_PROGRAM_BINARY_TYPE_LIBRARY"]:
                    v.append(("binary type", "binary type of a library is %#x" % Q.btype(p)))
                rt.append("lib")
                if r.random() < .4:
                    q, rc, st = Q.load(X, Q.binary(p))
                    if rc or not q:
                        v.append(("load", "the binary of a library does not load: %d" % rc))
                        return dict(violations=v)
                    if Q.btype(q) != C["CL_PROGRAM_BINARY_TYPE_LIBRARY"]:
                        v.append(("binary type", "binary type of a reloaded library is %#x" % Q.btype(q)))
                    p = q
                    rt.append("libbin")
                objs = [p] + objs[n:]
                r.shuffle(objs)
            p, rc = Q.link(X, objs, r.choice([None, "", "-cl-fast-relaxed-math", "-cl-denorms-are-zero", "-cl-no-signed-zeros"]))
            if rc or not p:
                v.append(("link fails", "clLinkProgram of %d programs (%s) gives %d" % (len(objs), rt, rc)))
                return dict(violations=v)
            for q in objs:
                if r.random() < .5:
                    drop(X, q)
        what = "+".join(rt)
        ev += verify(w, Q, X, p, M, d, what, v, {})
        # executables through their binary
        for hop in range(r.choice([0, 1, 1, 2])):
            data = Q.binary(p)
            Y = r.choice(Xs)
            q, rc, st = Q.load(Y, data)
            if rc or not q or st:
                v.append(("load", "the binary of an executable does not load: %d, %d" % (rc, st)))
                break
            if Q.btype(q) != (C["CL_PROGRAM_BINARY_TYPE_EXECUTABLE"]):
                v.append(("binary type", "binary type of a reloaded executable is %#x" % Q.btype(q)))
            rc = Q.build(Y, q, r.choice([None, "", "-w"]))
            if rc:
                v.append(("build of binary", "clBuildProgram of a loaded binary gives %d" % rc))
                break
            what += "+bin%d" % Xs.index(Y)
            st = {}
            ev += verify(w, Q, Y, q, M, d, what, v, st)
            if r.random() < .3 and not v:
                ev += verify(w, Q, Y, q, M, d, what + " again", v, st)
            if r.random() < .3 and not v:
                rc = Q.build(Y, q, None)
                if rc:
                    v.append(("build of binary", "the second clBuildProgram of a loaded binary gives %d" % rc))
                    break
                ev += verify(w, Q, Y, q, M, d, what + "+rebuilt", v, {})
            if r.random() < .4:
                drop(X, p)
            X, p = Y, q
        nt.add(what)
        nt |= {"m%d %s %s" % (M.n, "cl2" if M.cl2 else "", x) for x in rt}
    finally:
        for x in Xs:
            x.release()
    return dict(violations=v[:4], nontrivial=sorted(nt), evals=ev, stats={"executables": 1, "kernels": len(M.kern)}, sample=dict(route=what, modules=M.n, kernels=[k["name"] for k in M.kern]))


def no_kernels(Q, X, p, what, v, names):
    """a program whose build failed has no kernels"""
    L = Q.L
    st = Q.binfo(p, "CL_PROGRAM_BUILD_STATUS")
    if not isinstance(st, bytes) or int.from_bytes(st, "little", signed=True) != C["CL_BUILD_ERROR"]:
        v.append(("status", "%s: build status is %s" % (what, st)))
    lg = Q.log(p)
    if not re.search("error", lg):
        v.append(("no log", "%s: build log %r" % (what, lg[:200])))
    for nm in names:
        k = L.clCreateKernel(p, ct.c_char_p(S(nm)), ct.byref(L.err))
        if k or not L.err.value:
            v.append(("kernel of failed build", "%s: kernel %s can still be created" % (what, nm)))
            L.clReleaseKernel(k)
            return
    x = Q.info(p, "CL_PROGRAM_BINARY_SIZES")
    if not isinstance(x, bytes) or any(x):
        v.append(("binary of failed build", "%s: a binary of %s bytes is offered" % (what, x)))
    x = Q.info(p, "CL_PROGRAM_NUM_KERNELS")
    if isinstance(x, bytes) and any(x):
        v.append(("kernel of failed build", "%s: reports %d kernels" % (what, int.from_bytes(x, "little"))))
    n = ct.c_uint32(0)
    if L.clCreateKernelsInProgram(p, 0, None, ct.byref(n)) == 0 and n.value:
        v.append(("kernel of failed build", "%s: clCreateKernelsInProgram finds %d" % (what, n.value)))


def rebuild(w, c):
    """one program object built again and again, with failures in between"""
    L = w.L
    r = random.Random(c["seed"])
    v, nt, ev = [], set(), 0
    names = ["VAL", "OPT"]
    M = Model(r, 1, {n: 1 for n in names})
    for k in M.kern[1:] + [M.kern[0]] * (r.random() < .3):
        if r.random() < .5 and not any(x["other"] is k for x in M.kern):
            k["guard"] = "WITH_%d" % r.randrange(2)
    src = "#ifdef BAD\n#error WRONG_%d\n#endif\n#ifdef BAD2\nkernel void oops(global int *x) { undeclared_thing(x) + ; }\n#endif\n" % r.randrange(99) + M.header() + M.module(0, True)
    X = Ctx(L, {})
    Q = Calls(L, r, v)
    try:
        ps = [Q.source(X, src) for _ in range(r.choice([1, 1, 2]))]
        hist = []
        for step in range(r.randint(2, 5)):
            p = r.choice(ps)
            how = r.choice(["build", "build", "build", "bad", "bad2", "compile"])
            d = {n: r.choice([1, r.getrandbits(30)]) for n in names}
            for g in ("WITH_0", "WITH_1"):
                if r.random() < .5:
                    d[g] = 1
            o = optstr(r, M, d)
            hist.append(how)
            what = "step %d (%s)" % (step, " ".join(hist))
            if how.startswith("bad"):
                o += " -D" + how.upper()
                f = r.choice([Q.build, Q.compile])
                rc = f(X, p, o)
                if rc not in (C["CL_BUILD_PROGRAM_FAILURE"], C["CL_COMPILE_PROGRAM_FAILURE"]):
                    v.append(("bad build", "%s: building a wrong program gives %d" % (what, rc)))
                    break
                if how == "bad" and "WRONG_" not in Q.log(p) or how == "bad2" and "undeclared_thing" not in Q.log(p):
                    v.append(("log", "%s: the build log does not show the error: %r" % (what, Q.log(p)[:300])))
                no_kernels(Q, X, p, what, v, [k["name"] for k in M.kern])
                ev += 1
            else:
                if how == "compile":
                    rc = Q.compile(X, p, o)
                    q = p
                    if not rc:
                        q, rc = Q.link(X, [p], None)
                else:
                    rc = Q.build(X, p, o)
                    q = p
                if rc:
                    v.append(("build fails", "%s: building a correct program with %r gives %d: %s" % (what, o, rc, Q.log(p)[:500])))
                    break
                if how == "build":
                    go = Q.binfo(p, "CL_PROGRAM_BUILD_OPTIONS")
                    if go != S(o) + b"\0":
                        v.append(("options", "%s: build options %r are reported as %r" % (what, o, go)))
                ev += verify(w, Q, X, q, M, d, what, v, {})
            sc = Q.info(p, "CL_PROGRAM_SOURCE")
            if sc != S(src) + b"\0":
                v.append(("source", "%s: the source changed" % what))
            if v:
                break
        nt.add(" ".join(hist))
    finally:
        X.release()
    return dict(violations=v[:4], nontrivial=sorted(nt), evals=ev, stats={"builds": len(hist)}, sample=dict(history=hist))


OPT = r'''
#pragma OPENCL EXTENSION cl_khr_fp64 : enable
#if defined(WARN)
#warning NOTICE_ME
#endif
kernel void o(global int *r, global const float *f) {
  r[0] = __OPENCL_C_VERSION__;
  r[1] = __OPENCL_VERSION__;
#ifdef __FAST_RELAXED_MATH__
  r[2] = 1;
#else
  r[2] = 0;
#endif
#ifdef A
  r[3] = A;
#else
  r[3] = -1;
#endif
#ifdef B
  r[4] = B;
#else
  r[4] = -1;
#endif
  r[5] = sizeof(1.5);
  r[6] = (f[0] * 1.1 == f[0] * 1.1f);
#ifdef __OPTIMIZE__
  r[7] = 1;
#else
  r[7] = 0;
#endif
#ifdef __ENDIAN_LITTLE__
  r[8] = __ENDIAN_LITTLE__;
#endif
#ifdef __IMAGE_SUPPORT__
  r[9] = __IMAGE_SUPPORT__;
#endif
#ifdef STR
  constant char *s = STR; int n = 0; while (s[n]) n++;
  r[10] = n * 1000 + s[0];
#else
  r[10] = -1;
#endif
#ifdef __kernel_exec
#endif
#ifdef cl_khr_fp64
  r[11] = 1;
#else
  r[11] = 0;
#endif
}
'''


def options(w, c):
    L = w.L
    r = random.Random(c["seed"])
    v, nt = [], set()
    X = Ctx(L, {})
    Q = Calls(L, r, v)
    try:
        o, exp = [], {0: 120, 1: 300, 2: 0, 3: -1, 4: -1, 5: 8, 6: 0, 7: None, 8: 1, 9: 1, 10: -1, 11: 1}
        fail, warn, quiet = False, False, False
        for x in r.sample(["std", "fast", "A", "A2", "B", "undef", "single", "noopt", "O", "warn", "warn", "w", "Werror", "unknown", "harmless"], r.randint(1, 5)):
            nt.add(x)
            if x == "std":
                s = r.choice(["1.1", "1.2", "2.0", "3.0", "1.0"])
                o.append(["-cl-std=CL" + s])
                exp[0] = int(s.replace(".", "")) * 10
                nt.add("std" + s)
            elif x == "fast":
                o.append(["-cl-fast-relaxed-math"])
                exp[2] = 1
            elif x in ("A", "A2", "B"):
                val = r.choice([0, 1, 7, 123456])
                o.append(r.choice([["-D%s=%d" % (x[0], val)], ["-D", "%s=%d" % (x[0], val)], ['-D"%s=%d"' % (x[0], val)], ["-D", '"%s = %d"' % (x[0], val)][:0] or ["-D%s=%d" % (x[0], val)], ["-D%s=(%d\\ +\\ %d)" % (x[0], val - 3, 3)]]))
                exp[3 if x[0] == "A" else 4] = val
            elif x == "undef":
                o.append(["-DB=5", "-UB"] if r.random() < .5 else ["-D", "B=5", "-U", "B"])
                exp[4] = -1
            elif x == "single":
                o.append(["-cl-single-precision-constant"])
                exp[5], exp[6] = 4, 1
            elif x == "noopt":
                o.append(["-cl-opt-disable"])
            elif x == "O":
                lv = r.choice("0123s")
                o.append(["-O" + lv])
            elif x == "warn":
                o.append(["-DWARN"])
                warn = True
            elif x == "w":
                o.append(["-w"])
                quiet = True
            elif x == "Werror":
                o.append(["-Werror"])
            elif x == "unknown":
                o.append([r.choice(["-not-an-option", "-cl-nonsense", "--what=1", "-cl-std=CL9.9"])])
                fail = True
            elif x == "harmless":
                o.append([r.choice(["-cl-mad-enable", "-cl-no-signed-zeros", "-cl-denorms-are-zero", "-cl-finite-math-only", "-cl-unsafe-math-optimizations", "-cl-kernel-arg-info", "-cl-strict-aliasing", "-cl-uniform-work-group-size",
                                    "-cl-fp32-correctly-rounded-divide-sqrt"])])
                nt.add(o[-1][0])
        r.shuffle(o)
        flat = [y for x in o for y in x]
        # later options win
        for i, nm in ((3, "A"), (4, "B")):
            cur, j = None, 0
            while j < len(flat):
                t = flat[j]
                if t in ("-D", "-U"):
                    j += 1
                    t += flat[j]
                t = t.replace('"', "")
                if t == "-U" + nm:
                    cur = -1
                elif t.startswith("-D%s=" % nm):
                    cur = eval(t[4:].lstrip("=").replace("\\", ""))
                j += 1
            exp[i] = -1 if cur is None else cur
        if any(t.startswith("-cl-std=CL9") for t in flat) and any(t.startswith("-cl-std=CL") and "9.9" not in t for t in flat):
            return dict(violations=[], nontrivial=[], evals=0)
        if warn and not quiet and "-Werror" in flat:
            fail = True
        os_ = r.choice([" ", "   "]).join(flat)
        p = Q.source(X, OPT)
        rc = Q.build(X, p, os_)
        lg = Q.log(p)
        what = "options %r" % os_
        if fail:
            if not rc:
                v.append(("accepted", "%s: the build succeeds" % what))
            else:
                no_kernels(Q, X, p, what, v, ["o"])
        elif rc:
            v.append(("refused", "%s: clBuildProgram gives %d: %s" % (what, rc, lg[:400])))
        else:
            if (warn and not quiet) != ("NOTICE_ME" in lg):
                v.append(("log", "%s: build log is %r" % (what, lg[:300])))
            K = X.kernel(p, "o")
            b = X.buffer(np.full(12, 99, np.int32))
            X.args(K, b, X.buffer(np.array([3.3], np.float32)))
            X.launch(K, (1,))
            got = X.read(b, 48, dtype=np.int32)
            NM = ["__OPENCL_C_VERSION__", "__OPENCL_VERSION__", "__FAST_RELAXED_MATH__", "A", "B", "sizeof(1.5)", "single precision constants", "__OPTIMIZE__", "__ENDIAN_LITTLE__", "__IMAGE_SUPPORT__", "STR", "cl_khr_fp64"]
            for i, e in exp.items():
                if e is not None and int(got[i]) != e:
                    v.append(("effect:" + NM[i], "%s: %s is %d instead of %d" % (what, NM[i], got[i], e)))
    finally:
        X.release()
    return dict(violations=v[:4], nontrivial=sorted(nt), evals=len(exp), stats={"options": len(flat)}, sample=dict(options=os_))


def broken(w, c):
    """links that must fail and damaged binaries"""
    L = w.L
    r = random.Random(c["seed"])
    v, nt = [], set()
    X = Ctx(L, {})
    Q = Calls(L, r, v)
    try:
        kind = r.choice(["dupkernel", "dupfunc", "dupvar", "random", "truncated", "magic", "notbuilt", "failedobj"])
        nt.add(kind)
        M = Model(r, 2)
        o = "-cl-std=CL2.0" if M.cl2 else ""
        def comp(src):
            p = Q.source(X, src)
            rc = Q.compile(X, p, o)
            if rc:
                raise CLError("compile", rc, Q.log(p) + src[:1000])
            return p
        if kind.startswith("dup"):
            dup = dict(dupkernel="kernel void same(global int *x) { *x = %d; }\n", dupfunc="int same(int x) { return x + %d; }\n", dupvar="constant int same[2] = {%d, 2};\nkernel void use%d(global int *x) { *x = same[get_global_id(0) & 1]; }\n")[kind]
            ps = [comp(M.header() + M.module(m, False) + (dup % ((m,) * dup.count("%d")))) for m in range(2)]
            p, rc = Q.link(X, ps, None)
            if rc != C["CL_LINK_PROGRAM_FAILURE"]:
                v.append(("link:" + kind, "linking two modules that define the same symbol gives %d" % rc))
            # the objects are still good
            ok = [comp(M.header() + M.module(m, False)) for m in range(2)]
            p, rc = Q.link(X, ok, None)
            if rc:
                v.append(("link fails", "clLinkProgram gives %d after a failure" % rc))
            else:
                verify(w, Q, X, p, M, {}, "after " + kind, v, {})
        elif kind == "notbuilt":
            ps = [comp(M.header() + M.module(0, False)), Q.source(X, M.header() + M.module(1, False))]
            p, rc = Q.link(X, ps, None)
            if not rc or p:
                v.append(("link:" + kind, "linking a program that was not compiled gives %d" % rc))
        elif kind == "failedobj":
            q = Q.source(X, M.header() + M.module(1, False) + "#ifdef BAD\nint f( {\n#endif\n")
            Q.compile(X, q, o)
            Q.compile(X, q, o + " -DBAD")
            p, rc = Q.link(X, [comp(M.header() + M.module(0, False)), q], None)
            if not rc or p:
                v.append(("link:" + kind, "linking a program whose compilation failed gives %d" % rc))
            no_kernels(Q, X, q, kind, v, [k["name"] for k in M.kern])
        else:
            ps = [comp(M.header() + M.module(m, False)) for m in range(2)]
            p, rc = Q.link(X, ps, None)
            if rc:
                v.append(("link fails", "clLinkProgram gives %d" % rc))
                return dict(violations=v)
            data = bytearray(Q.binary(p))
            if kind == "random":
                data = bytearray(r.getrandbits(8) for _ in range(r.choice([1, 2, 4, 50, 400])))
            elif kind == "truncated":
                data = data[:r.choice([1, 3, 4, 8, 20, len(data) // 2, len(data) // 2 // 4 * 4, len(data) - 400, r.randrange(1, len(data) - 300)])]
            else:
                data[r.randrange(4)] ^= 1 << r.randrange(8)
            q, rc, st = Q.load(X, bytes(data))
            if rc != C["CL_INVALID_BINARY"] or q or st != C["CL_INVALID_BINARY"]:
                v.append(("bad binary:" + kind, "a %s binary of %d bytes is accepted (code %d, status %d)" % (kind, len(data), rc, st)))
            verify(w, Q, X, p, M, {}, "after a bad binary", v, {})
    finally:
        X.release()
    return dict(violations=v[:4], nontrivial=sorted(nt), evals=2, stats={kind: 1}, sample=dict(kind=kind))
