"""C20: nothing that a kernel or an API history does makes the simulator itself misbehave: address and undefined-behaviour sanitizers,
process survival, and a well-behaved kernel afterwards that must still compute the right results."""
import ctypes as ct, importlib, json, os, random, re
import numpy as np
import ocl, foreign
from ocl import Ctx, Lib, Local, CLError, C

PROP = "C20"
VARIANT = "asan"
RULE = ("the workloads of all other checks (launches, arithmetic, math, barriers, atomics, invalid accesses, races, uninitialised values, generated kernels, buffer, rectangle, map and image commands, invalid API calls, object "
        "histories, queries, builds, printf) with random analyses and worker threads, and hostile kernels (wild, null, freed and misaligned pointers in every address space and access form, every operator and built-in on extreme "
        "values, divergent barriers, fatal errors, recursion, bad printf formats, extreme image coordinates, hostile dimension queries), under AddressSanitizer and UndefinedBehaviorSanitizer; the process must survive "
        "and a well-behaved kernel afterwards must compute the right results; non-trivial = distinct workload kind and analyses, or hostile statement kind")
ASSUMPTIONS = ["leaks are not counted", "undefined behaviour inside the simulated program is not the simulator's"]
CASE_TIMEOUT = 120
FOREIGN = {"c01": 30, "c02": 70, "c03": 50, "c04": 24, "c05": 40, "c06": 24, "c07": 60, "c08": 80, "c10": 50, "c11": 30, "c12": 60, "c13": 60, "c14": 200, "c17": 150, "c18": 60, "c19": 50, "c25": 40}
ENVS = [{}, {"DATA_RACES": 1}, {"INST_COUNTS": 1}, {"UNINITIALIZED": 1}, {"UNINITIALIZED": 1, "DATA_RACES": 1, "INST_COUNTS": 1}, {"DATA_RACES": 1, "UNIFORM_WRITES": 1}]


def cases(rng, tier):
    f = 1 if tier == "quick" else 25
    out = []
    for m, n in FOREIGN.items():
        cs = importlib.import_module(m).cases(rng, "quick")
        for c in rng.sample(cs, min(n * f, len(cs))):
            out.append(dict(k="foreign", mod=m, case=c, threads=rng.choice([None, 1, 2, 4]), env=rng.randrange(len(ENVS))))
    for _ in range(700 * f):
        out.append(dict(k="hostile", seed=rng.randrange(1 << 30), env=rng.randrange(len(ENVS)), threads=rng.choice([1, 1, 2, 4])))
    rng.shuffle(out)
    return out


class W:
    pass


def setup_worker(env):
    w = W()
    w.env = env
    w.L = Lib(env["build"])
    w.L.err = ct.c_int32()
    return w


def run_case(w, c):
    if c["k"] == "hostile":
        return hostile(w, c)
    try:
        r, _ = foreign.run(w, c["mod"], c["case"], ENVS[c["env"]] if c["mod"] not in ("c17", "c18", "c19") else {}, c["threads"])
    except CLError as e:
        r = dict(machinery=str(e))
    except Exception as e:     # its own verdict (and its assumptions about the analyses that run) do not matter here
        r = dict(stats={"other_oracle_exceptions": 1})
    return dict(violations=[], nontrivial=["%s %d %s" % (c["mod"], c["env"], c["threads"])], evals=r.get("evals", 1), stats={"foreign_cases": 1, "foreign_" + c["mod"]: 1})


# ---- hostile kernels

INTS = ["char", "uchar", "short", "ushort", "int", "uint", "long", "ulong"]
SZ = dict(char=1, uchar=1, short=2, ushort=2, int=4, uint=4, long=8, ulong=8, float=4, double=8)
VW = ["", "2", "3", "4", "8", "16"]


class G:
    """statements of a hostile kernel"""

    def __init__(self, r):
        self.r = r
        self.top = []
        self.n = 0
        self.img = False

    def uid(self):
        self.n += 1
        return "v%d" % self.n

    def word(self):
        return "D(%d)" % self.r.randrange(40)

    def val(self, t, w=""):
        """a hostile value of a type, unknown to the compiler"""
        if not w:
            return "as_%s((ulong)%s)" % (t, self.word()) if SZ[t] == 8 else "as_%s((%s)%s)" % (t, {1: "uchar", 2: "ushort", 4: "uint"}[SZ[t]], self.word())
        return "(%s%s)(%s)" % (t, w, ", ".join(self.val(t) for _ in range(int(w))))

    def sink(self, t, e):
        v = self.uid()
        return "%s %s = %s; SINK(%s, %s);" % (t, v, e, t, v)

    def typ(self, flo=True):
        return self.r.choice(INTS + ["float", "double"] * flo), self.r.choice(VW)

    # each method: one statement

    def wild(self):
        r = self.r
        t, w = self.typ()
        T = t + w
        sp = r.choice(["global", "local", "constant", "private"])
        a = r.choice([self.word(), "((ulong)%s + %s)" % ({"global": "o", "local": "lm", "constant": "cm", "private": "pv"}[sp], r.choice(["%dl" % r.choice([-1, -4, -128, 4096, 65536, 1 << 47, 1 << 48, -(1 << 48), 3, 4095]), self.word()]))])
        if sp == "constant" or r.random() < .5:
            return self.sink(T, "*(volatile %s %s *)(%s)" % (sp, T, a))
        return "*(volatile %s %s *)(%s) = %s;" % (sp, T, a, self.val(t, w))

    def oob(self):
        r = self.r
        a, n = r.choice([("o", 1024), ("lm", 64), ("pv", 16), ("stat", 32)])
        i = r.choice([n, n + 1, -1, -n, n * 4, 1 << 28, (1 << 30) - 1])
        if r.random() < .5:
            return "{ volatile int k = %d; %s[k] = 7; }" % (i, a)
        return "{ volatile int k = %d; SINK(int, %s[k]); }" % (i, a if r.random() < .8 else "tab") if a != "stat" else "{ volatile int k = %d; SINK(int, stat[k]); }" % i

    def div(self):
        t, w = self.typ(False)
        op = self.r.choice(["/", "%", "<<", ">>", "*", "-", "+"])
        return self.sink(t + w, "%s %s %s" % (self.val(t, w), op, self.val(t, w)))

    def unary(self):
        t, w = self.typ(False)
        f = self.r.choice(["abs", "clz", "popcount", "-", "~", "++"])
        if f == "++":
            v = self.uid()
            return "%s %s = %s; %s%s; SINK(%s, %s);" % (t + w, v, self.val(t, w), v, self.r.choice(["++", "--"]), t + w, v)
        if f == "abs":
            return self.sink(("u" + t if t[0] != "u" else t) + w, "abs(%s)" % self.val(t, w))
        return self.sink(t + w, "%s(%s)" % (f, self.val(t, w)))

    def binary(self):
        t, w = self.typ(False)
        f = self.r.choice(["abs_diff", "add_sat", "sub_sat", "hadd", "rhadd", "mul_hi", "rotate", "max", "min"])
        res = ("u" + t if t[0] != "u" else t) if f == "abs_diff" else t
        return self.sink(res + w, "%s(%s, %s)" % (f, self.val(t, w), self.val(t, w)))

    def ternary(self):
        t, w = self.typ(False)
        f = self.r.choice(["mad_hi", "mad_sat", "clamp", "mad24", "bitselect"])
        if f == "mad24":
            t = self.r.choice(["int", "uint"])
        return self.sink(t + w, "%s(%s, %s, %s)" % (f, self.val(t, w), self.val(t, w), self.val(t, w)))

    def convert(self):
        s, d = self.r.choice(INTS + ["float", "double"]), self.r.choice(INTS + ["float", "double"])
        w = self.r.choice(VW)
        sat = self.r.choice(["", "_sat"]) if d not in ("float", "double") else ""
        return self.sink(d + w, "convert_%s%s%s%s(%s)" % (d, w, sat, self.r.choice(["", "_rte", "_rtz", "_rtp", "_rtn"]), self.val(s, w)))

    def cast(self):
        s, d = self.r.choice(INTS + ["float", "double"]), self.r.choice(INTS + ["float", "double", "bool"])
        return self.sink("int" if d == "bool" else d, "(%s)%s" % (d, self.val(s)))

    def math1(self):
        t, w = self.r.choice(["float", "double"]), self.r.choice(VW)
        f = self.r.choice("acos acosh acospi asin asinh asinpi atan atanh atanpi cbrt ceil cos cosh cospi erf erfc exp exp2 exp10 expm1 fabs floor lgamma log log2 log10 log1p logb rint round rsqrt sin sinh sinpi sqrt tan "
                          "tanh tanpi tgamma trunc degrees radians sign length normalize".split())
        if f in ("length", "normalize") and w not in ("", "2", "3", "4"):
            w = "4"
        if f == "length":
            return self.sink(t, "length(%s)" % self.val(t, w))
        return self.sink(t + w, "%s(%s)" % (f, self.val(t, w)))

    def math2(self):
        t, w = self.r.choice(["float", "double"]), self.r.choice(VW)
        f = self.r.choice("atan2 atan2pi copysign fdim fmax fmin fmod hypot maxmag minmag nextafter pow powr remainder step".split())
        return self.sink(t + w, "%s(%s, %s)" % (f, self.val(t, w), self.val(t, w)))

    def mathi(self):
        t, w = self.r.choice(["float", "double"]), self.r.choice(VW)
        k = self.r.randrange(7)
        if k == 0:
            return self.sink("int" + w, "ilogb(%s)" % self.val(t, w))
        if k == 1:
            return self.sink(t + w, "%s(%s, %s)" % (self.r.choice(["ldexp", "pown", "rootn"]), self.val(t, w), self.val("int", w)))
        if k == 2:
            return self.sink(t + w, "nan(%s)" % self.val("uint" if t == "float" else "ulong", w))
        if k == 3:
            f = self.r.choice(["isequal", "isnotequal", "isgreater", "isless", "islessgreater", "isordered", "isunordered"])
            return self.sink(("int" if not w or t == "float" else "long") + w, "%s(%s, %s)" % (f, self.val(t, w), self.val(t, w)))
        if k == 4:
            f = self.r.choice(["isnan", "isinf", "isfinite", "isnormal", "signbit"])
            return self.sink(("int" if not w or t == "float" else "long") + w, "%s(%s)" % (f, self.val(t, w)))
        if k == 5:
            return self.sink(t + w, "%s(%s, %s, %s)" % (self.r.choice(["fma", "mad", "mix", "smoothstep", "clamp"]), self.val(t, w), self.val(t, w), self.val(t, w)))
        x = self.r.choice(["3", "4"])
        return self.r.choice([lambda: self.sink(t + x, "cross(%s, %s)" % (self.val(t, x), self.val(t, x))), lambda: self.sink(t, "%s(%s, %s)" % (self.r.choice(["dot", "distance", "fast_distance"] if t == "float" else ["dot", "distance"]), self.val(t, x), self.val(t, x)))])()

    def mathp(self):
        """results through pointers, valid or not"""
        t, w = self.r.choice(["float", "double"]), self.r.choice(["", "2", "3", "4"])
        sp = self.r.choice(["global", "local", "private"])
        f = self.r.choice(["fract", "modf", "sincos", "frexp", "lgamma_r", "remquo"])
        pt = ("int" if f in ("frexp", "lgamma_r", "remquo") else t) + w
        p = "(%s %s *)(%s)" % (sp, pt, self.r.choice([self.word(), "(ulong)%s" % dict(private="pv").get(sp, "o" if sp == "global" else "lm"), "0"]))
        args = [self.val(t, w)] + ([self.val(t, w)] if f == "remquo" else []) + [p]
        return self.sink(t + w, "%s(%s)" % (f, ", ".join(args)))

    def vec(self):
        t, w = self.r.choice(INTS + ["float", "double"]), self.r.choice(VW[1:])
        sp = self.r.choice(["global", "local", "private", "constant"])
        base = "(%s %s *)%s" % (sp, t, self.r.choice(["(ulong)" + dict(private="pv", local="lm", constant="cm").get(sp, "o"), self.word()]))
        off = self.r.choice(["0", "1", "1000000", self.word(), "(ulong)-1"])
        if sp == "constant" or self.r.random() < .5:
            return self.sink(t + w, "vload%s(%s, %s)" % (w, off, base))
        return "vstore%s(%s, %s, %s);" % (w, self.val(t, w), off, base)

    def half(self):
        w = self.r.choice(VW)
        sp = self.r.choice(["global", "local", "private"])
        base = "(%s half *)%s" % (sp, self.r.choice(["(ulong)" + dict(private="pv", local="lm").get(sp, "o"), self.word()]))
        off = self.r.choice(["0", "1", "3", self.word()])
        a = self.r.choice(["", "a"]) if w else ""
        if self.r.random() < .5:
            return self.sink("float" + w, "vload%s_half%s(%s, %s)" % (a, w, off, base))
        t = self.r.choice(["float", "double"])
        return "vstore%s_half%s%s(%s, %s, %s);" % (a, w, self.r.choice(["", "_rte", "_rtz", "_rtp", "_rtn"]), self.val(t, w), off, base)

    def atomic(self):
        t, pre = self.r.choice([("int", "atomic_"), ("uint", "atomic_"), ("long", "atom_"), ("ulong", "atom_"), ("int", "atom_")])
        sp = self.r.choice(["global", "local"])
        p = "(volatile %s %s *)(%s)" % (sp, t, self.r.choice(["(ulong)" + dict(local="lm").get(sp, "o"), self.word(), "0", "(ulong)%s + %d" % (dict(local="lm").get(sp, "o"), self.r.choice([1, 2, 4, -8, 253, 4093]))]))
        f = self.r.choice(["add", "sub", "xchg", "inc", "dec", "cmpxchg", "min", "max", "and", "or", "xor"])
        n = dict(inc=0, dec=0, cmpxchg=2).get(f, 1)
        return self.sink(t, "%s%s(%s)" % (pre, f, ", ".join([p] + [self.val(t) for _ in range(n)])))

    def asynccopy(self):
        t, w = self.r.choice(INTS + ["float"]), self.r.choice(["", "2", "4"])
        T = t + w
        lp, gp = "(local %s *)%s" % (T, self.r.choice(["lm", "lm", "(ulong)0", "WILD"])), "(global %s *)%s" % (T, self.r.choice(["o", "o", "(ulong)0", "WILD"]))
        lp, gp = lp.replace("WILD", self.ww()), gp.replace("WILD", self.ww())
        n = self.r.choice(["0", "1", "4", "100", "2000"])
        ev = self.r.choice(["0", "0", "e"])
        dst, src = (lp, gp) if self.r.random() < .5 else (gp, lp)
        if self.r.random() < .6:
            s = "e = async_work_group_copy(%s, %s, %s, %s);" % (dst, src, n, ev)
        else:
            s = "e = async_work_group_strided_copy(%s, %s, %s, %s, %s);" % (dst, src, n, self.r.choice(["0", "1", "3", "1000000"]), ev)
        return "{ event_t e = 0; %s%s }" % (s, self.r.choice([" wait_group_events(1, &e);", " wait_group_events(1, &e);", "", " wait_group_events(0, &e);", " wait_group_events(2, &e);"]))

    def ww(self):
        return "(ulong)UD(%d)" % self.r.randrange(40)      # the same for all work-items

    def barrier(self):
        f = self.r.choice(["CLK_LOCAL_MEM_FENCE", "CLK_GLOBAL_MEM_FENCE", "CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE", "0"])
        return self.r.choice(["barrier(%s);", "if (g & 1) barrier(%s);", "for (int i = 0; i < (int)(g & 3); i++) barrier(%s);", "if (g == 0) return; barrier(%s);", "if (g & 1) { barrier(%s); } else { barrier(CLK_LOCAL_MEM_FENCE); }", "mem_fence(%s);",
                              "read_mem_fence(%s);"]) % f

    def query(self):
        f = self.r.choice(["get_global_id", "get_local_id", "get_group_id", "get_global_size", "get_local_size", "get_num_groups", "get_global_offset"])
        return self.sink("ulong", "%s(%s)" % (f, self.r.choice(["0", "2", "3", "7", "(uint)-1", "(uint)" + self.word(), "100"])))

    def printf(self):
        r = self.r
        f = r.choice(["%d %d %d %d", "%v4d", "%v16hlf %d", "%s", "%", "%5", "%.", "%*d", "%hh", "%lld", "%v3", "%v99d", "%q", "%hlx", "%c%c%c", "%100000d", "%p", "%n", "%%%", "%.2147483648f", "%-+ #0d", "%ls", "%v4s", "\\\\x\\0%d"])
        a = r.choice(["", ", %s" % self.val("int"), ", %s" % self.val("float"), ", %s" % self.val("int", "4"), ", \"abc\"", ", %s, %s" % (self.val("double"), self.val("long"))])
        if r.random() < .3 and f == "%s":
            a = ", (constant char *)%s" % self.word()
        if f == "%s" and "\"" not in a and "constant" not in a:
            a = ", \"abc\""
        return "printf(\"%s\\n\"%s);" % (f, a)

    def recursion(self):
        n = self.uid()
        self.top.append("int %s(int n, int a) { int x[3]; x[n %% 3] = a; return n > 0 ? %s(n - 1, a * 3 + 1) + x[n %% 3] : a; }" % (n, n))
        return self.sink("int", "%s(%d, (int)%s)" % (n, self.r.choice([3, 30, 400]), self.word()))

    def structs(self):
        n, k = self.uid(), self.r.choice([1, 3, 8, 40])
        self.top.append("struct S%s { int a[%d]; char c; %s v; }; int f%s(struct S%s s, int i) { s.a[i] += s.c; return s.a[0] + s.c; }" % (n, k, self.r.choice(["long", "float4", "char3", "double2"]), n, n))
        sp = self.r.choice(["global", "local", "private", "constant"])
        src = "*(%s struct S%s *)%s" % (sp, n, self.r.choice(["(ulong)" + dict(private="pv", local="lm", constant="cm").get(sp, "o"), self.word(), "0"]))
        return "{ struct S%s s; if (%s) s = %s; %s SINK(int, f%s(s, %s)); %s }" % (n, self.r.choice(["1", "1", "g & 1"]), src, self.r.choice(["", "s.c = 3;"]), n, self.r.choice(["0", "(int)%s" % self.word(), str(k), "-1"]),
                                                                                 "" if sp == "constant" else "%s = s;" % src)

    def callkernel(self):
        n = self.uid()
        self.top.append(self.r.choice(["kernel void k%s(global int *p) { p[3] = 4; }" % n, "kernel void k%s(global int *p) { local int t[8]; t[get_local_id(0) & 7] = 1; barrier(CLK_LOCAL_MEM_FENCE); p[3] = t[0]; }" % n]))
        return "k%s(o);" % n

    def shuf(self):
        t = self.r.choice(INTS + ["float", "double"])
        m = {1: "uchar", 2: "ushort", 4: "uint", 8: "ulong"}[SZ[t]]
        a, b = self.r.choice(["2", "4", "8", "16"]), self.r.choice(["2", "4", "8", "16"])
        if self.r.random() < .5:
            return self.sink(t + b, "shuffle(%s, %s)" % (self.val(t, a), self.val(m, b)))
        return self.sink(t + b, "shuffle2(%s, %s, %s)" % (self.val(t, a), self.val(t, a), self.val(m, b)))

    def dynidx(self):
        t, w = self.r.choice(INTS + ["float"]), self.r.choice(["2", "3", "4", "8", "16"])
        v = self.uid()
        return "{ %s%s %s = %s; %s[%s] = 1; SINK(%s, %s[%s]); }" % (t, w, v, self.val(t, w), v, self.r.choice(["(int)%s" % self.word(), "-1", w, "(int)(g %% %s)" % w]).replace("%%", "%"), t, v, "(int)" + self.word())

    def switch(self):
        return "switch ((int)%s) { case 0: o[1] = 1; break; case -2147483647 - 1: o[2] = 2; case 2147483647: o[3] = 3; break; default: o[4] = 4; }" % self.word()

    def trap(self):
        return "if (%s == 0x1234567) %s;" % (self.word(), self.r.choice(["__builtin_trap()", "__builtin_unreachable()"])) if self.r.random() < .7 else "if (g == 2) __builtin_trap();"

    def prefetch(self):
        return "prefetch((global int *)(%s), %s);" % (self.r.choice(["(ulong)o", self.word(), "0"]), self.r.choice(["0", "1", "1000000", "(ulong)" + self.word()]))

    def bigprivate(self):
        return "{ volatile char big[%d]; big[%s] = 1; SINK(int, big[0]); }" % (self.r.choice([1, 70000, 1 << 20]), self.r.choice(["0", "(uint)%s" % self.word()]))

    def image(self):
        self.img = True
        r = self.r
        s = r.choice(["smp", "CLK_ADDRESS_REPEAT | CLK_NORMALIZED_COORDS_TRUE | CLK_FILTER_LINEAR", "CLK_ADDRESS_MIRRORED_REPEAT | CLK_NORMALIZED_COORDS_TRUE | CLK_FILTER_LINEAR", "CLK_ADDRESS_CLAMP | CLK_FILTER_NEAREST",
                      "CLK_ADDRESS_CLAMP_TO_EDGE | CLK_FILTER_LINEAR", "CLK_ADDRESS_NONE | CLK_FILTER_NEAREST"])
        if s != "smp":
            n = self.uid()
            self.top.append("constant sampler_t s%s = %s;" % (n, s))
            s = "s" + n
        k = r.randrange(4)
        if k == 0:
            return self.sink("float4", "read_imagef(i1, %s, %s)" % (s, r.choice([self.val("int", "2"), self.val("float", "2")])))
        if k == 1:
            return self.sink("float4", "read_imagef(i3, %s, %s)" % (s, r.choice([self.val("int", "4"), self.val("float", "4")])))
        if k == 2:
            return "write_imagef(i2, %s, %s);" % (r.choice([self.val("int", "2"), "(int2)(%d, %d)" % (r.randint(-2, 5), r.randint(-2, 5))]), self.val("float", "4"))
        return self.sink("int", r.choice(["get_image_width(i1)", "get_image_height(i2)", "get_image_channel_data_type(i1)", "get_image_depth(i3)", "get_image_channel_order(i2)"]))

    def aliaslocal(self):
        return "{ local int own[%d]; own[get_local_id(0)] = 1; SINK(int, own[(int)%s]); }" % (self.r.choice([1, 2, 64]), self.word())


KINDS = [k for k in dir(G) if not k.startswith("_") and k not in ("uid", "word", "val", "sink", "typ", "ww")]
HEAD = """#pragma OPENCL EXTENSION cl_khr_fp64 : enable
#pragma OPENCL EXTENSION cl_khr_int64_base_atomics : enable
#pragma OPENCL EXTENSION cl_khr_int64_extended_atomics : enable
#define D(i) d[((i) + g) %% 40]
#define UD(i) d[i]
#define SINK(T, v) do { *(volatile private T *)sinkbuf = (v); } while (0)
constant int tab[5] = {1, 2, 3, 4, 5};
%s
kernel void h(global const ulong *d, global int *o, local int *lm, constant int *cm%s) {
  size_t g = get_global_id(0);
  int pv[16] = {0}; int stat[32]; ulong sinkbuf[16];
%s
}
kernel void ok(global const int *a, global int *b, local int *l, int k) {
  size_t i = get_global_id(0), j = get_local_id(0), n = get_local_size(0);
  int p[4] = {k, 2, 3, 4};
  l[j] = a[i] * p[i & 3];
  barrier(CLK_LOCAL_MEM_FENCE);
  b[i] = l[n - 1 - j] + (int)get_group_id(0);
}
"""
WORDS = [0, 1, 2, 3, 7, 31, 32, 63, 64, 0x7F, 0x80, 0xFF, 0x7FFF, 0x8000, 0xFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, (1 << 64) - 2, 0x7F800000, 0xFF800000, 0x7FC00000, 0x7F800001, 0x7F7FFFFF, 1, 0x80000001,
         0x7FF0000000000000, 0xFFF0000000000000, 0x7FF8000000000000, 0x7FF0000000000001, 0x7FEFFFFFFFFFFFFF, 0x4F000000, 0x5F000000, 0xCF000000, 0x41E0000000000000, 0x43E0000000000000, 1 << 48, 1 << 49, 0xFFFF000000000000, 5 << 48, 0x4B000000, 0x3F000000]


def source(seed):
    r = random.Random(seed)
    g = G(r)
    kinds = r.sample(KINDS, r.choice([1, 2, 3, 4])) if r.random() < .75 else [r.choice(KINDS)] * 6
    body = []
    for k in kinds:
        for _ in range(r.choice([1, 2, 4])):
            s = getattr(g, k)()
            if k not in ("barrier", "asynccopy", "aliaslocal") and r.random() < .2:
                s = "if (g == %d) { %s }" % (r.randrange(6), s)
            body.append("  { " + s + " }" if k != "aliaslocal" else s[1:-1].replace("own", "own%d" % len(body)))
    img = ", read_only image2d_t i1, write_only image2d_t i2, read_only image3d_t i3, sampler_t smp" if g.img else ""
    return HEAD % ("\n".join(g.top), img, "\n".join(body)), g, kinds


def hostile(w, c):
    L = w.L
    src, g, kinds = source(c["seed"])
    r = random.Random(c["seed"] + 1)
    nr = np.random.default_rng(c["seed"])
    env = dict(ENVS[c["env"]], NUM_THREADS=c["threads"], MAX_ERRORS=500)
    X = Ctx(L, env)
    V, st = [], {"hostile_kernels": 1}
    key = "hostile:" + "+".join(sorted(set(kinds)))
    try:
        try:
            p = X.program(src, r.choice(["", "", "-cl-opt-disable", "-O2"]))
        except CLError as e:
            return dict(machinery="kernel does not build: %s\n%s" % (e, src))
        # a freed allocation whose address the kernel gets
        k0 = X.kernel(X.program("kernel void a(global int *p, global ulong *d) { d[0] = (ulong)p; }"), "a")
        stale, dd = X.buffer(size=256), X.buffer(size=8)
        X.args(k0, stale, dd)
        X.launch(k0, (1,))
        addr = int(X.read(dd, 8, dtype=np.uint64)[0])
        X.objs.remove(("clReleaseMemObject", stale))
        L.clReleaseMemObject(stale)
        words = [r.choice(WORDS + [addr, addr + 4, addr + 250, addr - 4, r.getrandbits(64), r.getrandbits(32)]) for _ in range(40)]
        d = X.buffer(np.array(words, np.uint64))
        o = X.buffer(np.zeros(1024, np.int32))
        cm = X.buffer(np.zeros(16, np.int32))
        k = X.kernel(p, "h")
        args = [d, o if r.random() < .95 else None, Local(256), cm if r.random() < .95 else None]
        if g.img:
            e = ct.c_int32()
            for order, dt, depth in r.choice([[(0x10B5, 0x10DE, 0), (0x10B5, r.choice([0x10DE, 0x10D2, 0x10D0, 0x10DD, 0x10D3, 0x10D1]), 0), (0x10B5, 0x10DE, 2)], [(0x10B5, 0x10D2, 0), (0x10B0, r.choice([0x10D2, 0x10D0]), 0), (0x10B5, 0x10DD, 3)]]):
                f = (ct.c_uint32 * 2)(order, dt)
                m = L.clCreateImage3D(X.ctx, 1, f, 4, 3, depth, 0, 0, None, ct.byref(e)) if depth else L.clCreateImage2D(X.ctx, 1, f, 4, 3, 0, None, ct.byref(e))
                if e.value:
                    return dict(machinery="image %x %x: %d" % (order, dt, e.value))
                X.objs.append(("clReleaseMemObject", m))
                args.append(m)
            norm = r.random() < .5
            s = L.clCreateSampler(X.ctx, int(norm), r.choice([0x1134, 0x1133] if norm else [0x1132, 0x1131, 0x1130]), r.choice([0x1140, 0x1141]), ct.byref(e))
            X.objs.append(("clReleaseSampler", s))
            args.append(s)
        X.args(k, *args)
        L.mon.clear()
        L.mon.mask("log")
        ls = r.choice([1, 2, 4])
        n = ls * r.choice([1, 2, 3])
        with Quiet(w):
            for _ in range(r.choice([1, 1, 2])):
                X.launch(k, (n,), (ls,))
        logs = L.mon.logs()
        st["messages"] = len(logs)
        L.mon.mask()
        # the simulator still works
        q = X.kernel(p, "ok")
        a = nr.integers(-1000, 1000, 12, np.int32)
        b = X.buffer(np.zeros(12, np.int32))
        X.args(q, X.buffer(a), b, Local(16), np.int32(5))
        X.launch(q, (12,), (4,))
        got = X.read(b, 48, dtype=np.int32)
        t = (a * np.array([5, 2, 3, 4] * 3, np.int32)).reshape(3, 4)[:, ::-1] + np.arange(3, dtype=np.int32)[:, None]
        if not np.array_equal(got.reshape(3, 4), t):
            V.append(("after:" + key, "a well-behaved kernel computes %s instead of %s after\n%s" % (got.tolist(), t.ravel().tolist(), src)))
    finally:
        X.release()
    return dict(violations=V, nontrivial=["hostile %s %d" % (x, c["env"]) for x in set(kinds)], stats=st)


class Quiet:
    """sends fd 1 (printf of kernels) and fd 2 to the bin"""

    def __init__(self, w):
        pass

    def __enter__(self):
        self.s = [os.dup(1), os.dup(2)]
        n = os.open("/dev/null", os.O_WRONLY)
        os.dup2(n, 1)
        os.close(n)

    def __exit__(self, *a):
        os.dup2(self.s[0], 1)
        [os.close(x) for x in self.s]


def crash_key(c):
    return c["k"] if c["k"] != "hostile" else "+".join(sorted(set(source(c["seed"])[2])))
