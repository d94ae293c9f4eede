"""Random generator of OpenCL C kernels free of undefined behaviour (used by C01, C10, C11, C20).  The same text compiles for the
simulator and, with -DNATIVE, for the host through the system clang's OpenCL front end."""
import random

INTS = ["char", "uchar", "short", "ushort", "int", "uint", "long", "ulong"]
FLTS = ["float", "double"]
SIZE = dict(char=1, uchar=1, short=2, ushort=2, int=4, uint=4, long=8, ulong=8, float=4, double=8)
WIDTHS = [2, 3, 4, 8, 16]
U = lambda t: t if t[0] == "u" else "u" + t
S = lambda t: t[1:] if t[0] == "u" else t

COMMON = r'''
#pragma OPENCL EXTENSION cl_khr_fp64 : enable
#pragma OPENCL FP_CONTRACT OFF
'''

PRELUDE = r'''
#ifdef NATIVE
typedef unsigned char uchar; typedef unsigned short ushort; typedef unsigned int uint; typedef unsigned long ulong;
typedef unsigned long size_t; typedef long ptrdiff_t; typedef unsigned long uintptr_t; typedef long intptr_t;
#define V(T) typedef T T##2 __attribute__((ext_vector_type(2))); typedef T T##3 __attribute__((ext_vector_type(3))); typedef T T##4 __attribute__((ext_vector_type(4))); \
  typedef T T##8 __attribute__((ext_vector_type(8))); typedef T T##16 __attribute__((ext_vector_type(16)));
V(char) V(uchar) V(short) V(ushort) V(int) V(uint) V(long) V(ulong) V(float) V(double)
#define CONV(T, x) __builtin_convertvector((x), T)
#define AS(T, x) __builtin_astype((x), T)
#define KERNEL kernel
#define LOCALDECL(T, n) static T n
extern size_t vm_id(uint);
#define get_global_id(x) vm_id(x)
#define get_local_id(x) vm_id(3 + (x))
#define get_group_id(x) vm_id(6 + (x))
#define get_global_size(x) vm_id(9 + (x))
#define get_local_size(x) vm_id(12 + (x))
#else
#define CONV(T, x) convert_##T(x)
#define AS(T, x) as_##T(x)
#define KERNEL kernel
#endif
'''


def vt(b, n):
    return b if n == 1 else "%s%d" % (b, n)


class Struct:
    def __init__(self, name, fields, packed=False):
        # fields: [(name, type)] type = ("v", base, n) | ("a", type, count) | ("s", Struct)
        self.name, self.fields, self.packed = name, fields, packed


def tstr(t, name=""):
    if t[0] == "v":
        return (vt(t[1], t[2]) + " " + name).rstrip()
    if t[0] == "s":
        return (t[1].name + " " + name).rstrip()
    if t[0] == "a":
        return tstr(t[1], "%s[%d]" % (name, t[2]))
    raise ValueError(t)


def sizealign(t, packed=False):
    if t[0] == "v":
        s = SIZE[t[1]] * (4 if t[2] == 3 else t[2])
        return s, s
    if t[0] == "a":
        s, a = sizealign(t[1])
        return s * t[2], a
    st = t[1]
    off, al = 0, 1
    for _, ft in st.fields:
        s, a = sizealign(ft)
        if st.packed:
            a = 1
        off = (off + a - 1) // a * a + s
        al = max(al, a)
    return (off + al - 1) // al * al, al


def leaves(t, base=0, path=""):
    """[(offset, scalar type, path)]"""
    if t[0] == "v":
        return [(base + i * SIZE[t[1]], t[1], path + ("[%d]" % i if t[2] > 1 else "")) for i in range(t[2])]
    if t[0] == "a":
        s, _ = sizealign(t[1])
        return [x for i in range(t[2]) for x in leaves(t[1], base + i * s, path + "[%d]" % i)]
    out, off = [], 0
    for n, ft in t[1].fields:
        s, a = sizealign(ft)
        if t[1].packed:
            a = 1
        off = (off + a - 1) // a * a
        out += leaves(ft, base + off, path + "." + n)
        off += s
    return out


class Gen:
    def __init__(self, r, fp=True, feat=None):
        self.r = r
        self.fp = fp
        self.n = 0
        self.structs = []
        self.consts = []
        self.helpers = []     # (name, ret, [param types])
        self.text = []
        self.depth = 0
        self.loop = 0
        self.budget = 0
        self.feat = feat or set()
        self.used = set()

    def name(self, p="v"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def base(self, ints=False):
        r = self.r
        if self.fp and not ints and r.random() < .28:
            return r.choice(FLTS)
        return r.choice(INTS)

    def vtype(self, ints=False):
        r = self.r
        return ("v", self.base(ints), r.choice([1, 1, 1, 2, 3, 4, 8, 16]) if r.random() < .55 else 1)

    # ------------------------------------------------------------ literals
    def lit(self, b):
        r = self.r
        if b in FLTS:
            v = r.choice([0.0, 1.0, -1.5, 0.1, 3.25e3, -7.75, 1e-3, 123456.789, 2.0, -0.0, 1e10, 5e-39 if b == "float" else 1e-310])
            return "(%r%s)" % (v, "f" if b == "float" else "")
        bits = 8 * SIZE[b]
        v = r.choice([0, 1, 2, 3, 5, 7, 127, 128, 255, 256, 0x7FFF, 0x8000, 0xFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 1 << 63, (1 << 64) - 1, (1 << 63) - 1,
                      r.randrange(1 << bits), r.randrange(256), r.randrange(16)]) & ((1 << bits) - 1)
        if b[0] == "u":
            return "(%s)0x%xUL" % (b, v) if bits == 64 else "(%s)%du" % (b, v)
        if v >> (bits - 1):
            v -= 1 << bits
        if v == -(1 << 63):
            return "(long)0x8000000000000000UL"
        if v == -(1 << 31):
            return "(int)0x80000000"
        s = "%d%s" % (v, "L" if bits == 64 else "")
        if r.random() < .1 and 32 <= v < 127 and chr(v) not in "'\\":
            s = "'%s'" % chr(v)
        return ("(%s)(%s)" % (b, s)) if b != "int" or v < 0 else s

    def veclit(self, b, n, d, sc):
        r = self.r
        if r.random() < .3:
            return "(%s)(%s)" % (vt(b, n), self.expr(("v", b, 1), d - 1, sc))
        parts, k = [], 0
        while k < n:
            c = [w for w in (1, 1, 2, 3, 4, 8) if w <= n - k and w < n]
            w = r.choice(c)
            parts.append(self.expr(("v", b, w), d - 1, sc) if r.random() < .7 else (self.lit(b) if w == 1 else "(%s)(%s)" % (vt(b, w), self.lit(b))))
            k += w
        return "(%s)(%s)" % (vt(b, n), ", ".join(parts))

    # ------------------------------------------------------------ expressions
    def cands(self, sc, t):
        return [e for e, et, _ in sc if et == t]

    def idx(self, n, d, sc):
        """an in-range index expression for n (power of two) elements"""
        r = self.r
        if n == 1 or d <= 0 or r.random() < .4:
            return "%d" % r.randrange(n)
        t = ("v", r.choice(["uint", "uint", "ulong", "uchar", "ushort"]), 1)
        return "(%s & %d)" % (self.expr(t, d - 1, sc), n - 1)

    def access(self, sc, t, d, write=False):
        """an lvalue (or readable) of type t reached through variables, members, elements, pointers"""
        r = self.r
        out = []
        for e, et, ro in r.sample(sc, min(len(sc), 14)):
            if write and ro:
                continue
            x = self.reach(e, et, t, d, sc, 3)
            if x:
                out.append(x)
        return r.choice(out) if out else None

    def reach(self, e, et, t, d, sc, k):
        r = self.r
        if et == t:
            return e
        if k == 0:
            return None
        if et[0] == "a":
            if not self.has(et[1], t, k - 1):
                return None
            return self.reach("%s[%s]" % (e, self.idx(et[2], min(d, 1), sc)), et[1], t, d, sc, k - 1)
        if et[0] == "p":
            if not self.has(et[1], t, k - 1):
                return None
            x = r.random()
            if et[2] == 1 or x < .2:
                return self.reach("(*%s)" % e, et[1], t, d, sc, k - 1)
            i = self.idx(et[2], min(d, 1), sc)
            return self.reach("%s[%s]" % (e, i) if x < .7 else "(*(%s + %s))" % (e, i), et[1], t, d, sc, k - 1)
        if et[0] == "s":
            fs = [(n, ft) for n, ft in et[1].fields if self.has(ft, t, k - 1)]
            if not fs:
                return None
            n, ft = r.choice(fs)
            e2 = "%s->%s" % (e[2:-1], n) if e.startswith("(*") and e.endswith(")") and e.count("(") == 1 and r.random() < .6 else "%s.%s" % (e, n)
            return self.reach(e2, ft, t, d, sc, k - 1)
        if et[0] == "v" and t[0] == "v" and et[1] == t[1] and et[2] > 1 and t[2] < et[2] and not e.startswith("PK"):
            return self.swizzle(e, et[2], t[2])
        return None

    def has(self, et, t, k):
        if et == t:
            return True
        if k == 0:
            return False
        if et[0] in "ap":
            return self.has(et[1], t, k - 1)
        if et[0] == "s":
            return any(self.has(ft, t, k - 1) for _, ft in et[1].fields)
        return et[0] == "v" and t[0] == "v" and et[1] == t[1] and et[2] > 1 and t[2] < et[2]

    def swizzle(self, e, n, m):
        r = self.r
        if "." in e.split("]")[-1] and False:
            return None
        if m == n // 2 and n > 3 and r.random() < .4:
            return "%s.%s" % (e, r.choice(["lo", "hi", "even", "odd"]))
        if m == 1 and n == 2 and r.random() < .3:
            return "%s.%s" % (e, r.choice(["lo", "hi", "even", "odd"]))
        ix = r.sample(range(n), m)
        if max(ix) < 4 and r.random() < .6:
            return "%s.%s" % (e, "".join("xyzw"[i] for i in ix))
        return "%s.%s%s" % (e, r.choice("sS"), "".join("%x" % i if r.random() < .5 else "%X" % i for i in ix))

    def expr(self, t, d, sc):
        self.budget -= 1
        if t[0] == "v":
            return self.vexpr(t[1], t[2], d if self.budget > 0 else 0, sc)
        if t[0] == "s":
            x = self.access(sc, t, d)
            if x:
                return x
            return None
        raise ValueError(t)

    def leaf(self, b, n, sc):
        r = self.r
        if r.random() < .78:
            x = self.access(sc, ("v", b, n), 0)
            if x:
                return x
            if r.random() < .5:
                c = [(e, et) for e, et, _ in sc if et[0] == "v" and et[2] == n and et[1] in INTS] if b in INTS or b in FLTS else []
                if c:
                    e, et = r.choice(c)
                    return self.conv(e, et[1], b, n)
        if n == 1 and b in INTS and r.random() < .3:
            f = r.choice(["get_global_id(0)", "get_local_id(0)", "get_global_size(0)", "get_local_size(0)", "get_group_id(0)", "get_global_id(1)", "get_local_size(2)"])
            return "(%s)%s" % (b, f)
        if n == 1:
            return self.lit(b)
        return "(%s)(%s)" % (vt(b, n), self.lit(b)) if r.random() < .5 else "(%s)(%s)" % (vt(b, n), ", ".join(self.lit(b) for _ in range(n)))

    def conv(self, e, f, b, n):
        """convert expression e of base f, width n, to base b"""
        t = vt(b, n)
        if f in FLTS and b in INTS:
            self.used.add(("fi", f, b, n))
            return "fi_%s_%s%d(%s)" % (f, b, n, e)
        if n == 1:
            return "(%s)(%s)" % (b, e) if self.r.random() < .9 else "CONV(%s, %s)" % (b, e) if False else "(%s)%s" % (b, "(%s)" % e)
        return "CONV(%s, %s)" % (t, e)

    def vexpr(self, b, n, d, sc):
        r = self.r
        if d <= 0 or r.random() < .12:
            return self.leaf(b, n, sc)
        t = ("v", b, n)
        T = vt(b, n)
        E = lambda tt=t, dd=1: self.expr(tt, d - dd, sc)
        isf = b in FLTS
        k = r.random()
        if k < .30:                                         # arithmetic
            if isf:
                return "(%s %s %s)" % (E(), r.choice("+-*/"), E())
            op = r.choice("+-*+-*/%")
            if op in "/%":
                if b[0] == "u":
                    return self.narrow("%s %s (%s | (%s)1)" % (E(), op, E(), T if n == 1 else b), b, n)
                x = self.narrow("%s >> (%s)1" % (E(), b), b, n)
                y = self.narrow("%s | (%s)1" % (E(), b), b, n)
                return self.narrow("%s %s %s" % (x, op, y), b, n)
            return self.wrap(op, [E(), E()], b, n)
        if k < .42 and not isf:                             # bitwise and shifts
            if r.random() < .5:
                return self.narrow("%s %s %s" % (E(), r.choice("&|^"), E()), b, n)
            y = E() if n > 1 or r.random() < .5 else E(("v", r.choice(INTS), 1))
            return self.narrow("%s %s %s" % (E(), r.choice(["<<", ">>", ">>"]), y), b, n)
        if k < .48:                                         # unary
            if isf:
                return "(-%s)" % E()
            op = r.choice("-~-~+")
            if op == "-":
                return self.wrap("-", [self.zero(b, n), E()], b, n) if b[0] != "u" or SIZE[b] < 4 else "(-%s)" % E()
            return self.narrow("%s%s" % (op, E()), b, n)
        if k < .58:                                         # conversions and reinterpretations
            if r.random() < .25:
                c = [f for f in INTS + FLTS if SIZE[f] * (n if n != 3 else 0) == SIZE[b] * n and f != b]
                c = [f for f in c if not (f in FLTS and not isf)] if True else c
                if isf:
                    c = [f for f in c if f in FLTS]        # reinterpreting arbitrary bits as a float gives signalling NaNs
                m = [(f, w) for f in ([] if isf else INTS) for w in (1, 2, 4, 8, 16) if SIZE[f] * w == SIZE[b] * n and n != 3 and (f, w) != (b, n)]
                m += [(f, n) for f in c]
                if m:
                    f, w = r.choice(m)
                    return "AS(%s, %s)" % (T, E(("v", f, w)))
            f = self.base()
            return self.conv(E(("v", f, n)), f, b, n)
        if k < .66:                                         # comparison results
            if n == 1:
                if isf:
                    return "(%s)%s" % (b, self.cond(d - 1, sc))
                return "(%s)%s" % (b, self.cond(d - 1, sc))
            f = r.choice([x for x in INTS + FLTS if SIZE[x] == SIZE[b] and (self.fp or x in INTS)])
            e = self.vcond(f, n, d, sc)
            return e if b == S(b) and not isf else "CONV(%s, %s)" % (T, e) if isf else "AS(%s, %s)" % (T, e)
        if k < .76:                                         # selection
            if n == 1 or r.random() < .3:
                return self.narrow("%s ? %s : %s" % (self.cond(d - 1, sc), E(), E()), b, n)
            f = r.choice([x for x in INTS + FLTS if SIZE[x] == SIZE[b] and (self.fp or x in INTS)])
            return "(%s ? %s : %s)" % (self.vcond(f, n, d, sc), E(), E())
        if k < .84:                                         # parts of wider vectors, or building
            if n > 1 and r.random() < .6:
                return self.veclit(b, n, d, sc)
            m = r.choice([w for w in WIDTHS if w >= n] or [16])
            e = E(("v", b, m))
            if m == n and n > 1:
                return self.swz_full(e, n)
            return self.swizzle("(%s)" % e, m, n) if m > n else e
        if k < .93 and self.helpers and self.loop < 2:
            c = [h for h in self.helpers if h[1] == t] or [h for h in self.helpers if h[1][0] == "v" and h[1][2] == n]
            if c:
                h = r.choice(c)
                x = self.call(h, d, sc)
                if x:
                    return x if h[1] == t else self.conv(x, h[1][1], b, n)
        x = self.access(sc, t, d)
        return x or self.leaf(b, n, sc)

    def swz_full(self, e, n):
        r = self.r
        ix = [r.randrange(n) for _ in range(n)]
        if n <= 4:
            return "(%s).%s" % (e, "".join("xyzw"[i] for i in ix))
        return "(%s).s%s" % (e, "".join("%x" % i for i in ix))

    def zero(self, b, n):
        return "(%s)0" % vt(b, n)

    def narrow(self, e, b, n):
        return "(%s)(%s)" % (b, e) if n == 1 and SIZE[b] < 4 else "(%s)" % e

    def wrap(self, op, es, b, n):
        a, c = es
        if b[0] == "u":
            if SIZE[b] < 4 and n == 1:
                return "(%s)((uint)%s %s (uint)%s)" % (b, a, op, c)
            return "(%s %s %s)" % (a, op, c)
        u = vt(U(b), n)
        if n == 1:
            w = "uint" if SIZE[b] < 4 else U(b)
            if SIZE[b] < 4 and self.r.random() < .5:
                return "(%s)(%s %s %s)" % (b, a, op, c)
            return "(%s)((%s)%s %s (%s)%s)" % (b, w, a, op, w, c)
        return "AS(%s, AS(%s, %s) %s AS(%s, %s))" % (vt(b, n), u, a, op, u, c)

    def cond(self, d, sc):
        r = self.r
        if d > 0 and r.random() < .3:
            k = r.random()
            if k < .35:
                return "(%s && %s)" % (self.cond(d - 1, sc), self.cond(d - 1, sc))
            if k < .7:
                return "(%s || %s)" % (self.cond(d - 1, sc), self.cond(d - 1, sc))
            return "(!%s)" % self.cond(d - 1, sc)
        b = self.base()
        t = ("v", b, 1)
        if r.random() < .1 and b in INTS:
            return "(%s)" % self.expr(t, d - 1, sc) if r.random() < .5 else "((bool)%s)" % self.expr(t, d - 1, sc)
        return "(%s %s %s)" % (self.expr(t, d - 1, sc), r.choice(["<", ">", "<=", ">=", "==", "!="]), self.expr(t, d - 1, sc))

    def vcond(self, f, n, d, sc):
        r = self.r
        t = ("v", f, n)
        e = "(%s %s %s)" % (self.expr(t, d - 1, sc), r.choice(["<", ">", "<=", ">=", "==", "!="]), self.expr(t, d - 1, sc))
        if r.random() < .15 and f in INTS:
            e = "(%s %s %s)" % (e, r.choice(["&&", "||", "&", "|"]), "(%s == %s)" % (self.expr(t, d - 1, sc), self.expr(t, d - 1, sc)))
        return e

    def call(self, h, d, sc):
        args = []
        for p in h[2]:
            if p[0] == "p":
                c = [e for e, et, ro in sc if et[0] == "p" and et[1] == p[1] and et[2] >= p[2] and et[3] == p[3]]
                if p[3] == "private":
                    c += [e for e, et, ro in sc if et[0] == "a" and et[1] == p[1] and et[2] >= p[2] and e.isidentifier() and not ro and not e.startswith(("T_", "L_"))]
                    if p[2] == 1:
                        c += ["&" + e for e, et, ro in sc if et == p[1] and e.isidentifier() and not ro and not e.startswith(("T_", "L_", "j"))]
                if p[3] == "local":
                    c += [e for e, et, ro in sc if et[0] == "a" and et[1] == p[1] and et[2] >= p[2] and e.startswith("L_")]
                if p[3] == "constant":
                    c += [e for e, et, ro in sc if et[0] == "a" and et[1] == p[1] and et[2] >= p[2] and e.startswith("T_")]
                if not c:
                    return None
                args.append(self.r.choice(c))
            else:
                x = self.expr(p, d - 1, sc)
                if x is None:
                    return None
                args.append(x)
        return "%s(%s)" % (h[0], ", ".join(args))

    # ------------------------------------------------------------ statements
    def decl(self, sc, ind):
        r = self.r
        k = r.random()
        v = self.name()
        pad = "  " * ind
        if k < .50:
            t = self.vtype()
            s = "%s%s = %s;" % (r.choice(["", "", "", "const ", "volatile "] if True else ""), tstr(t, v), self.expr(t, 3, sc))
            sc.append((v, t, s.startswith("const")))
            return pad + s + "\n"
        if k < .66:
            t = ("v", self.base(), r.choice([1, 1, 1, 2, 3, 4]))
            n = r.choice([2, 4, 8])
            s = pad + "%s = { %s };\n" % (tstr(("a", t, n), v), ", ".join(self.expr(t, 1, sc) for _ in range(n))) if r.random() < .7 else \
                pad + "%s;\n%sfor (uint i = 0; i < %d; i++) %s[i] = %s;\n" % (tstr(("a", t, n), v), pad, n, v, self.expr(t, 2, sc + [("i", ("v", "uint", 1), True)]))
            sc.append((v, ("a", t, n), False))
            return s
        if k < .82 and self.structs:
            st = r.choice(self.structs)
            t = ("s", st)
            x = self.access(sc, t, 1) if r.random() < .4 else None
            s = pad + "%s %s = %s;\n" % (st.name, v, x or self.sinit(t, sc))
            sc.append((v, t, False))
            return s
        if k < .84:
            return ""
        # pointers
        c = [(e, et) for e, et, ro in sc if et[0] == "a" and e.isidentifier() and not ro and not e.startswith(("T_", "L_"))]
        if c and r.random() < .6:
            e, et = r.choice(c)
            o = r.choice([0, et[2] // 2])
            t = ("p", et[1], et[2] - o, "private")
            sc.append((v, t, False, ) if False else (v, t, True))
            x = "%s + %d" % (e, o) if r.random() < .5 else "&%s[%d]" % (e, o)
            return pad + "private %s * const %s = %s;\n" % (tstr(et[1]), v, x)
        c = [(e, et) for e, et, ro in sc if et[0] in "vs" and e.isidentifier() and not ro and not e.startswith("j")]
        if c:
            e, et = r.choice(c)
            sc.append((v, ("p", et, 1, "private"), True))
            return pad + "private %s * %s = &%s;\n" % (tstr(et), v, e)
        return ""

    def sinit(self, t, sc):
        if t[0] == "v":
            return self.expr(t, 1, sc)
        if t[0] == "a":
            return "{ %s }" % ", ".join(self.sinit(t[1], sc) for _ in range(t[2]))
        return "{ %s }" % ", ".join(self.sinit(ft, sc) for _, ft in t[1].fields)

    def assign(self, sc, ind):
        r = self.r
        pad = "  " * ind
        if r.random() < .15 and self.structs:
            st = r.choice(self.structs)
            x = self.access(sc, ("s", st), 1, write=True)
            y = self.access(sc, ("s", st), 1)
            hs = [h for h in self.helpers if h[1] == ("s", st)]
            if hs and r.random() < .5:
                y = self.call(r.choice(hs), 2, sc) or y
            if x and y:
                return pad + "%s = %s;\n" % (x, y)
        for _ in range(6):
            t = self.vtype()
            x = self.access(sc, t, 2, write=True)
            if x:
                break
        else:
            return ""
        b, n = t[1], t[2]
        k = r.random()
        if k < .55:
            return pad + "%s = %s;\n" % (x, self.expr(t, 4, sc))
        if b in FLTS:
            return pad + "%s %s= %s;\n" % (x, r.choice("+-*"), self.expr(t, 2, sc))
        if k < .85:
            ops = ["&", "|", "^", ">>", "<<"] + (["+", "-", "*"] if b[0] == "u" and (SIZE[b] >= 4 or n > 1) else []) + (["+", "-"] if SIZE[b] < 4 and n == 1 else [])
            return pad + "%s %s= %s;\n" % (x, r.choice(ops), self.expr(t, 3, sc))
        if b[0] == "u" or (SIZE[b] < 4 and n == 1):
            return pad + r.choice(["%s++;\n", "%s--;\n", "++%s;\n", "--%s;\n"]) % x
        return pad + "%s = %s;\n" % (x, self.expr(t, 3, sc))

    def block(self, sc, ind, n, inl=False):
        r = self.r
        s = ""
        sc = list(sc)
        for _ in range(n):
            if self.budget < 0:
                break
            s += self.stmt(sc, ind, inl)
        return s

    def stmt(self, sc, ind, inl):
        r = self.r
        pad = "  " * ind
        k = r.random()
        if k < .28:
            return self.decl(sc, ind)
        if k < .62 or ind > 4:
            return self.assign(sc, ind)
        if k < .72:
            s = pad + "if (%s) {\n%s%s}" % (self.cond(2, sc), self.block(sc, ind + 1, r.randint(1, 3), inl), pad)
            if r.random() < .5:
                s += " else {\n%s%s}" % (self.block(sc, ind + 1, r.randint(1, 3), inl), pad)
            return s + "\n"
        if k < .82 and self.loop < 2:
            self.loop += 1
            v = self.name("j")
            n = r.randint(1, 5)
            body = lambda: self.block(sc + [(v, ("v", "int", 1), True)], ind + 1, r.randint(1, 3), True)
            kind = r.choice(["for", "for", "while", "do", "down"])
            lim = str(n) if r.random() < .6 else "(int)(%s & 3) + 1" % self.expr(("v", "uint", 1), 1, sc)
            if kind == "for":
                s = pad + "for (int %s = 0; %s < %s; %s) {\n%s%s}\n" % (v, v, lim, r.choice(["%s++", "++%s", "%s += 1"]) % v, body(), pad)
            elif kind == "down":
                s = pad + "for (int %s = %d; %s > 0; %s--) {\n%s%s}\n" % (v, n, v, v, body(), pad)
            elif kind == "while":
                s = pad + "{ int %s = 0; while (%s++ < %d) {\n%s%s} }\n" % (v, v, n, body(), pad)
            else:
                s = pad + "{ int %s = 0; do {\n%s%s} while (++%s < %d); }\n" % (v, body(), pad, v, n)
            self.loop -= 1
            return s
        if k < .87:
            t = ("v", r.choice(["int", "uint", "long", "uchar", "short", "char", "ulong"]), 1)
            m = r.choice([3, 7, 15])
            s = pad + "switch (%s & %d) {\n" % (self.expr(t, 2, sc), m)
            vals = r.sample(range(m + 1), r.randint(1, min(5, m + 1)))
            dflt = r.randrange(len(vals) + 1) if r.random() < .7 else -1
            for i, x in enumerate(vals + [None]):
                if i == dflt:
                    s += pad + "default: {\n%s%s} %s\n" % (self.block(sc, ind + 1, r.randint(0, 2), False), pad, r.choice(["break;", "break;", ""]))
                if x is not None:
                    s += pad + "case %d: {\n%s%s} %s\n" % (x, self.block(sc, ind + 1, r.randint(0, 2), False), pad, r.choice(["break;", "break;", ""]))
            return s + pad + ";}\n"
        if k < .90 and inl:
            return pad + "if (%s) %s;\n" % (self.cond(1, sc), r.choice(["break", "continue"]))
        if k < .93:
            lb = self.name("L")
            return pad + "if (%s) goto %s;\n%s{\n%s%s}\n%s%s: ;\n" % (self.cond(1, sc), lb, pad, self.block(sc, ind + 1, r.randint(1, 2), False), pad, pad, lb)
        if k < .96 and self.helpers:
            x = self.call(r.choice(self.helpers), 2, sc)
            return pad + "%s;\n" % x if x else ""
        # byte view of a private array or scalar
        c = [(e, et) for e, et, ro in sc if e.isidentifier() and not ro and not e.startswith(("T_", "L_", "j")) and (et[0] == "v" and et[1] in INTS and et[2] != 3)]
        if c:
            e, et = r.choice(c)
            n = SIZE[et[1]] * et[2]
            f = r.choice([x for x in INTS if SIZE[x] <= n and SIZE[x] <= SIZE[et[1]] * et[2]])
            return pad + "((private %s*)&%s)[%d] %s= %s;\n" % (f, e, r.randrange(n // SIZE[f]), r.choice(["", "^", "|"]), self.expr(("v", f, 1), 2, sc))
        return self.assign(sc, ind)

    # ------------------------------------------------------------ program
    def program(self, nk=2):
        r = self.r
        out = []
        for i in range(r.randint(0, 3)):
            fs = []
            for j in range(r.randint(1, 5)):
                k = r.random()
                if k < .6:
                    t = self.vtype()
                elif k < .85 or not self.structs:
                    t = ("a", ("v", self.base(), r.choice([1, 1, 2, 3, 4])), r.choice([1, 2, 4]))
                else:
                    t = ("s", r.choice(self.structs))
                fs.append(("f%d" % j, t))
            self.structs.append(Struct("S%d" % i, fs, False))
        stext = "".join("typedef struct { %s } %s;\n" % (" ".join(tstr(t, n) + ";" for n, t in s.fields), s.name) for s in self.structs)
        gsc = []
        ctext = ""
        for i in range(r.randint(0, 3)):
            b = self.base()
            w = r.choice([1, 1, 1, 2, 4, 3])
            n = r.choice([2, 4, 8])
            nm = "T_%d" % i
            el = lambda: self.lit(b) if w == 1 else "(%s)(%s)" % (vt(b, w), ", ".join(self.lit(b) for _ in range(w)))
            ctext += "constant %s %s[%d] = { %s };\n" % (vt(b, w), nm, n, ", ".join(el() for _ in range(n if r.random() < .8 else 1)))
            gsc.append((nm, ("a", ("v", b, w), n), True))
        if r.random() < .3:
            ctext += 'constant char T_s[] = "Oclgrind\\x01\\xff~tail";\n'
            gsc.append(("T_s", ("a", ("v", "char", 1), 8), True))
        for i in range(r.randint(0, 4)):
            self.helper(i, gsc)
        self.kernels = []
        for i in range(nk):
            self.kernel(i, gsc)
        fi = ""
        for _, f, b, n in sorted(self.used):
            lim = {"char": (-100, 100), "uchar": (0, 200), "short": (-30000, 30000), "ushort": (0, 60000), "int": (-2e9, 2e9), "uint": (0, 4e9), "long": (-9e18, 9e18), "ulong": (0, 1.8e19)}[b]
            if b == "int" and f == "float":
                lim = (-2147483000, 2147483000)
            sfx = "f" if f == "float" else ""
            if n == 1:
                fi += "%s fi_%s_%s1(%s x) { return x > %r%s && x < %r%s ? (%s)x : (%s)0; }\n" % (b, f, b, f, float(lim[0]), sfx, float(lim[1]), sfx, b, b)
            else:
                T, F = vt(b, n), vt(f, n)
                fi += "%s fi_%s_%s%d(%s x) { %s z = (x > (%s)(%r%s)) && (x < (%s)(%r%s)) ? x : (%s)(0); return CONV(%s, z); }\n" % (
                    T, f, b, n, F, F, F, float(lim[0]), sfx, F, float(lim[1]), sfx, F, T)
        drv = ""
        for nm, params in self.kernels:
            drv += "void drv_%s(void **a) { %s(%s); }\n" % (nm, nm, ", ".join(
                "(%s %s%s*)(ulong)a[%d]" % ("local" if pk == "local" else "global", "const " if pk == "in" else "", tstr(pt), i) if pk in ("in", "out", "local") else "*(%s*)a[%d]" % (tstr(pt), i) for i, (pk, pt, pc) in enumerate(params)))
        return COMMON + PRELUDE + stext + ctext + fi + "".join(self.text) + "#ifdef NATIVE\n" + drv + "#endif\n"

    def ptype(self, sc):
        r = self.r
        k = r.random()
        if k < .6:
            return self.vtype()
        if k < .75 and self.structs:
            return ("s", r.choice(self.structs))
        sp = r.choice(["private", "private", "private", "global", "local", "constant"])
        b = ("v", self.base(), r.choice([1, 1, 2, 4]))
        if sp == "private" and self.structs and r.random() < .3:
            return ("p", ("s", r.choice(self.structs)), 1, sp)
        return ("p", b, r.choice([1, 2, 4]), sp)

    def helper(self, i, gsc):
        r = self.r
        ret = ("s", r.choice(self.structs)) if self.structs and r.random() < .2 else self.vtype()
        ps = [self.ptype(gsc) for _ in range(r.randint(1, 4))]
        sc = list(gsc)
        decl = []
        for j, p in enumerate(ps):
            n = "p%d" % j
            if p[0] == "p":
                ro = p[3] in ("constant", "global")
                decl.append("%s%s %s*%s" % (p[3], " const" if p[3] == "global" else "", tstr(p[1]), n))
                sc.append((n, ("p", p[1], p[2], p[3]), ro))
            else:
                decl.append(tstr(p, n))
                sc.append((n, p, False))
        self.budget = 120
        attr = r.choice(["", "", "__attribute__((noinline)) ", "static ", "__attribute__((always_inline)) "])
        if ret[0] == "v":
            sc.append(("rv", ret, False))
            init = "  %s = %s;\n" % (tstr(ret, "rv"), self.expr(ret, 2, sc[:-1]))
        else:
            init = "  %s rv = %s;\n" % (ret[1].name, self.sinit(ret, sc))
            sc.append(("rv", ret, False))
        early = ""
        if r.random() < .4:
            early = "  if (%s) return rv;\n" % self.cond(2, sc)
        self.loop = 1
        body = init + self.block(sc, 1, r.randint(1, 3)) + early + self.block(sc, 1, r.randint(0, 3)) + "  return rv;\n"
        self.loop = 0
        nm = "h%d" % i
        self.text.append("%s%s %s(%s) {\n%s}\n" % (attr, tstr(ret), nm, ", ".join(decl), body))
        self.helpers.append((nm, ret, ps))

    def kernel(self, i, gsc):
        """parameters: in buffers (one element block per item), by-value arguments, then one out buffer per observed variable"""
        r = self.r
        sc = list(gsc)
        params = []
        head = "  size_t gid = get_global_id(0);\n"
        for j in range(r.randint(1, 3)):
            t = ("v", self.base(), r.choice([1, 1, 2, 3, 4, 8])) if r.random() < .8 or not self.structs else ("s", r.choice(self.structs))
            n = r.choice([1, 2, 4])
            params.append(("in", t, n))
            nm = "in%d" % j
            head += "  global const %s *q%d = %s + gid * %d;\n" % (tstr(t), j, nm, n)
            sc.append(("q%d" % j, ("p", t, n, "global"), True))
        for j in range(r.randint(0, 3)):
            t = self.vtype() if r.random() < .7 or not self.structs else ("s", r.choice(self.structs))
            params.append(("val", t, 1))
            sc.append(("a%d" % j, t, False))
        for j in range(r.choice([0, 0, 1, 2])):
            t = ("v", self.base(), r.choice([1, 1, 2, 4]))
            n = r.choice([2, 4])
            if r.random() < .5:
                params.append(("local", t, n))
                nm = "l%d" % j
            else:
                nm = "lv%d" % j
                head += "#ifdef NATIVE\n  static %s[8];\n#else\n  local %s[8];\n#endif\n" % (tstr(("a", t, n), nm + "x").replace("[%d]" % n, "") + "[%d]" % n if False else tstr(t, nm + "x"), tstr(t, nm + "x")) if False else \
                    "  local %s %sx[8 * %d];\n  local %s *%s = %sx;\n" % (tstr(t), nm, n, tstr(t), nm, nm)
            head += "  local %s *L_%d = %s + get_local_id(0) * %d;\n  for (uint i = 0; i < %d; i++) L_%d[i] = %s;\n" % (
                tstr(t), j, nm, n, n, j, self.expr(t, 1, sc))
            sc.append(("L_%d" % j, ("p", t, n, "local"), False))
        self.budget = 420
        body = ""
        # variables whose final values are observed
        obs = []
        for j in range(r.randint(2, 6)):
            t = self.vtype() if r.random() < .8 or not self.structs else ("s", r.choice(self.structs))
            nm = "o%d" % j
            body += "  %s = %s;\n" % (tstr(t, nm), self.expr(t, 2, sc) if t[0] == "v" else self.sinit(t, sc))
            sc.append((nm, t, False))
            obs.append((nm, t))
        body += self.block(sc, 1, r.randint(5, 14))
        for nm, t in obs:
            if t[0] == "v":
                body += "  %s = %s;\n" % (nm, self.expr(t, 4, sc)) if r.random() < .5 else ""
            params.append(("out", t, 1))
            body += "  out_%s[gid] = %s;\n" % (nm, nm)
        decl, ji, jv, jl, jo = [], 0, 0, 0, 0
        lnames = [h for h in range(9)]
        li = 0
        for pk, t, n in params:
            if pk == "in":
                decl.append("global const %s *in%d" % (tstr(t), ji))
                ji += 1
            elif pk == "val":
                decl.append(tstr(t, "a%d" % jv))
                jv += 1
            elif pk == "out":
                decl.append("global %s *out_%s" % (tstr(t), obs[jo][0]))
                jo += 1
            else:
                decl.append(None)
        # local pointer parameters keep the names used in the head
        import re
        ln = [m.group(1) for m in re.finditer(r"= (l\d+) \+ get_local_id", head)]
        for x, (pk, t, n) in enumerate(params):
            if pk == "local":
                decl[x] = "local %s *%s" % (tstr(t), ln[li])
                li += 1
        nm = "k%d" % i
        self.text.append("KERNEL void %s(%s) {\n%s%s}\n" % (nm, ", ".join(decl), head, body))
        self.kernels.append((nm, params))
