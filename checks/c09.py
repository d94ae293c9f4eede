"""C09: exact taint expectations for generated kernels and host histories against the uninitialised-value reports."""
import ctypes as ct, os, random, re
import numpy as np
import foreign as fgn
from ocl import Ctx, Lib, Local, C, CLError, sizes

PROP = "C09"
RULE = ("chain cases: a value taken from partly initialised private, local, global or constant memory flows through a random chain of operations (arithmetic, vectors, shuffles, structures, functions, loops, memory, "
        "pointer built-ins, atomics, asynchronous copies) into a sink, work-items choose by input data whether the initialised part is used: the set of reported work-items must equal the set computed by taint "
        "propagation over the generated operations; host cases: random histories of creations, writes, rectangles, fills, copies, mappings, sub-buffers, releases and kernel writes, then every element is read by one "
        "work-item and exactly those with a byte that nothing wrote are reported; clean cases: kernels of the other checks with initialised memory must not be reported; non-trivial = distinct source, step and sink kinds")
ASSUMPTIONS = ["a call of a built-in function with an uninitialised argument counts as a use (the simulator reports it there)",
               "shifts and masks that discard all uninitialised bits are not used in the chains"]
VARIANT = "rel"
CASE_TIMEOUT = 120
INT = ["char", "uchar", "short", "ushort", "int", "uint", "long", "ulong"]
ALL = INT + ["float", "double"]
SZ = dict(char=1, uchar=1, short=2, ushort=2, int=4, uint=4, long=8, ulong=8, float=4, double=8)
FOREIGN = {"c01": 60, "c02": 60, "c03": 60, "c05": 60, "c12": 20, "c13": 20, "c14": 60, "c18": 20}


def cases(rng, tier):
    f = 1 if tier == "quick" else 30
    out = [dict(k="chain", seed=rng.randrange(1 << 30)) for _ in range(2200 * f)]
    out += [dict(k="host", seed=rng.randrange(1 << 30)) for _ in range(700 * f)]
    out += [dict(k="structsink"), dict(k="padcopy")]
    import importlib
    for m, n in FOREIGN.items():
        cs = importlib.import_module(m).cases(rng, "quick")
        out += [dict(k="clean", mod=m, case=c, threads=rng.choice([1, 1, 2, 4])) for c in rng.sample(cs, min(n * f, len(cs)))]
    rng.shuffle(out)
    return out


class W:
    pass


def setup_worker(env):
    w = W()
    w.env = env
    w.wd = env["wd"]
    w.L = Lib(env["build"])
    w.L.err = ct.c_int32()
    return w


def run_case(w, c):
    return dict(chain=chain, host=host, clean=clean, structsink=structsink, padcopy=padcopy)[c["k"]](w, c)


def reports(L):
    """-> {global id: [kinds]} of the uninitialised-value messages, and the other messages"""
    rep, other = {}, []
    for ty, m in L.mon.logs():
        g = re.search(r"Entity: Global\((\d+),0,0\)", m)
        if re.match(r"Uninitialized (value|address)|Controlflow depends on uninit|Instruction depends on an uninit", m) and g:
            rep.setdefault(int(g.group(1)), []).append(m)
        elif ty >= 2:
            other.append(m)
    return rep, other


# ---- clean kernels of the other checks

PADCOPY = re.compile(r"store (i(16|32|64|128) %|.* %\S*(copyload|sroa)).*\n.*\n\s*\w+\[gid\] = \w+;")


def clean(w, c):
    if c["mod"] == "c05" and c["case"].get("which") == "asyncout":
        return dict(violations=[], nontrivial=[], stats={}, evals=0, sample=None)  # copies local memory that nothing wrote
    r, text = fgn.run(w, c["mod"], c["case"], {"UNINITIALIZED": 1}, c["threads"])
    v = []
    # an optimised copy of a structure includes its padding (kind "padcopy")
    reps = [m for m in re.finditer(r".*[uU]ninitialized (value|address|index).*(\n.*){0,5}", text) if not (c["mod"] == "c01" and PADCOPY.search(m.group(0)))]
    m = reps[0] if reps else None
    if m:
        v.append(("clean:%s" % re.sub(r"0x[0-9a-f]+", "#", m.group(0).split("\n")[0]), "%s: report for a kernel that only uses initialised values: %s" % (c["mod"], m.group(0)[:600])))
    m = re.search(r".*OCLGRIND FATAL.*(\n.*){0,3}", text)
    if m:
        v.append(("clean:fatal:%s" % m.group(0).split("\n")[1][:60], "%s: the analysis fails: %s" % (c["mod"], m.group(0)[:500])))
    for k, t in r.get("violations") or []:
        if k.startswith("diagnostic:Uninit") and not reps:
            continue
        v.append(("clean:%s:%s" % (c["mod"], k), "with the analysis: " + t))
    out = dict(violations=v, nontrivial=["clean " + c["mod"]], stats={"clean " + c["mod"]: 1}, evals=r.get("evals", 1), sample=dict(kind="clean", mod=c["mod"]))
    if r.get("machinery"):
        out["machinery"] = r["machinery"]
    return out


# ---- chains

class G:
    """builds one kernel and the taint of the value v for every work-item"""

    def __init__(self, r, sel, opt):
        self.r, self.sel, self.n, self.opt = r, sel, len(sel), opt
        self.pre, self.body, self.kinds, self.noisy = [], [], [], False
        self.uid = 0
        self.bit = 4  # sel bits 0-1 choose the source element
        self.T = None
        self.W = 1
        self.taint = [False] * self.n
        self.rep = [False] * self.n
        self.pending = [False] * self.n

    def new(self, p="t"):
        self.uid += 1
        return "%s%d" % (p, self.uid)

    def vt(self, T=None, W=None):
        T, W = T or self.T, W or self.W
        return T + (str(W) if W > 1 else "")

    def bits(self, k):
        """k fresh bits of the work-item's selector -> (expression, values)"""
        b = self.bit
        self.bit += k
        if self.bit > 31:
            self.bit = 4
            b = 4
            self.bit += k
        return "((s >> %d) & %d)" % (b, (1 << k) - 1), [(x >> b) & ((1 << k) - 1) for x in self.sel]

    def clean_val(self, T=None, W=None):
        T, W = T or self.T, W or self.W
        if W == 1:
            return self.r.choice(["(%s)in[i]" % T, "(%s)%d" % (T, self.r.randint(1, 9)), "(%s)(in[(i + 1) %% n] + %d)" % (T, self.r.randint(1, 3))])
        return "(%s)(%s)" % (self.vt(T, W), ", ".join(self.clean_val(T, 1) for _ in range(W)))

    def add(self, s):
        self.body.append(s)

    def flow(self, t):
        self.taint = t

    def maybe(self):
        """the value is stored here, unless the compiler finds that nothing needs it"""
        if self.opt:
            self.use()
        else:
            self.pending = [a or b for a, b in zip(self.taint, self.pending)]

    def assumed(self):
        """the optimiser assumes that arguments and results of functions are initialised, and then uses them early"""
        if not self.opt:
            self.pending = [a or b for a, b in zip(self.taint, self.pending)]

    def use(self):
        self.rep = [a or b for a, b in zip(self.rep, self.taint)]

    # -- sources: v of type T (scalar) --
    def source(self):
        r = self.r
        T = self.T = r.choice(ALL)
        k = r.choice(["priv", "priv", "local", "localvar", "global", "global", "constant", "struct", "vecelem", "vload", "async", "half", "atomic", "ptr", "nested", "vload3"] + (["var"] * 2 if self.opt else []))
        self.kinds.append("src:" + k)
        t = [(x & 3) >= 2 for x in self.sel]
        S, c = "(s & 3)", self.clean_val
        if k == "priv":
            self.add("%s arr[4]; arr[0] = %s; arr[1] = %s; %s v = arr[%s];" % (T, c(), c(), T, S))
        elif k == "ptr":
            self.pre.append("void setp(%s *p, int k, %s x) { p[k] = x; }" % (T, T))
            self.add("%s arr[4]; setp(arr, 0, %s); setp(arr, 1, %s); %s v = arr[%s];" % (T, c(), c(), T, S))
        elif k == "nested":
            self.add("struct { short h; struct { char c; %s a[2]; } q[2]; } ns; ns.q[0].a[0] = %s; ns.q[0].a[1] = %s; %s v = ns.q[%s >> 1].a[%s & 1];" % (T, c(), c(), T, S, S))
        elif k == "local":
            self.add("local %s *lp = (local %s *)(loc + get_local_id(0) * 32); lp[0] = %s; lp[1] = %s; %s v = lp[%s];" % (T, T, c(), c(), T, S))
        elif k == "localvar":
            self.add("local %s lv[64]; lv[get_local_id(0) * 4] = %s; lv[get_local_id(0) * 4 + 1] = %s; barrier(CLK_LOCAL_MEM_FENCE); %s v = lv[get_local_id(0) * 4 + %s];" % (T, c(), c(), T, S))
        elif k == "global":
            self.add("%s v = ((global const %s *)(src + i * 32))[%s];" % (T, T, S))
            self.half = SZ[T] * 2
        elif k == "constant":
            self.add("%s v = ((constant const %s *)(csrc + i * 32))[%s];" % (T, T, S))
            self.half = SZ[T] * 2
        elif k == "struct":
            self.add("struct { char c; %s a; %s b; } x[2]; x[0].a = %s; x[0].b = %s; %s v = %s & 1 ? x[%s >> 1].a : x[%s >> 1].b;" % (T, T, c(), c(), T, S, S, S))
        elif k == "vecelem":
            self.add("%s4 vv; vv.xy = (%s2)(%s, %s); %s v = ((%s *)&vv)[%s];" % (T, T, c(), c(), T, T, S))
        elif k == "vload":
            self.add("%s4 ld = vload4(0, (global const %s *)(src + i * 32)); %s v = %s == 0 ? ld.x : %s == 1 ? ld.y : %s == 2 ? ld.z : ld.w;" % (T, T, T, S, S, S))
            self.half = SZ[T] * 2
        elif k == "vload3":
            self.add("%s3 ld = vload3(0, (global const %s *)(src + i * 32) + (%s >> 1)); %s v = %s >> 1 ? ld.z : %s & 1 ? ld.x : ld.y;" % (T, T, S, T, S, S))
            self.half = SZ[T] * 3 if self.r.random() < 2 else 0
            t = [(x & 3) >> 1 == 1 for x in self.sel]
        elif k == "async":
            # group of four work-items: 4 * 4 elements, the last two of each work-item are not written
            self.add("local %s la[64]; event_t e = async_work_group_copy(la, (global const %s *)(src + (i - get_local_id(0)) * 32), 4 * (32 / %d), 0); wait_group_events(1, &e); %s v = la[get_local_id(0) * %d + %s];" % (T, T, SZ[T], T, 32 // SZ[T], S))
            self.rep = [True] * self.n  # the copy stores uninitialised values to local memory
            self.noisy = True
            if SZ[T] < 2:
                self.body[-1] = self.body[-1].replace("la[64]", "la[128]")
            self.half = SZ[T] * 2
        elif k == "half":
            self.T = T = "float"
            self.add("float v = vload_half(%s, (global const half *)(src + i * 32));" % S)
            self.half = 4
        elif k == "atomic":
            self.T = T = "int"
            f = r.choice(["atomic_add(p, 1)", "atomic_inc(p)", "atomic_xchg(p, 5)", "atomic_or(p, 3)", "atomic_max(p, 2)", "atomic_cmpxchg(p, 1, 2)", "atom_add(p, 1)", "atom_xchg(p, 4)", "atom_dec(p)", "atom_cmpxchg(p, 1, 7)"])
            if r.random() < .5:
                self.add("volatile local int *p = (local int *)(loc + get_local_id(0) * 32); p[0] = 1; p[1] = 1; p += %s; int v = %s;" % (S, f))
            else:
                self.add("volatile global int *p = (global int *)(src + i * 32); p += %s; int v = %s;" % (S, f))
            self.half = 8
            self.noisy = True
            if not re.search("xchg|cmp", f):
                self.rep = list(t)  # the modified value is written back
        elif k == "var":
            self.add("%s v; if (%s < 2) v = %s;" % (T, S, c()))
        self.taint = t

    # -- steps --
    def step(self):
        r = self.r
        names = ["arith", "arith", "roundtrip", "condpick", "ternary", "structcopy", "func", "funcp", "accum", "swap", "vecbuild", "lanepick", "localtrip", "external", "loopmem", "switchpick", "memcpy", "byval"]
        if self.W == 1:
            names += ["cast", "cast", "shuffle", "shuffle2", "select", "vstore", "shl", "bitcast", "dynlane", "insdyn"]
            if self.T in ("float", "double"):
                names += ["modf", "modf", "frexp", "remquo", "modfv", "frexpv"]
            if self.T == "float":
                names += ["half", "halfa"]
            if self.T in ("char", "short", "int", "long"):
                names += ["any"]
            if self.T in ("int", "uint"):
                names += ["cmpxchg"]
            if self.opt:
                names += ["recall"]
            if self.T in ("int", "uint", "long", "ulong"):
                names += ["atomtrip"]
        k = r.choice(names)
        self.kinds.append(k)
        T, V, c, t = self.T, self.vt(), self.clean_val, self.taint
        flt = T in ("float", "double")
        x = self.new()
        if k == "arith":
            op = r.choice(["v + Q", "v - Q", "Q - v", "v * (V)3", "-v", "v + v", "(v + Q) * (v - Q)"] + (["v / Q"] if flt else ["v ^ Q", "~v", "Q + (v ^ Q)"] + (["v / (V)3", "v % (V)7"] if self.opt else [])))  # optimised: "freeze" makes v / 3 * 3 initialised
            self.add("v = (%s)(%s);" % (V, op.replace("Q", "(%s)(%s)" % (V, c()) if self.W == 1 else c()).replace("V", V)))
        elif k == "roundtrip":
            e, b = self.bits(2)
            self.add("%s %s[4]; %s[0] = %s; %s[1] = v; %s[2] = %s; %s[3] = v; v = %s[%s];" % (V, x, x, c(), x, x, c(), x, x, e))
            self.flow([a and (y & 1) == 1 for a, y in zip(t, b)])
        elif k == "condpick":
            e, b = self.bits(1)
            self.add("%s %s = %s; if (%s) %s = v; v = %s;" % (V, x, c(), e, x, x))
            self.flow([a and y == 1 for a, y in zip(t, b)])
        elif k == "ternary":
            e, b = self.bits(1)
            self.add("v = %s ? v : %s;" % (e, c()))
            self.flow([a and y == 1 for a, y in zip(t, b)])
        elif k == "switchpick":
            e, b = self.bits(2)
            self.add("switch (%s) { case 0: v = %s; break; case 1: v = %s; break; case 3: break; default: v = %s; }" % (e, c(), "v + v" if flt or self.W > 1 else "v + 1", c()))
            self.flow([a and y in (1, 3) for a, y in zip(t, b)])
        elif k == "structcopy":
            e, b = self.bits(1)
            y = self.new()
            self.add("struct { char c; %s a; short h; %s b; } %s, %s; %s.c = 1; %s.h = 2; %s.a = v; %s.b = %s; %s = %s; v = %s ? %s.a : %s.b;" % (V, V, x, y, x, x, x, x, c(), y, x, e, y, y))
            self.flow([a and z == 1 for a, z in zip(t, b)])
        elif k == "memcpy":
            e, b = self.bits(2)
            y = self.new()
            self.pre.append("typedef struct { %s a[9]; } M%s;" % (V, x))
            self.add("M%s %s, %s; for (int j = 0; j < 9; j++) %s.a[j] = %s; %s.a[%s] = v; %s = %s; v = %s.a[1];" % (x, x, y, x, c(), x, e, y, x, y))
            self.flow([a and z == 1 for a, z in zip(t, b)])
        elif k == "byval":
            e, b = self.bits(1)
            self.assumed()
            self.pre.append("typedef struct { int k; %s a[6]; char z; } B%s; __attribute__((noinline)) %s bv%s(B%s q, int k) { q.k++; return q.a[k]; }" % (V, x, V, x, x))
            self.add("B%s %s; %s.k = 1; %s.z = 2; for (int j = 0; j < 6; j++) %s.a[j] = %s; %s.a[3] = v; v = bv%s(%s, %s + 2);" % (x, x, x, x, x, c(), x, x, x, e))
            self.flow([a and z == 1 for a, z in zip(t, b)])
        elif k == "func":
            ni = r.choice(["", "__attribute__((noinline)) "])
            self.pre.append("%s%s fn%s(%s a, %s b, int k) { return k ? a : b; }" % (ni, V, x, V, V))
            e, b = self.bits(1)
            if ni:
                self.assumed()
            self.add("v = fn%s(v, %s, %s);" % (x, c(), e))
            self.flow([a and y == 1 for a, y in zip(t, b)])
        elif k == "funcp":
            ni = r.choice(["", "__attribute__((noinline)) "])
            self.pre.append("%svoid fp%s(%s *a, %s b) { a[1] = b; }" % (ni, x, V, V))
            if ni:
                self.assumed()
            self.add("%s %s[2]; %s[0] = %s; fp%s(%s, v); v = %s[1];" % (V, x, x, c(), x, x, x))
        elif k == "accum":
            e, b = self.bits(2)
            f = "%s * (%s)0.5%s + v" % (x, V, "f" if T == "float" else "") if flt else "(%s)((%s * %s) ^ v)" % (V, x, x)
            self.add("%s %s = %s; for (int j = 0; j < %s; j++) %s = %s; v = %s;" % (V, x, c(), e, x, f, x))
            self.flow([a and y > 0 for a, y in zip(t, b)])
        elif k == "swap":
            e, b = self.bits(2)
            y, z = self.new(), self.new()
            three = r.random() < .5
            if three:
                w = self.new()
                self.add("%s %s = v, %s = %s, %s = %s; for (int j = 0; j < %s; j++) { %s %s = %s; %s = %s; %s = %s; %s = %s; } v = %s;" % (V, x, y, c(), w, c(), e, V, z, x, x, y, y, w, w, z, x))
                self.flow([a and q % 3 == 0 for a, q in zip(t, b)])
            else:
                self.add("%s %s = v, %s = %s; for (int j = 0; j < %s; j++) { %s %s = %s; %s = %s; %s = %s; } v = %s;" % (V, x, y, c(), e, V, z, x, x, y, y, z, x))
                self.flow([a and q % 2 == 0 for a, q in zip(t, b)])
        elif k == "loopmem":
            e, b = self.bits(2)
            self.add("%s %s[4]; for (int j = 0; j < 4; j++) %s[j] = j == %s ? v : %s; v = %s[2];" % (V, x, x, e, c(), x))
            self.flow([a and y == 2 for a, y in zip(t, b)])
        elif k == "vecbuild":
            if self.W == 1:
                n = r.choice([2, 3, 4, 8, 16])
                p = r.randrange(n)
                self.add("%s%d %s = (%s%d)(%s);" % (T, n, x, T, n, ", ".join("v" if j == p else c(T, 1) for j in range(n))))
                ops = r.choice(["", "X = X + X;", "X = X.%s;" % "".join("xyzw"[j] for j in range(n)) if n <= 4 else ""])
                self.add(ops.replace("X", x))
                self.add("v = %s.s%x;" % (x, p))
            else:
                # widen or narrow through swizzles
                p = r.randrange(self.W)
                self.add("%s %s = v.s%x;" % (T, x, p))
                self.rename(x, 1)
        elif k == "lanepick":
            n = r.choice([2, 3, 4, 8])
            if self.W == 1:
                lanes = [r.random() < .5 for _ in range(n)]
                q = r.randrange(n)
                self.add("%s%d %s = (%s%d)(%s);" % (T, n, x, T, n, ", ".join("v" if l else c(T, 1) for l in lanes)))
                y = self.new()
                m = r.choice(["%s", "%s + (V)(1)", "-%s", "%s * %s", "(V)(%s)"]).replace("%s", x).replace("V", "%s%d" % (T, n))
                self.add("%s%d %s = %s; v = %s.s%x;" % (T, n, y, m, y, q))
                if not lanes[q]:
                    self.flow([False] * self.n)
        elif k == "dynlane":
            e, b = self.bits(2)
            self.add("%s4 %s = (%s4)(%s, v, %s, v); v = %s[%s];" % (T, x, T, c(), c(), x, e))
            self.flow([a and y & 1 == 1 for a, y in zip(t, b)])
        elif k == "insdyn":
            e, b = self.bits(2)
            self.add("%s4 %s = (%s4)(%s); %s[%s] = v; v = %s.z;" % (T, x, T, c(), x, e, x))
            self.flow([a and y == 2 for a, y in zip(t, b)])
        elif k == "localtrip":
            if "localtrip" in self.kinds[:-1]:
                return
            self.add("local %s %s[16]; %s[get_local_id(0)] = v; barrier(CLK_LOCAL_MEM_FENCE); v = %s[get_local_id(0)];" % (V, x, x, x))
            self.maybe()
            self.noisy = True
        elif k == "atomtrip":
            f, o = r.choice([("atom_xchg", "atom_add"), ("atomic_xchg", "atomic_sub"), ("atom_xchg", "atom_or")])
            if T in ("long", "ulong"):
                f, o = "atom_xchg", o.replace("atomic", "atom").replace("atom_sub", "atom_sub")
            self.add("volatile local %s %s[16]; %s[get_local_id(0)] = 1; %s(&%s[get_local_id(0)], v); v = %s(&%s[get_local_id(0)], 1);" % (T, x, x, f, x, o, x))
            self.use()
            self.noisy = True
        elif k == "external":
            f = ["sin(v)", "fmax(v, Q)", "sqrt(v)", "mad(v, Q, Q)", "clamp(v, Q, Q)"] if flt else ["max(v, Q)", "mul_hi(v, Q)", "rotate(v, Q)", "add_sat(v, Q)", "popcount(v)", "clz(v)"]
            self.add("v = %s;" % r.choice(f).replace("Q", "(%s)(%s)" % (V, c()) if self.W == 1 else c()))
            # some of these become plain instructions: both readings report if the value is used
            self.noisy = True
            self.pending = [a or b for a, b in zip(self.taint, self.pending)]
        elif k == "cast":
            N = r.choice(ALL)
            y = r.choice(["(%s)v" % N, "(%s)(%s)v" % (N, r.choice(["long", "double", "int", "short"]))])
            if N in ("float", "double"):
                y += " - (%s)in[i]" % N  # otherwise the sign is known and comparisons fold
            self.add("%s %s = %s;" % (N, x, y))
            self.T = N
            self.rename(x, 1)
        elif k == "bitcast":
            N = r.choice([q for q in ALL if SZ[q] == SZ[T]])
            self.add("%s %s = as_%s(v);" % (N, x, N))
            self.T = N
            self.rename(x, 1)
        elif k == "shl" and not flt:
            self.add("v = (%s)((v %s %d) ^ v);" % (T, r.choice(["<<", ">>"]), r.randint(1, 3)))
        elif k == "select":
            e, b = self.bits(1)
            U = {1: "char", 2: "short", 4: "int", 8: "long"}[SZ[T]]
            if r.random() < .5:
                self.add("v = select(%s, v, (%s)%s);" % (c(), U, e))
            else:
                self.add("v = select((%s2)(%s, %s), (%s2)(%s, v), (%s2)(0, (%s)-%s)).y;" % (T, c(), c(), T, c(), U, U, e))
            self.flow([a and y == 1 for a, y in zip(t, b)])
        elif k in ("shuffle", "shuffle2"):
            e, b = self.bits(2)
            U = {1: "uchar", 2: "ushort", 4: "uint", 8: "ulong"}[SZ[T]]
            if k == "shuffle" and r.random() < .5:
                m, o, q = r.choice([8, 16]), r.choice([2, 4]), r.randrange(2)
                lanes = [r.random() < .5 for _ in range(m)]
                a = r.randrange(m - 3)
                self.add("v = shuffle((%s%d)(%s), (%s%d)(%s)).s%d;" % (T, m, ", ".join("v" if l else c() for l in lanes), U, o, ", ".join("(%s)(%d + %s)" % (U, a + r.choice([0, m]), e) if j == q else "1" for j in range(o)), q))
                self.flow([z and lanes[a + y] for z, y in zip(t, b)])
            elif k == "shuffle":
                self.add("v = shuffle((%s4)(%s, v, %s, v), (%s2)(0, (%s)%s)).y;" % (T, c(), c(), U, U, e))
                self.flow([a and y & 1 == 1 for a, y in zip(t, b)])
            else:
                self.add("v = shuffle2((%s2)(%s, v), (%s2)(%s, %s), (%s4)(0, (%s)%s, 1, 2)).y;" % (T, c(), T, c(), c(), U, U, e))
                self.flow([a and y == 1 for a, y in zip(t, b)])
        elif k == "vstore":
            n = r.choice([2, 3, 4])
            p = r.randrange(n)
            e, b = self.bits(1)
            self.add("%s %s[8]; for (int j = 0; j < 8; j++) %s[j] = %s; vstore%d((%s%d)(%s), %s, %s); v = %s[%d];" % (
                T, x, x, c(), n, T, n, ", ".join("v" if j == p else c() for j in range(n)), e, x, x, n + p))
            self.flow([a and y == 1 for a, y in zip(t, b)])
        elif k == "half":
            n = r.choice([1, 2, 4])
            y = self.new()
            p = r.randrange(n)
            e, b = self.bits(1)
            q = p if n == 1 else r.randrange(n)
            val = "v" if n == 1 else "(float%d)(%s)" % (n, ", ".join("v" if j == p else c() for j in range(n)))
            sfx = "" if n == 1 else str(n)
            self.add("ushort %s_[8]; half *%s = (half *)%s_; for (int j = 0; j < 8; j++) vstore_half(%s, j, %s); vstore_half%s(%s, %s, %s); v = vload_half(%d, %s);" % (x, x, x, c(), x, sfx, val, e, x, n + q, x))
            self.flow([a and z == 1 and q == p for a, z in zip(t, b)])
        elif k == "halfa":
            n = r.choice([2, 3, 3, 4])
            y = self.new()
            p, q = r.randrange(n), r.randrange(n)
            e, b = self.bits(1)
            st = n + (n == 3)
            self.add("ushort %s_[8]; half *%s = (half *)%s_; for (int j = 0; j < 8; j++) vstore_half(%s, j, %s); vstorea_half%d((float%d)(%s), %s, %s); v = %s;" % (
                x, x, x, c(), x, n, n, ", ".join("v" if j == p else c() for j in range(n)), e, x, r.choice(["vload_half(%d, %s)" % (st + q, x), "vloada_half%d(1, %s).s%d" % (n, x, q)])))
            self.flow([a and z == 1 and q == p for a, z in zip(t, b)])
        elif k == "any":
            e, b = self.bits(1)
            self.add("v = (%s)any((%s4)(1, v, (%s)(%s ? -1 : 1), 2));" % (T, T, T, e))
            self.flow([a and z == 0 for a, z in zip(t, b)])
        elif k == "cmpxchg":
            e, b = self.bits(1)
            self.add("volatile local %s %s[16]; %s[get_local_id(0)] = 1; atomic_cmpxchg(&%s[get_local_id(0)], (%s)(1 + %s), v); v = %s[get_local_id(0)];" % (T, x, x, x, T, e, x))
            self.flow([a and z == 0 for a, z in zip(t, b)])
            self.use()
            self.noisy = True
        elif k == "recall":
            e, b = self.bits(1)
            self.pre.append("__attribute__((noinline)) %s rc%s(int k, %s a) { char pad; %s b[3]; pad = k; if (k) b[1] = a; return b[pad & 1 ? 1 : 1]; }" % (V, x, V, V))
            self.add("rc%s(1, %s); v = rc%s(%s, v);" % (x, c(), x, e))
            self.flow([a or z == 0 for a, z in zip(t, b)])
        elif k == "modf":
            f = r.choice(["modf", "fract", "sincos"])
            e, b = self.bits(1)
            self.add("%s %s; %s %s_r = %s(v, &%s); v = %s ? %s : %s_r;" % (T, x, T, x, f, x, e, x, x))
        elif k == "modfv":
            f = r.choice(["modf", "fract", "sincos"])
            n = r.choice([2, 3, 4])
            p, q = r.randrange(n), r.randrange(n)
            e, b = self.bits(1)
            self.add("%s%d %s; %s%d %s_r = %s((%s%d)(%s), &%s); v = %s ? %s.s%d : %s_r.s%d;" % (T, n, x, T, n, x, f, T, n, ", ".join("v" if j == p else c() for j in range(n)), x, e, x, q, x, q))
            if p != q:
                self.flow([False] * self.n)
        elif k in ("frexp", "remquo"):
            e, b = self.bits(1)
            call = r.choice(["frexp(v, &@)", "lgamma_r(v, &@)"]) if k == "frexp" else "remquo(v, %s, &@)" % c()
            self.add("int %s; %s %s_r = %s; v = %s ? (%s)%s : %s_r;" % (x, T, x, call.replace("@", x), e, T, x, x))
        elif k == "frexpv":
            n = r.choice([2, 4])
            p, q = r.randrange(n), r.randrange(n)
            e, b = self.bits(1)
            f = r.choice(["frexp(A, &%s)", "remquo(A, A, &%s)", "lgamma_r(A, &%s)"])
            A = "(%s%d)(%s)" % (T, n, ", ".join("v" if j == p else c() for j in range(n)))
            self.add("int%d %s; %s%d %s_r = %s; v = %s ? (%s)%s.s%d : %s_r.s%d;" % (n, x, T, n, x, (f % x).replace("A", A), e, T, x, q, x, q))
            if p != q:
                self.flow([False] * self.n)

    def rename(self, x, W):
        """the value is now called x: continue in a block where v names it"""
        self.W = W
        self.add("{ %s v = %s;" % (self.vt(), x))
        self.depth = getattr(self, "depth", 0) + 1

    def sink(self):
        r = self.r
        T = self.T
        flt = T in ("float", "double")
        k = r.choice(["store", "store", "vstore", "if", "switch", "loop", "addrr", "addrw", "atomic", "atomicaddr", "while", "printf", "storelane"])
        self.kinds.append("sink:" + k)
        iv = "((int)(v ^ (v >> 3) ^ (v >> 6)) & 3)" if not flt else "((int)(v * 0.125%s) & 3)" % ("f" if T == "float" else "")
        if k == "store":
            self.add("((global %s *)(out + i * 128))[1] = v;" % T)
        elif k == "vstore":
            self.add("vstore2((%s2)(%s, v), 0, (global %s *)(out + i * 128));" % (T, self.clean_val(), T))
        elif k == "storelane":
            self.add("((global %s4 *)(out + i * 128))->z = v;" % T)
        elif k == "if":
            self.add("if (v > (%s)3) { out[i * 128] = 1; aux[i] += 3; } else out[i * 128 + 1] = 2;" % T)
        elif k == "switch":
            self.add("switch (%s) { case 0: out[i * 128] = 1; break; case 1: out[i * 128 + 5] = 7; break; case 2: aux[i] = 3; break; default: out[i * 128 + 9] = 1; }" % iv)
        elif k == "loop":
            self.add("for (int j = 0; j < %s; j++) out[i * 128 + j] = j;" % iv)
        elif k == "while":
            self.add("int q = %s; do { out[i * 128 + (q & 7)] = 1; q += 3; } while (q < 9);" % iv)
        elif k == "addrr":
            self.add("aux[i] = aux[n + %s];" % iv)
        elif k == "addrw":
            self.add("out[i * 128 + %s] = 1;" % iv)
        elif k == "atomic":
            self.add("atomic_add(&aux[i], (int)(%s));" % iv)
        elif k == "atomicaddr":
            f = r.choice(["atomic_add(p, 1)", "atomic_inc(p)", "atomic_xchg(p, 5)", "atomic_cmpxchg(p, 1, 2)"])
            self.add("volatile global int *ap = &aux[n + %s]; %s;" % (iv, f.replace("(p", "(ap")))
        elif k == "printf":
            self.add('printf("%%d\\n", (int)%s);' % iv)
            self.noisy = True
        self.use()
        return k


MSG = {"store": "Uninitialized value written to global", "vstore": "Uninitialized value written to global", "if": "Controlflow", "switch": "Controlflow", "loop": "Controlflow", "addrr": "Uninitialized address used to read from global",
       "addrw": "Uninitialized address used to write to global", "atomicaddr": "Uninitialized address used to write to global"}


def chain(w, c):
    L = w.L
    r = random.Random(c["seed"])
    opt = r.random() < .4
    ls = 4
    n = ls * r.randint(2, 6)
    sel = [r.getrandbits(31) for _ in range(n)]
    if r.random() < .15:
        sel = [s & ~2 for s in sel]  # nothing uninitialised is used
    g = G(r, sel, opt)
    g.half = 0
    g.source()
    for _ in range(r.randint(0, 6)):
        g.step()
    while g.W > 1:
        g.add("%s sc = v.s0;" % g.T)
        g.rename("sc", 1)
    k = g.sink()
    pre = "#pragma OPENCL EXTENSION cl_khr_fp64 : enable\n#pragma OPENCL EXTENSION cl_khr_int64_base_atomics : enable\n#pragma OPENCL EXTENSION cl_khr_int64_extended_atomics : enable\n"
    src = pre + "\n".join(g.pre) + "\nkernel void k(global const int *sel, global const uchar *in, global uchar *src, constant uchar *csrc, global uchar *out, local uchar *loc, global int *aux, uint n) {\n  size_t i = get_global_id(0); int s = sel[i];\n  " + \
        "\n  ".join(g.body) + "}" * getattr(g, "depth", 0) + "\n}\n"
    # local variables must be declared at function scope
    opts = "-cl-opt-disable" if opt else r.choice(["", "", "-O1", "-O2", "-O3"])
    src = hoist(src)
    X = Ctx(L, {"UNINITIALIZED": 1, "NUM_THREADS": r.choice([1, 1, 2, 4])})
    v = []
    try:
        try:
            P = X.program(src, opts)
        except CLError as e:
            return dict(machinery="generated kernel does not build (seed %d): %s\n%s" % (c["seed"], str(e)[:800], src))
        K = X.kernel(P, "k")
        data = np.array([[r.randint(1, 100) for _ in range(32)] for _ in range(n)], np.uint8)
        sb, cb = X.buffer(size=n * 32 + 64), X.buffer(size=n * 32 + 64, flags=C["CL_MEM_READ_ONLY"])
        if g.half:
            for b in (sb, cb):
                for i in range(n):
                    X.write(b, data[i][:g.half], i * 32)
        out = X.buffer(size=n * 128)
        X.args(K, X.buffer(np.array(sel, np.int32)), X.buffer(data[:, 0].copy()), sb, cb, out, Local(ls * 32), X.buffer(np.ones(n + 8, np.int32)), np.uint32(n))
        L.mon.mask("log")
        L.mon.clear()
        save = os.dup(1)
        dn = os.open("/dev/null", os.O_WRONLY)
        os.dup2(dn, 1)
        try:
            X.launch(K, (n,), (ls,))
        finally:
            w.L.libc_flush() if hasattr(w.L, "libc_flush") else ct.CDLL(None).fflush(None)
            os.dup2(save, 1)
            os.close(save)
            os.close(dn)
        rep, other = reports(L)
        other = [m for m in other if "FATAL" in m or "Invalid" in m] + [m for m in other if "FATAL" not in m and "Invalid" not in m]
        if other:
            v.append(("chain:fatal:" + re.sub(r"0x[0-9a-f]+|\d+", "#", (other[0].split("\n") + [""])[1])[:80], "unexpected message %s\n%s" % (other[0][:500], src)))
        else:
            pend = g.pending
            must = {i for i in range(n) if g.rep[i]}
            may = must | {i for i in range(n) if pend[i]}
            got = set(rep)
            what = "%s, options %r\n%s" % (" ".join(g.kinds), opts, src)
            if must - got:
                v.append(("chain:missed:%s" % keyof(g), "uninitialised values used by work-items %s are not reported (reported: %s): %s" % (sorted(must - got)[:6], sorted(got)[:6], what)))
            if got - may:
                i = sorted(got - may)[0]
                v.append(("chain:false:%s" % keyof(g), "work-items %s only use initialised values but are reported: %s\n%s" % (sorted(got - may)[:6], rep[i][0], what)))
            if opt and not g.noisy and k in MSG and not v:
                for i in must:
                    if not any(m.startswith(MSG[k]) for m in rep[i]):
                        v.append(("chain:kind:%s" % k, "work-item %d: expected %r, got %s: %s" % (i, MSG[k], rep[i][0].split("\n")[0], what)))
                        break
    finally:
        X.release()
    return dict(violations=v, nontrivial=sorted(set(g.kinds)), evals=n, stats={"chains": 1, "tainted items": sum(g.rep)}, sample=dict(kinds=g.kinds, opts=opts))


def keyof(g):
    return ",".join(g.kinds[:1])


def hoist(src):
    """local arrays are declared at the beginning of the kernel"""
    decl = re.findall(r"(?:volatile )?local \w+ \w+\[\d+\];", src)
    for d in decl:
        src = src.replace(d, "")
    return src.replace("size_t i = get_global_id(0); int s", " ".join(decl) + " size_t i = get_global_id(0); int s")


def structsink(w, c):
    """a structure with a member that nothing wrote is copied to global memory as a whole"""
    L = w.L
    src = "typedef struct { int a[40]; } S; kernel void k(global S *o, global const int *in) { S s; for (int j = 0; j < 39; j++) s.a[j] = in[j]; o[get_global_id(0)] = s; }"
    X = Ctx(L, {"UNINITIALIZED": 1})
    v = []
    try:
        K = X.kernel(X.program(src, "-cl-opt-disable"), "k")
        X.args(K, X.buffer(size=160), X.buffer(np.arange(40, dtype=np.int32)))
        L.mon.mask("log")
        L.mon.clear()
        X.launch(K, (1,), (1,))
        rep, _ = reports(L)
        if not rep:
            v.append(("structsink", "a member that was never written reaches global memory by structure assignment without a report"))
    finally:
        X.release()
    return dict(violations=v, nontrivial=["structsink"], evals=1, stats={}, sample=dict(kind="structsink"))


def padcopy(w, c):
    """every member of a structure is written, but the optimised copy to global memory includes the padding"""
    L = w.L
    src = """typedef struct { char3 a; int b; } S; kernel void k(global S *o, global const char3 *in, global const int *l, volatile global int *z) {
      S s = { in[0] + in[1], l[0] * l[1] };
      for (int j = 0; j < l[2]; j++) { ((private char*)&s)[l[j + 4] & 1] ^= 3; }
      o[get_global_id(0)] = s; }"""
    X = Ctx(L, {"UNINITIALIZED": 1})
    v = []
    try:
        K = X.kernel(X.program(src), "k")
        X.args(K, X.buffer(size=160), X.buffer(np.arange(40, dtype=np.uint8)), X.buffer(np.arange(40, dtype=np.int32)), X.buffer(size=64))
        L.mon.mask("log")
        L.mon.clear()
        X.launch(K, (1,), (1,))
        rep, _ = reports(L)
        if rep:
            v.append(("padcopy", "a structure whose members were all written is copied, but its padding is reported: " + rep[0][0]))
    finally:
        X.release()
    return dict(violations=v, nontrivial=["padcopy"], evals=1, stats={}, sample=dict(kind="padcopy"))


# ---- host histories

HSRC = '''
kernel void rd(global const T *b, global T *o) { size_t i = get_global_id(0); o[i] = b[i]; }
kernel void wr(global T *b, global const uchar *m) { size_t i = get_global_id(0); if (m[i]) b[i] = (T)i; }
kernel void cp(global T *d, global const T *s, global const uchar *m) { size_t i = get_global_id(0); if (m[i]) { T p[2]; p[i & 1] = s[i]; d[i] = p[i & 1]; } }
'''


def host(w, c):
    L = w.L
    r = random.Random(c["seed"])
    T, dt = r.choice([("uchar", np.uint8), ("ushort", np.uint16), ("uint", np.uint32), ("ulong", np.uint64), ("float", np.float32)])
    es = np.dtype(dt).itemsize
    X = Ctx(L, {"UNINITIALIZED": 1, "NUM_THREADS": r.choice([1, 1, 3])})
    v, kinds, evals = [], set(), 0
    e = L.err
    live = []  # [mem, root, offset, size]; root: [bytes initialised, host memory]
    keep = []

    def ok(code, what):
        if code:
            raise RuntimeError("%s returns %d" % (what, code))
    try:
        P = X.program(HSRC.replace("T", T))
        rd, wr, cp = [X.kernel(P, k) for k in ("rd", "wr", "cp")]
        L.mon.mask("log")
        L.mon.clear()

        def new():
            n = r.choice([4, 8, 16, 17, 40]) * 8
            how = r.choice(["none", "none", "copy", "use", "alloc"])
            kinds.add("create " + how)
            fl, hp, init = 0, None, False
            if how in ("copy", "use"):
                a = np.array([r.randrange(256) for _ in range(n)], np.uint8)
                keep.append(a)
                fl, hp, init = C["CL_MEM_COPY_HOST_PTR" if how == "copy" else "CL_MEM_USE_HOST_PTR"], a.ctypes.data, True
            elif how == "alloc":
                fl = C["CL_MEM_ALLOC_HOST_PTR"]
            m = L.clCreateBuffer(X.ctx, fl, n, hp, ct.byref(e))
            ok(e.value, "clCreateBuffer")
            live.append([m, np.full(n, init), 0, n, None])
        new()
        for _ in range(r.randint(3, 14)):
            op = r.choice(["new", "write", "write", "write", "rect", "fill", "copy", "copyrect", "map", "map", "sub", "free", "kwr", "kwr", "kcp", "read"])
            if not live:
                new()
            b = r.choice(live)
            m, init, off, n, par = b
            kinds.add(op)
            o = r.randrange(n)
            s = r.randint(1, n - o)
            if r.random() < .2:
                o, s = 0, n
            junk = np.array([r.randrange(256) for _ in range(n)], np.uint8)
            if op == "new" and len(live) < 6:
                new()
            elif op == "write":
                ok(L.clEnqueueWriteBuffer(X.q, m, 1, o, s, junk.ctypes.data, 0, None, None), "write")
                init[off + o:off + o + s] = True
            elif op == "rect":
                wd, h = r.randint(1, max(1, n // 4)), r.randint(1, 3)
                pitch = wd + r.randint(0, 3)
                if (h - 1) * pitch + wd <= n:
                    o = r.randint(0, n - ((h - 1) * pitch + wd))
                    ok(L.clEnqueueWriteBufferRect(X.q, m, 1, sizes((o % pitch, o // pitch, 0)) if (o % pitch) + wd <= pitch else sizes((0, 0, 0)), sizes((0, 0, 0)), sizes((wd, h, 1)), pitch, 0, wd, 0, junk.ctypes.data, 0, None, None), "rect")
                    if (o % pitch) + wd > pitch:
                        o = 0
                    for y in range(h):
                        init[off + o + y * pitch:off + o + y * pitch + wd] = True
            elif op == "fill":
                ps = r.choice([1, 2, 4, 8])
                o, s = o // ps * ps, s // ps * ps
                if s and o + s <= n:
                    ok(L.clEnqueueFillBuffer(X.q, m, junk.ctypes.data, ps, o, s, 0, None, None), "fill")
                    init[off + o:off + o + s] = True
            elif op in ("copy", "copyrect"):
                b2 = r.choice(live)
                if b2[1] is init:
                    continue
                # what a host copy leaves behind when the source was never written is not specified: copy initialised bytes only
                idx = np.flatnonzero(b2[1][b2[2]:b2[2] + b2[3]])
                if not len(idx):
                    continue
                so = int(r.choice(list(idx)))
                q = 1
                while so + q < b2[3] and b2[1][b2[2] + so + q] and q < n - o:
                    q += 1
                if o + q > n:
                    continue
                if op == "copy":
                    ok(L.clEnqueueCopyBuffer(X.q, b2[0], m, so, o, q, 0, None, None), "copy")
                else:
                    ok(L.clEnqueueCopyBufferRect(X.q, b2[0], m, sizes((so, 0, 0)), sizes((o, 0, 0)), sizes((q, 1, 1)), 0, 0, 0, 0, 0, None, None), "copyrect")
                init[off + o:off + o + q] = True
            elif op == "map":
                fl = r.choice(["CL_MAP_READ", "CL_MAP_WRITE", "CL_MAP_WRITE", "RW", "CL_MAP_WRITE_INVALIDATE_REGION"])
                kinds.add("map " + fl)
                flv = C["CL_MAP_READ"] | C["CL_MAP_WRITE"] if fl == "RW" else C[fl]
                p = L.clEnqueueMapBuffer(X.q, m, 1, flv, o, s, 0, None, None, ct.byref(e))
                ok(e.value, "map")
                if fl != "CL_MAP_READ":
                    ct.memmove(p, junk.ctypes.data, s)
                    init[off + o:off + o + s] = True
                ok(L.clEnqueueUnmapMemObject(X.q, m, ct.c_void_p(p), 0, None, None), "unmap")
            elif op == "sub" and par is None and len(live) < 8:
                base = r.randrange(n) // 128 * 128
                if base < n:
                    reg = sizes((base, r.randint(1, n - base)))
                    q = L.clCreateSubBuffer(m, 0, C["CL_BUFFER_CREATE_TYPE_REGION"], reg, ct.byref(e))
                    ok(e.value, "sub")
                    live.append([q, init, off + base, reg[1], m])
            elif op == "free":
                ok(L.clReleaseMemObject(m), "release")
                live.remove(b)
                for x in [x for x in live if x[4] == m]:
                    ok(L.clReleaseMemObject(x[0]), "release sub")
                    live.remove(x)
            elif op in ("kwr", "kcp"):
                k = n // es
                if not k:
                    continue
                mask = np.array([r.random() < .5 for _ in range(k)], np.uint8)
                mb = X.buffer(mask)
                if op == "kwr":
                    X.args(wr, m, mb)
                    X.launch(wr, (k,), (1,))
                    for i in np.flatnonzero(mask):
                        init[off + i * es:off + i * es + es] = True
                else:
                    b2 = r.choice(live)
                    if b2[1] is init or b2[3] < n:
                        continue
                    L.mon.clear()
                    X.args(cp, m, b2[0], mb)
                    X.launch(cp, (k,), (1,))
                    rep, other = reports(L)
                    bad = {int(i) for i in np.flatnonzero(mask) if not b2[1][b2[2] + i * es:b2[2] + i * es + es].all()}
                    evals += k
                    if set(rep) != bad or other:
                        v.append(("host:kcp", "copying elements through private memory: reported %s instead of %s %s" % (sorted(rep)[:8], sorted(bad)[:8], other[:1])))
                        break
                    for i in np.flatnonzero(mask):
                        init[off + i * es:off + i * es + es] = b2[1][b2[2] + i * es:b2[2] + i * es + es]
            if op == "read" or _ == 0 or r.random() < .25:
                b = r.choice(live) if live else None
                if b is None or b[3] < es:
                    continue
                k = b[3] // es
                L.mon.clear()
                X.args(rd, b[0], X.buffer(size=k * es))
                X.launch(rd, (k,), (1,))
                rep, other = reports(L)
                bad = {i for i in range(k) if not b[1][b[2] + i * es:b[2] + i * es + es].all()}
                evals += k
                if set(rep) != bad or other:
                    v.append(("host:read", "after %s: reading elements of %d bytes reports %s instead of %s %s" % (sorted(kinds), es, sorted(set(rep) - bad)[:6], sorted(bad - set(rep))[:6], other[:1])))
                    break
    except RuntimeError as ex:
        return dict(machinery="c09 host: %s" % ex)
    finally:
        for b in live:
            L.clReleaseMemObject(b[0])
        X.release()
    return dict(violations=v, nontrivial=sorted(kinds), evals=evals, stats={"histories": 1}, sample=dict(kind="host", ops=sorted(kinds)))
