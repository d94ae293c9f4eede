"""C03: floating-point built-ins and conversions.  Oracle: extended-precision references (x87 long double, mpmath, exact
rationals) and the error bounds of the OpenCL specification."""
import math, random, struct
from fractions import Fraction
import numpy as np
import mpmath
import ocl
from ocl import Ctx, Lib
from c02 import tn, load, store, NPD, IT, FT, bits, rng_of, sat, wrap

PROP = "C03"
RULE = ("every math/geometric/common/native floating built-in for float and double and every width on special values, random bit patterns "
        "and domain values; every lane compared with an extended-precision reference within the specified ULP bound (0 where exact); all "
        "float<->integer<->float conversions and half loads/stores with every rounding mode compared exactly; non-trivial = distinct "
        "(function, type, width)")
ASSUMPTIONS = ["ULP bounds are those of the OpenCL full profile; native_* is held to the half_* bound of 8192 ULP inside a moderate domain",
               "the sign of a zero result is checked only where the specification fixes it"]
CASE_TIMEOUT = 120
W = [1, 2, 3, 4, 8, 16]
ROWS = 24
PRE = "#pragma OPENCL EXTENSION cl_khr_fp64 : enable\n"
LD = np.longdouble
np.seterr(all="ignore")
mpmath.mp.prec = 120
PI = LD("3.14159265358979323846264338327950288419716939937510")
INF, NAN = math.inf, math.nan


def mp(f):
    def g(*xs):
        out = np.zeros(len(xs[0]), LD)
        for i in range(len(out)):
            out[i] = f(*[float(x[i]) for x in xs])
        return out
    return g


def ld(m):
    """mpf -> long double (two doubles)"""
    hi = float(m)
    if not math.isfinite(hi) or hi == 0:
        return LD(hi)
    return LD(hi) + LD(float(m - mpmath.mpf(hi)))


def sinpi(x):
    r = np.fmod(x, LD(2))
    a = np.abs(r)
    k = np.floor(a * 2 + LD(0.5))          # nearest half-integer index
    d = a - k / 2
    k = k.astype(float)
    v = np.where(k % 4 == 0, np.sin(PI * d), np.where(k % 4 == 1, np.cos(PI * d), np.where(k % 4 == 2, -np.sin(PI * d), -np.cos(PI * d))))
    v = np.copysign(LD(1), x) * v
    return np.where(np.isfinite(x), v, LD(NAN))


def cospi(x):
    a = np.abs(np.fmod(x, LD(2)))
    k = np.floor(a * 2 + LD(0.5))
    d = a - k / 2
    k = k.astype(float)
    v = np.where(k % 4 == 0, np.cos(PI * d), np.where(k % 4 == 1, -np.sin(PI * d), np.where(k % 4 == 2, -np.cos(PI * d), np.sin(PI * d))))
    return np.where(np.isfinite(x), v, LD(NAN))


def tanpi(x):
    s, c = sinpi(x), cospi(x)
    return s / np.where(c == 0, LD(0), c)   # cospi(n + 0.5) is +0


def f_tgamma(x):
    if x != x or x == -INF:
        return LD(NAN)
    if x == INF:
        return LD(INF)
    if x == 0:
        return LD(math.copysign(INF, x))
    if x < 0 and x == math.floor(x):
        return LD(NAN)
    if x > 1800:
        return LD(INF)
    if x < -1800:
        return LD(0)
    return ld(mpmath.gamma(mpmath.mpf(x)))


def f_lgamma(x):
    if x != x:
        return LD(NAN)
    if math.isinf(x) or x == 0 or (x < 0 and x == math.floor(x)):
        return LD(INF)
    if abs(x) > 1e15:
        x = mpmath.mpf(x)
        y = x if x > 0 else 1 - x
        st = (y - 0.5) * mpmath.log(y) - y + mpmath.log(2 * mpmath.pi) / 2
        return ld(st if x > 0 else mpmath.log(mpmath.pi / abs(mpmath.sinpi(x))) - st)
    return ld(mpmath.re(mpmath.loggamma(mpmath.mpf(x))))


def f_erf(x):
    return LD(x) if x != x else (LD(math.copysign(1, x)) if abs(x) > 1e3 else ld(mpmath.erf(mpmath.mpf(x))))


def f_erfc(x):
    if x != x:
        return LD(x)
    if abs(x) > 200:
        return LD(0) if x > 0 else LD(2)
    return ld(mpmath.erfc(mpmath.mpf(x)))


def rnd(x):
    return np.trunc(x + np.copysign(LD(0.5), x)) if False else np.where(np.abs(x) < LD(2) ** 62, np.copysign(np.floor(np.abs(x) + LD(0.5)), x), x)


def maxmag(a, b):
    return np.where(np.abs(a) > np.abs(b), a, np.where(np.abs(b) > np.abs(a), b, np.fmax(a, b)))


def minmag(a, b):
    return np.where(np.abs(a) < np.abs(b), a, np.where(np.abs(b) < np.abs(a), b, np.fmin(a, b)))


def fma_ref(t):
    def one(a, b, c):
        if not (math.isfinite(a) and math.isfinite(b) and math.isfinite(c)):
            if math.isinf(c) and math.isfinite(a) and math.isfinite(b):
                return LD(c)
            return LD(a) * LD(b) + LD(c)
        r = Fraction(a) * Fraction(b) + Fraction(c)
        if r == 0:
            return LD(0)
        return LD(round_to(r, t, "rte"))
    return mp(one)


def round_to(r, t, mode):
    """Fraction -> nearest value of float type (as Python float or +-inf)"""
    p, emin, emax = {"half": (11, -14, 15), "float": (24, -126, 127), "double": (53, -1022, 1023)}[t]
    if r == 0:
        return 0.0
    s = -1 if r < 0 else 1
    a = abs(r)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if a < (Fraction(2) ** e):
        e -= 1
    if a >= Fraction(2) ** (e + 1):
        e += 1
    e = max(e, emin)
    q = a / Fraction(2) ** (e - p + 1)
    n = q.numerator // q.denominator
    fr = q - n
    up = {"rtz": False, "rtp": fr > 0 and s > 0, "rtn": fr > 0 and s < 0,
          "rte": fr > Fraction(1, 2) or (fr == Fraction(1, 2) and n & 1)}[mode]
    n += up
    if n >> p:
        n >>= 1
        e += 1
    if e > emax:
        return {"rtz": s * float(Fraction(2 ** p - 1) * Fraction(2) ** (emax - p + 1)), "rtp": INF if s > 0 else -float(Fraction(2 ** p - 1) * Fraction(2) ** (emax - p + 1)),
                "rtn": -INF if s < 0 else float(Fraction(2 ** p - 1) * Fraction(2) ** (emax - p + 1)), "rte": s * INF}[mode]
    v = s * float(n * Fraction(2) ** (e - p + 1))
    return v


def powr_ref(x, y):
    r = np.power(x, y)
    bad = (x < 0) | np.isnan(x) | np.isnan(y) | ((x == 1) & np.isinf(y)) | ((y == 0) & ((x == 0) | np.isinf(x)))
    r = np.where((x == 0) & (y < 0), LD(INF), r)
    r = np.where((x == 0) & (y > 0), LD(0), r)
    return np.where(bad, LD(NAN), r)


def rootn_ref(x, n):
    odd = (n.astype(np.int64) & 1) == 1
    r = np.power(np.abs(x), LD(1) / n)
    r = np.where((x < 0) & odd, -r, r)
    r = np.where((x < 0) & ~odd, LD(NAN), r)
    z = np.where(n < 0, np.where(odd, np.copysign(LD(INF), x), LD(INF)), np.where(odd, x, LD(0)))
    r = np.where(x == 0, z, r)
    return np.where(n == 0, LD(NAN), r)


# name: (arity spec, reference, ulp(float), ulp(double), domain)
FN = {}


def F(n, args, ref, uf, ud=None, dom="wide", **kw):
    FN[n] = (args, ref, uf, uf if ud is None else ud, dom, kw)


for n_, r_, u_ in (("acos", np.arccos, 4), ("asin", np.arcsin, 4), ("atan", np.arctan, 5), ("acosh", np.arccosh, 4), ("asinh", np.arcsinh, 4),
                   ("atanh", np.arctanh, 5), ("cbrt", np.cbrt, 2), ("ceil", np.ceil, 0), ("cos", np.cos, 4), ("cosh", np.cosh, 4), ("exp", np.exp, 3),
                   ("exp2", np.exp2, 3), ("expm1", np.expm1, 3), ("fabs", np.abs, 0), ("floor", np.floor, 0), ("log", np.log, 3),
                   ("log2", np.log2, 3), ("log10", np.log10, 3), ("log1p", np.log1p, 2), ("rint", np.rint, 0), ("sin", np.sin, 4), ("sinh", np.sinh, 4),
                   ("tan", np.tan, 5), ("tanh", np.tanh, 5), ("trunc", np.trunc, 0), ("sinpi", sinpi, 4), ("cospi", cospi, 4), ("tanpi", tanpi, 6),
                   ("round", rnd, 0), ("degrees", lambda x: x * (LD(180) / PI), 2), ("radians", lambda x: x * (PI / LD(180)), 2),
                   ("acospi", lambda x: np.arccos(x) / PI, 5), ("asinpi", lambda x: np.arcsin(x) / PI, 5), ("atanpi", lambda x: np.arctan(x) / PI, 5),
                   ("exp10", lambda x: np.power(LD(10), x), 3)):
    F(n_, "v", r_, u_)
F("sqrt", "v", lambda x: np.sqrt(x.astype(np.float64)).astype(LD), 3, 0)   # the arguments are doubles: one rounding
F("rsqrt", "v", lambda x: np.where(x == 0, np.copysign(LD(INF), x), 1 / np.sqrt(x)), 2)
F("sign", "v", lambda x: np.where(np.isnan(x), LD(0), np.where(x == 0, x, np.copysign(LD(1), x))), 0)
F("erf", "v", mp(f_erf), 16)
F("erfc", "v", mp(f_erfc), 16)
F("tgamma", "v", mp(f_tgamma), 16)
F("lgamma", "v", mp(f_lgamma), "loose")
def logb_ref(x):
    m, e = np.frexp(x)
    return np.where(np.isinf(x), LD(INF), np.where(x == 0, LD(-INF), np.where(np.isnan(x), LD(NAN), (e - 1).astype(LD))))
F("logb", "v", logb_ref, 0)
F("atan2", "vv", np.arctan2, 6)
F("atan2pi", "vv", lambda y, x: np.arctan2(y, x) / PI, 6)
F("copysign", "vv", np.copysign, 0, sz=1)
F("fdim", "vv", lambda x, y: np.where(np.isnan(x) | np.isnan(y), LD(NAN), np.where(x > y, (x.astype(np.float64) - y.astype(np.float64)).astype(LD), LD(0))), 0)
F("fmax", "vv", np.fmax, 0)
F("fmin", "vv", np.fmin, 0)
F("fmax_s", "vs", np.fmax, 0, fn="fmax")
F("fmin_s", "vs", np.fmin, 0, fn="fmin")
F("fmod", "vv", np.fmod, 0)
F("hypot", "vv", np.hypot, 4)
F("maxmag", "vv", maxmag, 0)
F("minmag", "vv", minmag, 0)
F("nextafter", "vv", None, 0)
F("pow", "vv", np.power, 16, dom="pow")
F("powr", "vv", powr_ref, 16, dom="pow")
F("pown", "vi", lambda x, n: np.power(x, n), 16, dom="pow")
F("rootn", "vi", rootn_ref, 16, dom="pow")
F("remainder", "vv", mp(lambda x, y: LD(math.remainder(x, y)) if math.isfinite(x) and y != 0 and y == y else LD(NAN)), 0)
F("ldexp", "vi", None, 0)
F("ldexp_s", "vI", None, 0, fn="ldexp")
F("pown_s", "vi", lambda x, n: np.power(x, n), 16, dom="pow", fn="pown")
F("fma", "vvv", "fma", 0)
F("mad", "vvv", "fma", "mad")
F("max", "vv", np.fmax, 0, dom="nonan")
F("min", "vv", np.fmin, 0, dom="nonan")
F("max_s", "vs", np.fmax, 0, dom="nonan", fn="max")
F("min_s", "vs", np.fmin, 0, dom="nonan", fn="min")
F("clamp", "vvv", lambda x, a, b: np.fmin(np.fmax(x, a), b), 0, dom="clamp")
F("clamp_s", "vss", lambda x, a, b: np.fmin(np.fmax(x, a), b), 0, dom="clamp", fn="clamp")
F("mix", "vvv", lambda x, y, a: x + (y - x) * a, "mix", dom="mix")
F("mix_s", "vvs", lambda x, y, a: x + (y - x) * a, "mix", dom="mix", fn="mix")
F("step", "vv", lambda e, x: np.where(x < e, LD(0), LD(1)), 0, dom="nonan")
F("step_s", "sv", lambda e, x: np.where(x < e, LD(0), LD(1)), 0, dom="nonan", fn="step")


def smooth(a, b, x):
    t = np.fmin(np.fmax((x - a) / (b - a), LD(0)), LD(1))
    return t * t * (3 - 2 * t)


F("smoothstep", "vvv", smooth, "abs", dom="smooth")
F("smoothstep_s", "ssv", smooth, "abs", dom="smooth", fn="smoothstep")
for n_, r_ in (("cos", np.cos), ("sin", np.sin), ("tan", np.tan), ("exp", np.exp), ("exp2", np.exp2), ("exp10", lambda x: np.power(LD(10), x)),
               ("log", np.log), ("log2", np.log2), ("log10", np.log10), ("sqrt", np.sqrt), ("rsqrt", lambda x: 1 / np.sqrt(x)), ("recip", lambda x: 1 / x)):
    for p_ in ("half_", "native_"):
        F(p_ + n_, "v", r_, 8192, dom="native", fonly=1)
for p_ in ("half_", "native_"):
    F(p_ + "divide", "vv", lambda x, y: x / y, 8192, dom="native", fonly=1)
    F(p_ + "powr", "vv", powr_ref, 8192, dom="native", fonly=1)
# second output through a pointer
P = {}
P["fract"] = ("v", "T")
P["frexp"] = ("v", "int")
P["modf"] = ("v", "T")
P["sincos"] = ("v", "T")
P["lgamma_r"] = ("v", "int")
P["remquo"] = ("vv", "int")


def value(r, t, dom):
    b = FT[t]
    if dom == "native":
        return r.uniform(.1, 8)
    if dom in ("mix", "smooth"):
        return r.uniform(-10, 10)
    k = r.random()
    if dom in ("clamp", "nonan") and k < .6:
        return r.choice([0.0, 1.0, -1.0, INF, -INF, 2.5, 1e-40, 3e38, r.uniform(-5, 5)])
    if k < .22:
        return r.choice([0.0, -0.0, 1.0, -1.0, INF, -INF, NAN, 0.5, -0.5, 1.5, 2.5, -2.5, 3.5, 1e-40, -1e-40, 1e-310, 3.4028234e38, 2.0 ** -126, 2.0 ** -149, 1e308, -3.0, 4.0])
    if k < .42:
        v = struct.unpack("<f" if b == 32 else "<d", r.getrandbits(b).to_bytes(b // 8, "little"))[0]
        if v != v:
            v = float("nan")  # signalling NaNs are not supported by OpenCL
        return v if v == v or dom not in ("clamp", "nonan") else 1.0
    if k < .6:
        return r.uniform(-1, 1)
    if k < .8:
        return r.uniform(-10, 10)
    if k < .9:
        return r.randint(-40, 40) / r.choice([1, 1, 2, 4])
    return r.choice([-1, 1]) * math.exp(r.uniform(-20, 20))


def cases(rng, tier):
    out = []
    reps = 5 if tier == "quick" else 30
    for rep in range(reps):
        for t in FT:
            for w in W:
                names = [n for n in FN if not (FN[n][5].get("fonly") and t == "double") and not (w == 1 and FN[n][5].get("fn") and "i" not in FN[n][0])]
                for i in range(0, len(names), 24):
                    out.append(dict(k="fn", t=t, w=w, names=names[i:i + 24], seed=rng.randrange(1 << 30)))
                out.append(dict(k="ptr", t=t, w=w, seed=rng.randrange(1 << 30)))
                if w <= 4:
                    out.append(dict(k="geo", t=t, w=w, seed=rng.randrange(1 << 30)))
                out.append(dict(k="conv", t=t, w=w, seed=rng.randrange(1 << 30)))
                out.append(dict(k="toint", t=t, w=w, seed=rng.randrange(1 << 30)))
                out.append(dict(k="half", t=t, w=w, seed=rng.randrange(1 << 30)))
    return out


def setup_worker(env):
    return Lib(env["build"])


def ulp(ref, t):
    """spacing of t at |ref| (long double arrays)"""
    p, emin = (24, -126) if t == "float" else (53, -1022)
    m, e = np.frexp(np.abs(ref))
    e = np.maximum(np.where(ref == 0, -20000, e), emin + 1)
    return np.ldexp(LD(1), (e - p).astype(np.int32))


def tolist(x, t):
    return np.array(x, NPD[t])


def compare(nm, t, got, ref, bound, xs, v, tag=""):
    """got array of type t, ref long double"""
    g = got.astype(LD)
    r = np.asarray(ref, LD)
    fmax = LD(np.finfo(NPD[t]).max)
    want = r.astype(NPD[t]).astype(LD)
    ok = (np.isnan(g) & np.isnan(r)) | (g == want)
    if isinstance(bound, np.ndarray):
        ok |= np.abs(g - r) <= bound
    elif bound == "loose":
        ok |= np.abs(g - r) <= (1e-5 if t == "float" else 1e-12) * (1 + np.abs(r))
    elif bound == "abs":
        ok |= np.abs(g - r) <= (1e-5 if t == "float" else 1e-12)
    elif bound:
        ok |= np.isfinite(g) & (np.abs(g - r) <= bound * ulp(r, t))
        ok |= np.isinf(g) & (np.sign(g) == np.sign(r)) & (np.abs(r) + bound * ulp(r, t) > fmax)
    if not ok.all():
        i = int(np.nonzero(~ok)[0][0])
        v.append(("%s:%s%s" % (nm, t, tag), "%s(%s)%s lane %d: got %r want %s (%d of %d lanes)" % (
            nm, ", ".join(repr(float(x[i])) for x in xs), tag, i, float(g[i]), repr(float(r[i])), int((~ok).sum()), len(ok))))
    return len(ok)


def nextafter_ref(t, a, b):
    return np.nextafter(a.astype(NPD[t]), b.astype(NPD[t])).astype(LD)


def ldexp_ref(t, x, n):
    out = np.zeros(len(x), LD)
    for i in range(len(x)):
        a = float(x[i])
        if not math.isfinite(a) or a == 0:
            out[i] = a
            continue
        k = max(-5000, min(5000, int(n[i])))
        out[i] = LD(round_to(Fraction(a) * Fraction(2) ** k, t, "rte"))
        if out[i] == 0:
            out[i] = math.copysign(0.0, a)
    return out


def run_fn(X, c, v, nt):
    t, w = c["t"], c["w"]
    r = random.Random(c["seed"])
    src = PRE
    for nm in c["names"]:
        args, ref, uf, ud, dom, kw = FN[nm]
        ps, call = [], []
        for i, a in enumerate(args):
            at, aw = {"v": (t, w), "s": (t, 1), "i": ("int", w), "I": ("int", 1)}[a]
            ps.append("global const %s *a%d" % (at, i))
            call.append(load(at, aw, "a%d" % i))
        src += "kernel void k_%s(%s, global %s *r) { size_t i = get_global_id(0); %s }\n" % (nm, ", ".join(ps), t, store(t, w, "%s(%s)" % (kw.get("fn", nm), ", ".join(call))))
    prog = X.program(src, r.choice(["", "-cl-opt-disable"]))
    lanes, n = 0, ROWS * w
    for nm in c["names"]:
        args, ref, uf, ud, dom, kw = FN[nm]
        bound = uf if t == "float" else ud
        A = []
        for a in args:
            if a in "iI":
                m = 300 if "ldexp" in nm else 12
                A.append(np.array([r.choice([0, 1, -1, 2, 3, -2, r.randint(-m, m), r.randint(-m, m), r.choice([-149, 127, 128, 1000, -1074, -2000, 1024])
                                             if "ldexp" in nm or nm == "pown" else 5]) for _ in range(n)], np.int32))
            else:
                A.append(tolist([value(r, t, dom) for _ in range(n)], t))
        if dom == "clamp":
            A[1], A[2] = np.minimum(A[1], A[2]), np.maximum(A[1], A[2])
        if dom == "smooth":
            A[0], A[1] = np.minimum(A[0], A[1]), np.maximum(A[0], A[1]) + tolist([.5], t)
        for i, a in enumerate(args):
            if a in "sI":
                A[i] = A[i][:ROWS]
        if dom == "clamp" and "s" in args:
            A[1], A[2] = np.minimum(A[1], A[2]), np.maximum(A[1], A[2])
        bufs = [X.buffer(a) for a in A]
        ob = X.buffer(np.zeros(n * bits(t) // 8, np.uint8))
        k = X.kernel(prog, "k_" + nm)
        X.args(k, *bufs, ob)
        X.launch(k, [ROWS])
        got = X.read(ob, n * bits(t) // 8).view(NPD[t])
        full = [np.repeat(a, w) if args[i] in "sI" else a for i, a in enumerate(A)]
        xs = [a.astype(LD) for a in full]
        extra = {}
        if nm == "nextafter":
            R = nextafter_ref(t, full[0], full[1])
        elif nm.startswith("ldexp"):
            R = ldexp_ref(t, full[0], full[1])
        elif ref == "fma":
            R = fma_ref(t)(*xs)
            if bound == "mad":   # either a fused or a separately rounded product is allowed
                sep = (full[0] * full[1] + full[2]).astype(LD)
                R = np.where(got.astype(LD) == sep, sep, R)
                R = np.where(np.isnan(got) & np.isnan(sep), LD(NAN), R)
                bound = 0
        elif nm in ("pow", "pown", "pown_s"):
            R = np.power(xs[0], xs[1])
        else:
            R = ref(*xs)
        if nm in ("fmin", "fmax", "fmin_s", "fmax_s", "max", "min", "maxmag", "minmag", "clamp", "clamp_s"):
            pass    # +-0 compare equal, which is as much as the specification fixes
        if bound == "mix":
            mag = np.fmax(np.fmax(np.abs(xs[0]), np.abs(xs[1])), np.abs((xs[1] - xs[0]) * xs[2]))
            bound = 4 * ulp(mag, t)
        lanes += compare(nm, t, got, R, bound, full, v, ":vec" if w > 1 else ":scalar")
        if nm in ("copysign", "fabs", "sinpi", "ceil", "floor", "trunc", "round", "rint", "sqrt", "cbrt", "sin", "tan", "asin", "atan", "sign", "rootn", "fmod"):
            g, q = np.signbit(got), np.signbit(R)
            z = (R == 0) & (got == 0) & (g != q)
            if nm == "sinpi":   # sinpi(+-n) is +0 for positive n, -0 for negative n
                z = (R == 0) & (got == 0) & (g != np.signbit(full[0]))
            if z.any():
                i = int(np.nonzero(z)[0][0])
                v.append(("%s:%s:zerosign" % (nm, t), "%s(%r): sign of zero result wrong" % (nm, float(full[0][i]))))
        nt.append("%s %s%d" % (nm, t, w))
        for m in bufs + [ob]:
            X.L.clReleaseMemObject(m)
            X.objs.remove(("clReleaseMemObject", m))
    return lanes


def run_ptr(X, c, v, nt):
    t, w = c["t"], c["w"]
    r = random.Random(c["seed"])
    src, jobs = PRE, []
    for nm, (args, pt) in P.items():
        for sp in ("private", "local", "global"):
            p2 = t if pt == "T" else "int"
            a2 = ", " + load(t, w, "b") if args == "vv" else ""
            if sp == "global":
                vw = {3: 4}.get(w, w)
                body = "%s(%s%s, (global %s*)(r2 + i * %d))" % (nm, load(t, w, "a"), a2, tn(p2, w), vw)
                tail = ""
            else:
                body = "%s(%s%s, &tmp)" % (nm, load(t, w, "a"), a2)
                tail = ("r2[i] = tmp;" if w == 1 else "vstore%d(tmp, 0, r2 + i * %d);" % (w, {3: 4}.get(w, w)))
            decl = "" if sp == "global" else "%s %s tmp;" % ("local" if sp == "local" else "", tn(p2, w))
            src += "kernel void k_%s_%s(global const %s *a, global const %s *b, global %s *r, global %s *r2) { %s size_t i = get_global_id(0); %s %s }\n" % (
                nm, sp, t, t, t, p2, decl, store(t, w, body), tail)
            jobs.append((nm, sp, p2))
    if w == 1:
        src += "kernel void k_ilogb(global const %s *a, global int *r2) { size_t i = get_global_id(0); int e = ilogb(a[i]); r2[i] = (a[i] == 0 && e == FP_ILOGB0) ? 1000001 : (isnan(a[i]) && e == FP_ILOGBNAN) ? 1000002 : (isinf(a[i]) && e == INT_MAX) ? 1000003 : e; }\n" % t
        src += "kernel void k_nan(global const %s *a, global %s *r) { size_t i = get_global_id(0); r[i] = nan(as_%s(a[i])); }\n" % (t, t, "uint" if t == "float" else "ulong")
    else:
        src += "kernel void k_ilogb(global const %s *a, global int *r2) { size_t i = get_global_id(0); vstore%d(ilogb(%s), i, r2); }\n" % (t, w, load(t, w, "a"))
        src += "kernel void k_nan(global const %s *a, global %s *r) { size_t i = get_global_id(0); vstore%d(nan(as_%s%d(%s)), i, r); }\n" % (t, t, w, "uint" if t == "float" else "ulong", w, load(t, w, "a"))
    prog = X.program(src, r.choice(["", "-cl-opt-disable"]))
    n, lanes = ROWS * w, 0
    vw = {3: 4}.get(w, w)
    for nm, sp, p2 in jobs:
        a = tolist([value(r, t, "wide") for _ in range(n)], t)
        b = tolist([value(r, t, "wide") for _ in range(n)], t)
        if nm == "remquo":
            b = np.where(np.arange(n) % 2 == 0, (a / tolist([r.uniform(-100, 100)], t)).astype(NPD[t]), b)
        bufs = [X.buffer(a), X.buffer(b)]
        o1 = X.buffer(np.zeros(n * bits(t) // 8, np.uint8))
        o2 = X.buffer(np.zeros(ROWS * vw * bits(p2) // 8, np.uint8))
        k = X.kernel(prog, "k_%s_%s" % (nm, sp))
        X.args(k, *bufs, o1, o2)
        X.launch(k, [ROWS], [1])
        g1 = X.read(o1, n * bits(t) // 8).view(NPD[t])
        g2 = X.read(o2, ROWS * vw * bits(p2) // 8).view(NPD[p2]).reshape(ROWS, vw)[:, :w].reshape(-1)
        x, y = a.astype(LD), b.astype(LD)
        tag = ":%s" % sp
        fin = np.isfinite(x)
        if nm == "fract":
            fl = np.floor(x)
            one = np.nextafter(np.array([1], NPD[t]), np.array([0], NPD[t]))[0].astype(LD)
            rr = np.where(np.isinf(x), np.copysign(LD(0), x), np.fmin(x - fl, one))
            # for -tiny inputs x - floor(x) rounds to 1 and is capped
            rr = np.where(np.isnan(x), x, np.fmin(rr.astype(NPD[t]).astype(LD), one))
            lanes += compare("fract", t, g1[~np.isinf(x)], rr[~np.isinf(x)], 0, [a[~np.isinf(x)]], v, tag)
            lanes += compare("fract-iptr", t, g2, fl, 0, [a], v, tag)
        elif nm == "modf":
            ip = np.trunc(x)
            rr = np.where(np.isinf(x), np.copysign(LD(0), x), x - ip)
            lanes += compare("modf", t, g1, rr, 0, [a], v, tag)
            lanes += compare("modf-iptr", t, g2, ip, 0, [a], v, tag)
            z = (np.signbit(g1) != np.signbit(a)) & ~np.isnan(a)
            if z.any():
                v.append(("modf:sign", "modf(%r) fraction sign" % float(a[np.nonzero(z)[0][0]])))
        elif nm == "sincos":
            lanes += compare("sincos", t, g1, np.sin(x), 4, [a], v, tag)
            lanes += compare("sincos-cos", t, g2, np.cos(x), 4, [a], v, tag)
        elif nm == "frexp":
            m, e = np.frexp(x)
            lanes += compare("frexp", t, g1, np.where(fin, m, x), 0, [a], v, tag)
            bad = (g2 != e) & fin
            if bad.any():
                i = int(np.nonzero(bad)[0][0])
                v.append(("frexp-exp:%s%s" % (t, tag), "frexp(%r) exponent %d want %d" % (float(a[i]), g2[i], e[i])))
        elif nm == "lgamma_r":
            R = mp(f_lgamma)(x)
            lanes += compare("lgamma_r", t, g1, R, "loose", [a], v, tag)
            for i in range(n):
                xi = float(a[i])
                if xi == xi and math.isfinite(xi) and not (xi <= 0 and xi == math.floor(xi)) and abs(xi) < 1e6:
                    s = -1 if xi < 0 and math.floor(xi) % 2 else 1
                    if g2[i] != s:
                        v.append(("lgamma_r-sign:%s%s" % (t, tag), "lgamma_r(%r) sign %d want %d" % (xi, g2[i], s)))
                        break
        elif nm == "remquo":
            R = FN["remainder"][1](x, y)
            lanes += compare("remquo", t, g1, R, 0, [a, b], v, tag)
            for i in range(n):
                xi, yi = float(a[i]), float(b[i])
                if math.isfinite(xi) and math.isfinite(yi) and yi != 0:
                    q = Fraction(xi) / Fraction(yi)
                    f = math.floor(abs(q))
                    fr = abs(q) - f
                    f += fr > Fraction(1, 2) or (fr == Fraction(1, 2) and f & 1)
                    want = f & 127
                    gq = int(g2[i])
                    if (abs(gq) & 127) != want or (gq != 0 and want and (gq < 0) != (q < 0)):
                        v.append(("remquo-quo:%s%s" % (t, tag), "remquo(%r, %r) quotient %d want +-%d mod 128" % (xi, yi, gq, want)))
                        break
                elif math.isnan(float(R[i])) and g2[i] != 0:
                    v.append(("remquo-quo-nan:%s%s" % (t, tag), "remquo(%r, %r) is NaN but quotient %d, want 0" % (xi, yi, g2[i])))
                    break
        nt.append("%s %s %s%d" % (nm, sp, t, w))
    a = tolist([value(r, t, "wide") for _ in range(n)], t)
    ab, o2, o1 = X.buffer(a), X.buffer(np.zeros(n, np.int32)), X.buffer(np.zeros(n * bits(t) // 8, np.uint8))
    k = X.kernel(prog, "k_ilogb")
    X.args(k, ab, o2)
    X.launch(k, [ROWS])
    g = X.read(o2, n * 4).view(np.int32)
    for i in range(n):
        xi = float(a[i])
        if math.isfinite(xi) and xi != 0:
            e = math.frexp(xi)[1] - 1
        elif w > 1:
            continue
        else:
            e = 1000001 if xi == 0 else 1000002 if xi != xi else 1000003
        lanes += 1
        if g[i] != e:
            v.append(("ilogb:%s" % t, "ilogb(%r) = %d want %d" % (xi, g[i], e)))
            break
    k = X.kernel(prog, "k_nan")
    X.args(k, ab, o1)
    X.launch(k, [ROWS])
    if not np.isnan(X.read(o1, n * bits(t) // 8).view(NPD[t])).all():
        v.append(("nan:%s" % t, "nan() returned a number"))
    return lanes


def run_geo(X, c, v, nt):
    t, w = c["t"], c["w"]
    r = random.Random(c["seed"])
    fns = ["dot", "length", "distance", "normalize"] + (["fast_length", "fast_distance", "fast_normalize"] if t == "float" else []) + (["cross"] if w in (3, 4) else [])
    src = PRE
    for nm in fns:
        two = nm in ("dot", "distance", "fast_distance", "cross")
        rw = w if nm in ("normalize", "fast_normalize", "cross") else 1
        src += "kernel void k_%s(global const %s *a, global const %s *b, global %s *r) { size_t i = get_global_id(0); %s }\n" % (
            nm, t, t, t, store(t, rw, "%s(%s%s)" % (nm, load(t, w, "a"), ", " + load(t, w, "b") if two else "")))
    prog = X.program(src, r.choice(["", "-cl-opt-disable"]))
    lanes = 0
    for nm in fns:
        n = ROWS * w
        sc = r.choice([1, 1, 1e10, 1e-10, 1e18 if t == "float" and "fast" not in nm and nm not in ("dot", "cross") else 1])
        a = tolist([r.choice([0.0, 1.0, r.uniform(-10, 10)]) * sc for _ in range(n)], t)
        b = tolist([r.choice([0.0, 1.0, r.uniform(-10, 10)]) * sc for _ in range(n)], t)
        rw = w if nm in ("normalize", "fast_normalize", "cross") else 1
        ab, bb, ob = X.buffer(a), X.buffer(b), X.buffer(np.zeros(ROWS * rw * bits(t) // 8, np.uint8))
        k = X.kernel(prog, "k_" + nm)
        two = nm in ("dot", "distance", "fast_distance", "cross")
        X.args(k, ab, bb, ob)
        X.launch(k, [ROWS])
        got = X.read(ob, ROWS * rw * bits(t) // 8).view(NPD[t])
        x, y = a.astype(LD).reshape(ROWS, w), b.astype(LD).reshape(ROWS, w)
        d = 0 if t == "float" else 2
        if nm == "dot":
            R = (x * y).sum(1)
            B = (2 * w) * ulp(np.abs(x * y).sum(1), t)
        elif nm.endswith("length"):
            R = np.sqrt((x * x).sum(1))
            B = (8192 if "fast" in nm else 3 + .5 * w + d) * ulp(R, t)
        elif nm.endswith("distance"):
            R = np.sqrt(((x - y) ** 2).sum(1))
            B = (8192 + 4 * w if "fast" in nm else 3 + 2 * w + d) * ulp(R, t)
        elif nm.endswith("normalize"):
            l = np.sqrt((x * x).sum(1))
            R = np.where(l[:, None] == 0, x, x / l[:, None]).reshape(-1)
            B = (8192 + w if "fast" in nm else 2 + w + d) * ulp(R, t)
        else:
            X3, Y3 = x[:, :3], y[:, :3]
            R = np.zeros((ROWS, w), LD)
            R[:, :3] = np.cross(X3, Y3)
            B = np.broadcast_to((4 * ulp(np.abs(X3).max(1) * np.abs(Y3).max(1) + LD(0), t))[:, None] * 2, (ROWS, w)).reshape(-1)
            R = R.reshape(-1)
        if rw == 1:
            got = got.reshape(ROWS)
        q = [a.reshape(ROWS, w)[:, 0] if rw == 1 else a, b.reshape(ROWS, w)[:, 0] if rw == 1 else b]
        lanes += compare(nm, t, got, R, np.asarray(B, LD), q, v, ":vec" if w > 1 else ":scalar")
        nt.append("%s %s%d" % (nm, t, w))
    return lanes


MODES = ["", "_rte", "_rtz", "_rtp", "_rtn"]


def run_conv(X, c, v, nt):
    """anything -> float/double"""
    t, w = c["t"], c["w"]
    r = random.Random(c["seed"])
    src, jobs = PRE, []
    for s in list(IT) + list(FT):
        for m in MODES:
            src += "kernel void k%d(global const %s *a, global %s *r) { size_t i = get_global_id(0); %s }\n" % (len(jobs), s, t, store(t, w, "convert_%s%s(%s)" % (tn(t, w), m, load(s, w, "a"))))
            jobs.append((s, m))
    prog = X.program(src, r.choice(["", "-cl-opt-disable"]))
    n, lanes = ROWS * w, 0
    for i, (s, m) in enumerate(jobs):
        if s in IT:
            V = []
            for _ in range(n):
                lo, hi = rng_of(s)
                b = bits(s)
                k = r.random()
                if k < .3:
                    V.append(r.choice([lo, hi, 0, 1, hi - 1, lo + 1]))
                else:
                    e = r.randint(0, b - 1)
                    x = (1 << e) | (r.getrandbits(e) if e else 0)
                    if e > 24 and r.random() < .6:   # around a tie
                        p = e - (23 if t == "float" else 52)
                        if p > 0:
                            x = (x >> p << p) + (1 << (p - 1)) + r.choice([-1, 0, 0, 1])
                    V.append(wrap(x * r.choice([1, -1]), s))
            a = np.array([x & ((1 << bits(s)) - 1) for x in V], "<u%d" % (bits(s) // 8))
        else:
            V = [value(r, s, "wide") for _ in range(n)]
            for j in range(0, n, 2):
                if s == "double":
                    f = np.float32(r.uniform(-4, 4) * 10.0 ** r.randint(-44, 38))
                    V[j] = float(f) + r.choice([-1, 0, 1, .5]) * float(np.spacing(f)) * r.choice([.5, .5, 1e-3])
            a = np.array(V, NPD[s])
            V = [float(x) for x in a]
        ab, ob = X.buffer(a), X.buffer(np.zeros(n * bits(t) // 8, np.uint8))
        k = X.kernel(prog, "k%d" % i)
        X.args(k, ab, ob)
        X.launch(k, [ROWS])
        g = X.read(ob, n * bits(t) // 8).view(NPD[t])
        for j in range(n):
            x = V[j]
            if isinstance(x, float) and not math.isfinite(x):
                e = x
            else:
                e = round_to(Fraction(x), t, m[1:] or "rte")
            lanes += 1
            if not (float(g[j]) == e or (e != e and math.isnan(g[j]))):
                v.append(("convert_%s:%s:%s" % (t, "int" if s in IT else "float", m or "default"), "convert_%s%s(%s %r) = %r want %r" % (tn(t, w), m, s, x, float(g[j]), e)))
                break
        nt.append("convert_%s%s %s" % (tn(t, w), m, s))
    return lanes


def run_toint(X, c, v, nt):
    """float/double -> integer"""
    t, w = c["t"], c["w"]
    r = random.Random(c["seed"])
    src, jobs = PRE, []
    for d in IT:
        for s in (0, 1):
            m = r.choice(MODES)
            src += "kernel void k%d(global const %s *a, global %s *r) { size_t i = get_global_id(0); %s }\n" % (
                len(jobs), t, d, store(d, w, "convert_%s%s%s(%s)" % (tn(d, w), "_sat" if s else "", m, load(t, w, "a"))))
            jobs.append((d, s, m))
    prog = X.program(src, r.choice(["", "-cl-opt-disable"]))
    n, lanes = ROWS * w, 0
    for i, (d, s, m) in enumerate(jobs):
        lo, hi = rng_of(d)
        V = []
        for _ in range(n):
            k = r.random()
            if s and k < .2:
                x = r.choice([INF, -INF, NAN, 1e30, -1e30, 3e9, -3e9, 0.0, -0.0, float(hi), float(lo), hi + .5, lo - .5])
            elif k < .5:
                x = r.choice([lo, hi]) + r.choice([-1.5, -1, -.5, .5, 1, 1.5, -.25, .25])
            else:
                x = r.choice([r.uniform(-20, 20), r.randint(-20, 20) + .5, r.uniform(lo, hi)])
            V.append(x)
        a = np.array(V, NPD[t])

        def ref(x):
            if x != x:
                return 0 if s else None
            if math.isinf(x):
                return (hi if x > 0 else lo) if s else None
            f = Fraction(x)
            fl = math.floor(f)
            mm = m[1:] or "rtz"
            q = {"rtz": math.trunc(f), "rtn": fl, "rtp": math.ceil(f), "rte": round(f)}[mm]
            if not lo <= q <= hi:
                return sat(q, d) if s else None
            return q
        for j in range(n):
            if ref(float(a[j])) is None:   # undefined: replace
                a[j] = r.randint(0, 100) + .25
        ab, ob = X.buffer(a), X.buffer(np.zeros(n * bits(d) // 8, np.uint8))
        k = X.kernel(prog, "k%d" % i)
        X.args(k, ab, ob)
        X.launch(k, [ROWS])
        g = X.read(ob, n * bits(d) // 8).view(NPD[d])
        for j in range(n):
            e = ref(float(a[j]))
            lanes += 1
            if int(g[j]) != e:
                v.append(("convert_int:%s%s:%s" % (d, "_sat" if s else "", m or "default"), "convert_%s%s%s(%s %r) = %d want %d" % (tn(d, w), "_sat" if s else "", m, t, float(a[j]), g[j], e)))
                break
        nt.append("convert_%s%s%s %s" % (tn(d, w), "_sat" if s else "", m, t))
    return lanes


def run_half(X, c, v, nt):
    t, w = c["t"], c["w"]
    r = random.Random(c["seed"])
    src, jobs = PRE, []
    sfx = str(w) if w > 1 else ""
    pad = {3: 4}.get(w, w)
    for al in (("", "a") if w > 1 else ("",)):
        for m in MODES:
            fn = "vstore%s_half%s%s" % (al, sfx, m)
            src += "kernel void k%d(global const %s *a, global half *r) { size_t i = get_global_id(0); %s(%s, i, r); }\n" % (len(jobs), t, fn, load(t, w, "a"))
            jobs.append((fn, al, m))
    if t == "float":
        for al in (("", "a") if w > 1 else ("",)):
            for sp in ("global const", "constant"):
                fn = "vload%s_half%s" % (al, sfx)
                src += "kernel void k%d(%s half *a, global float *r) { size_t i = get_global_id(0); %s }\n" % (len(jobs), sp, store("float", w, "%s(i, a)" % fn))
                jobs.append((fn, al, None))
    prog = X.program(src, r.choice(["", "-cl-opt-disable"]))
    n, lanes = ROWS * w, 0
    for i, (fn, al, m) in enumerate(jobs):
        st = pad if al else w
        if m is None:
            H = np.array([r.choice([r.getrandbits(16), r.choice([0, 0x8000, 0x7C00, 0xFC00, 1, 0x3FF, 0x400, 0x7BFF, 0x3C00])]) for _ in range(ROWS * st)], np.uint16)
            ab, ob = X.buffer(H), X.buffer(np.zeros(n * 4, np.uint8))
            k = X.kernel(prog, "k%d" % i)
            X.args(k, ab, ob)
            X.launch(k, [ROWS])
            g = X.read(ob, n * 4).view("<f4").reshape(ROWS, w)
            R = H.view(np.float16).astype(np.float32).reshape(ROWS, st)[:, :w]
            bad = ~((g == R) & (np.signbit(g) == np.signbit(R)) | (np.isnan(g) & np.isnan(R)))
            lanes += n
            if bad.any():
                x, y = [int(q[0]) for q in np.nonzero(bad)]
                v.append(("%s" % fn.rstrip("0123456789"), "%s row %d lane %d: half %04x -> %r want %r" % (fn, x, y, H.reshape(ROWS, st)[x, y], float(g[x, y]), float(R[x, y]))))
        else:
            V = []
            for _ in range(n):
                k = r.random()
                if k < .2:
                    V.append(r.choice([0.0, -0.0, INF, -INF, NAN, 65504.0, 65520.0, 65519.0, -65520.0, 1e-8, -1e-8, 6e-8, 3e-8, 2.0 ** -25, 2.0 ** -24, 2.0 ** -14, 1e10, -1e10]))
                else:
                    h = float(np.array([r.getrandbits(16) & 0x7BFF], np.uint16).view(np.float16)[0])
                    u = float(np.spacing(np.float16(h))) if math.isfinite(h) else 1.0
                    V.append(r.choice([1, -1]) * (h + u * r.choice([0, .5, .5, .25, .75, .4999, .5001, 1e-6, .5 + 1e-12])))
            a = np.array(V, NPD[t])
            ab, ob = X.buffer(a), X.buffer(np.full(ROWS * st, 0x1234, np.uint16))
            k = X.kernel(prog, "k%d" % i)
            X.args(k, ab, ob)
            X.launch(k, [ROWS])
            G = X.read(ob, ROWS * st * 2).view(np.uint16).reshape(ROWS, st)
            if al and w == 3 and (G[:, 3] != 0x1234).any():
                pass   # padding lane of vstorea_half3 is not specified
            g = G[:, :w].reshape(-1).view(np.float16).astype(np.float64) if False else np.ascontiguousarray(G[:, :w]).reshape(-1).view(np.float16).astype(np.float64)
            for j in range(n):
                x = float(a[j])
                e = x if not math.isfinite(x) else round_to(Fraction(x), "half", m[1:] or "rte")
                lanes += 1
                if not (g[j] == e or (e != e and g[j] != g[j])):
                    v.append(("vstore_half:%s:%s" % (t, m or "default"), "%s(%s %r) = %r want %r" % (fn, t, x, float(g[j]), e)))
                    break
        nt.append("%s %s" % (fn, t))
    return lanes


def run_case(L, c):
    v, nt = [], []
    X = Ctx(L)
    try:
        lanes = dict(fn=run_fn, ptr=run_ptr, geo=run_geo, conv=run_conv, toint=run_toint, half=run_half)[c["k"]](X, c, v, nt)
        return dict(violations=v, nontrivial=nt, evals=lanes, stats={"lanes": lanes, "programs": 1}, sample=dict(kind=c["k"], t=c["t"], w=c["w"], functions=nt[:4]))
    finally:
        X.release()
