"""C14: kernel image reads, writes and queries against a reference sampler written from the OpenCL image model."""
import ctypes as ct, math, random, struct
import numpy as np
import ocl
from ocl import Ctx, Lib, C, sizes
from c13 import ORD, TYP, Fmt, Desc, formats, channel_ok

PROP = "C14"
RULE = ("random images (every type, channel order and data type reported as supported, small odd sizes, arrays) with random and special contents; one kernel launch reads 48 coordinates (cell borders, centres, "
        "edges +-ulp, far out of range, random) through each of several samplers (argument, literal, program-scope constant, typedef; directly or inside a called function) or without one, "
        "writes pixels and queries attributes; every channel of every result and every byte of written images compared with the reference; non-trivial = distinct (type, order, data type, sampler, coordinate kind, route) combinations")
ASSUMPTIONS = ["coordinates that OpenCL leaves undefined (outside the image without an addressing mode, NaN, integer-format linear reads) are not generated",
               "nearest reads may pick either pixel within 2^-22 relative of a cell border; linear reads are judged with the matching continuous tolerance"]
ST = {"IMAGE1D": ("image1d_t", 1), "IMAGE1D_ARRAY": ("image1d_array_t", 2), "IMAGE2D": ("image2d_t", 2), "IMAGE2D_ARRAY": ("image2d_array_t", 4), "IMAGE3D": ("image3d_t", 4)}
ALLT = dict(ST, IMAGE1D_BUFFER=("image1d_buffer_t", 1))
VEC = {1: "%s", 2: "%s2", 4: "%s4"}
SW = {1: ".x", 2: ".xy", 4: ""}
MODES = ["NONE", "CLAMP_TO_EDGE", "CLAMP", "REPEAT", "MIRRORED_REPEAT"]
CLMODE = {"NONE": "CL_ADDRESS_NONE", "CLAMP_TO_EDGE": "CL_ADDRESS_CLAMP_TO_EDGE", "CLAMP": "CL_ADDRESS_CLAMP", "REPEAT": "CL_ADDRESS_REPEAT", "MIRRORED_REPEAT": "CL_ADDRESS_MIRRORED_REPEAT"}
SAMPLERS = [(m, n, f) for m in MODES for n in (0, 1) for f in ("NEAREST", "LINEAR") if n or m in ("NONE", "CLAMP_TO_EDGE", "CLAMP")]
ZERO_ALPHA = {"CL_A", "CL_INTENSITY", "CL_Rx", "CL_RA", "CL_RGx", "CL_RGBx", "CL_ARGB", "CL_BGRA", "CL_RGBA"}


def sname(s):
    return "%s_%d_%s" % (s[0], s[1], s[2])


def slit(s):
    a = "CLK_ADDRESS_" + s[0]
    return "CLK_NORMALIZED_COORDS_%s | %s | CLK_FILTER_%s" % ("TRUE" if s[1] else "FALSE", a, s[2])


def source():
    o = ["#pragma OPENCL EXTENSION cl_khr_3d_image_writes : enable", "typedef sampler_t mysampler;"]
    for s in SAMPLERS:
        o.append("constant sampler_t G_%s = %s;" % (sname(s), slit(s)))
    for ty, (t, n) in ALLT.items():
        for k, v in (("f", "float4"), ("i", "int4"), ("ui", "uint4")):
            # without a sampler
            o.append("kernel void rn_%s_%s(read_only %s im, global const int4 *co, global %s *out) { size_t i = get_global_id(0); out[i] = read_image%s(im, co[i]%s); }" % (ty, k, t, v, k, SW[n]))
            o.append("kernel void w_%s_%s(write_only %s im, global const int4 *co, global const %s *in) { size_t i = get_global_id(0); write_image%s(im, co[i]%s, in[i]); }" % (ty, k, t, v, k, SW[n]))
            o.append("void wh_%s_%s(write_only %s im, %s c, %s v) { write_image%s(im, c, v); }" % (ty, k, t, VEC[n] % "int", v, k))
            o.append("kernel void wf_%s_%s(write_only %s im, global const int4 *co, global const %s *in) { size_t i = get_global_id(0); wh_%s_%s(im, co[i]%s, in[i]); }" % (ty, k, t, v, ty, k, SW[n]))
            if ty not in ST:
                continue
            for cn, cv in (("i", "int"), ("f", "float")):
                o.append("%s rh_%s_%s%s(read_only %s im, sampler_t s, %s c) { return read_image%s(im, s, c); }" % (v, ty, k, cn, t, VEC[n] % cv, k))
                for nm, styp, call in (("ra", "sampler_t", "read_image%s(im, s, co[i]%s)" % (k, SW[n])), ("rt", "mysampler", "read_image%s(im, s, co[i]%s)" % (k, SW[n])),
                                       ("rf", "sampler_t", "rh_%s_%s%s(im, s, co[i]%s)" % (ty, k, cn, SW[n]))):
                    o.append("kernel void %s_%s_%s%s(read_only %s im, %s s, global const %s4 *co, global %s *out) { size_t i = get_global_id(0); out[i] = %s; }" % (nm, ty, k, cn, t, styp, cv, v, call))
        q = ["get_image_width(im)", "get_image_channel_data_type(im)", "get_image_channel_order(im)"]
        if ty.startswith(("IMAGE2D", "IMAGE3D")):
            q += ["get_image_height(im)", "get_image_dim(im).x", "get_image_dim(im).y"]
        if ty == "IMAGE3D":
            q += ["get_image_depth(im)", "get_image_dim(im).z", "get_image_dim(im).w"]
        if ty.endswith("ARRAY"):
            q += ["(int)get_image_array_size(im)"]
        for acc in ("read_only", "write_only"):
            o.append("kernel void q%s_%s(%s %s im, global int *out) { %s }" % (acc[0], ty, acc, t, " ".join("out[%d] = %s;" % (i, x) for i, x in enumerate(q))))
    return "\n".join(o) + "\n"


def litsource(ty):
    o = []
    t, n = ST[ty]
    for s in SAMPLERS:
        o.append("constant sampler_t G_%s = %s;" % (sname(s), slit(s)))
        for k, v in (("f", "float4"), ("i", "int4"), ("ui", "uint4")):
            if k != "f" and s[2] == "LINEAR":
                continue
            o.append("kernel void rl_%s_%s(read_only %s im, global const float4 *co, global %s *out) { size_t i = get_global_id(0); const sampler_t s = %s; out[i] = read_image%s(im, s, co[i]%s); }" % (sname(s), k, t, v, slit(s), k, SW[n]))
            o.append("kernel void rg_%s_%s(read_only %s im, global const float4 *co, global %s *out) { size_t i = get_global_id(0); out[i] = read_image%s(im, G_%s, co[i]%s); }" % (sname(s), k, t, v, k, sname(s), SW[n]))
    return "\n".join(o) + "\n"


def cases(rng, tier):
    return [dict(seed=rng.randrange(1 << 30)) for _ in range(6000 if tier == "quick" else 150000)]


class W:
    pass


def setup_worker(env):
    w = W()
    w.L = Lib(env["build"])
    w.L.err = ct.c_int32()
    w.fmts = {}
    w.X = None
    w.n = 0
    return w


def ctx(w):
    w.n += 1
    if w.X is None or w.n % 400 == 0:
        if w.X:
            w.X.release()
        w.X = Ctx(w.L, {"NUM_THREADS": 1})
        w.P = w.X.program(source())
        w.PL = {}
        w.K, w.S = {}, {}
    return w.X


def kern(w, name, ty=None):
    key = (name, ty)
    if key not in w.K:
        if ty:
            if ty not in w.PL:
                w.PL[ty] = w.X.program(litsource(ty))
            w.K[key] = w.X.kernel(w.PL[ty], name)
        else:
            w.K[key] = w.X.kernel(w.P, name)
    return w.K[key]


def sampler(w, s):
    if s not in w.S:
        w.S[s] = w.L.clCreateSampler(w.X.ctx, s[1], C[CLMODE[s[0]]], C["CL_FILTER_" + s[2]], ct.byref(w.L.err))
        assert w.L.err.value == 0
        w.X.objs.append(("clReleaseSampler", w.S[s]))
    return w.S[s]


CHAN = {"CL_R": "r001", "CL_Rx": "r001", "CL_A": "000a", "CL_RG": "rg01", "CL_RGx": "rg01", "CL_RA": "r00a", "CL_RGB": "rgb1", "CL_RGBA": "rgba", "CL_BGRA": "rgba", "CL_ARGB": "rgba",
        "CL_INTENSITY": "rrrr", "CL_LUMINANCE": "rrr1"}


def decode(order, dt, raw):
    """pixel bytes -> 4 colour values of the image model"""
    sz, k, p = TYP[dt]
    vals = {}
    for i, ch in enumerate(ORD[order]):
        b = raw[i * sz:(i + 1) * sz]
        if k in "iu":
            x = int.from_bytes(b, "little", signed=k == "i")
        elif k == "f":
            x = struct.unpack("<f", b)[0]
        elif k == "h":
            x = float(np.frombuffer(b, np.float16)[0])
        else:
            x = int.from_bytes(b, "little", signed=k == "n")
            x = max(x / p, -1.0)
        vals[ch] = x
    return [0 if ch == "0" else 1 if ch == "1" else vals[ch] for ch in CHAN[order]]


def near_axis(mode, norm, x, size):
    """set of pixel indices allowed for a coordinate; -1 = border"""
    u = x * size if norm else x
    d = (abs(u) + size) * 2.0 ** -22 if norm else 0.0
    out = set()
    for uu in (u - d, u, u + d):
        if mode == "NONE":
            i = math.floor(uu)
            out.add(i if 0 <= i < size else -1)
        elif mode == "CLAMP_TO_EDGE":
            out.add(min(max(math.floor(uu), 0), size - 1))
        elif mode == "CLAMP":
            i = math.floor(uu)
            out.add(i if 0 <= i < size else -1)
        elif mode == "REPEAT":
            out.add(math.floor(uu) % size)
        else:
            f = abs(uu / size - 2 * round(0.5 * uu / size))
            out.add(min(math.floor(f * size), size - 1))
    return out


def lin_axis(mode, norm, x, size):
    """(index0, index1, weight of index1); -1 = border"""
    u = x * size if norm else x
    clip = lambda i: i if 0 <= i < size else -1
    if mode == "REPEAT":
        u = (x - math.floor(x)) * size
        i0 = math.floor(u - .5)
        return i0 % size, (i0 + 1) % size, u - .5 - i0
    if mode == "MIRRORED_REPEAT":
        u = abs(x - 2 * round(.5 * x)) * size
        i0 = math.floor(u - .5)
        return max(i0, 0), min(i0 + 1, size - 1), u - .5 - i0
    i0 = math.floor(u - .5)
    a = u - .5 - i0
    if mode == "CLAMP_TO_EDGE":
        return min(max(i0, 0), size - 1), min(max(i0 + 1, 0), size - 1), a
    return clip(i0), clip(i0 + 1), a


def layer_of(x, n):
    if abs(x) > 1e6:
        return 0 if x < 0 else n - 1
    return min(max(round(x), 0), n - 1)


def f32(x):
    return float(np.float32(x))


def coord(r, mode, norm, filt, size, kind):
    """a coordinate along one axis whose result is defined"""
    inrange = mode == "NONE"
    if kind == "i":
        if inrange:
            return r.randrange(size)
        return r.choice([r.randrange(size), r.randrange(size), r.randint(-3, size + 3), -1, size, size - 1, 0, 2 ** 31 - 1, -2 ** 31, 100000, -100000])
    for _ in range(100):
        t = r.random()
        if t < .3:
            u = r.randrange(-2, size + 3) + r.choice([0, .5, .25, .75, .5])
        elif t < .5:
            u = r.uniform(-1, size + 1)
        elif t < .6:
            u = r.choice([0, size, .5, size - .5, -.5, size + .5]) + r.choice([-1e-6, 1e-6, -1e-3, 1e-3])
        elif t < .7:
            u = r.uniform(-20, 20) * size
        elif t < .76:
            u = r.choice([1e10, -1e10, 3e9, -3e9, 1e30, -1e30, 16777217.0, -0.0, 1e-30, -1e-30, 2147483648.0, -2147483648.0, 1e6, -1e6])
            if filt == "LINEAR" and abs(u) > 1e5 and mode in ("REPEAT", "MIRRORED_REPEAT"):
                continue
        else:
            u = r.uniform(0, size)
        if norm and r.random() < .15:
            x = r.choice([0, 1, .5, -1, 2, 3, -2, 1.5, -.5, -1e-9, 1 - 2.0 ** -24, 1 + 2.0 ** -23, 2 - 2.0 ** -23])
        else:
            x = u / size if norm else u
        x = f32(x)
        if inrange:
            u = x * size if norm else x
            lo, hi = (.5, size - .5) if filt == "LINEAR" else (0, size)
            m = (abs(u) + size) * 2.0 ** -21 if norm else 0
            if filt == "LINEAR" and not (lo <= u - m and u + m < hi):
                if size == 1 and filt == "LINEAR":
                    # the centre of the only pixel is the only defined place
                    return f32(.5)
                continue
            if filt != "LINEAR" and not (lo <= u - m and u + m < hi):
                continue
        if norm and mode in ("REPEAT", "MIRRORED_REPEAT") and abs(x) > 1e6:
            continue
        return x
    return f32(.5 if norm else .5 if size == 1 else size / 2)


def run_case(w, c):
    L = w.L
    r = random.Random(c["seed"])
    X = ctx(w)
    err = L.err
    L.mon.mask("log")
    L.mon.clear()
    v, keys, stats = [], set(), {}
    mark = len(X.objs)

    ty = r.choice(list(ALLT))
    fm = formats(w, X, ty)
    order, dt = r.choice(fm)
    if r.random() < .3:
        order, dt = r.choice([(o, d) for o, d in fm if d in ("CL_FLOAT", "CL_UNORM_INT8", "CL_SNORM_INT16", "CL_HALF_FLOAT", "CL_UNSIGNED_INT8", "CL_SIGNED_INT32")])
    k = TYP[dt][1]
    fn = {"i": "i", "u": "ui"}.get(k, "f")
    px = len(ORD[order]) * TYP[dt][0]
    wd = r.choice([1, 2, 3, 4, 5, 7, 8, 13])
    h = r.choice([1, 2, 3, 5, 8]) if ty in ("IMAGE2D", "IMAGE2D_ARRAY", "IMAGE3D") else 1
    d = r.choice([1, 2, 3, 5]) if ty == "IMAGE3D" else 1
    n = r.choice([1, 2, 3, 4]) if ty.endswith("ARRAY") else 1
    size = {"IMAGE1D_ARRAY": (wd, n, 1), "IMAGE2D_ARRAY": (wd, h, n)}.get(ty, (wd, h, d))
    name = "%s%s %s/%s" % (ty, size, order, dt)

    def image(data):
        desc = Desc(C["CL_MEM_OBJECT_" + ty], wd, h, d, n, 0, 0, 0, 0, None)
        fmt = Fmt(C[order], C[dt])
        fl = 0
        p = None
        if ty == "IMAGE1D_BUFFER":
            desc.buf = X.buffer(np.concatenate([data.reshape(-1), np.zeros(7, np.uint8)]))
        elif r.random() < .4:
            # padded rows: the pitches of the host array
            ap = r.choice([0, 1, 3])
            rp = (wd + ap) * px
            if ty == "IMAGE1D_ARRAY":
                sp = rp * r.choice([1, 1, 2])
                a = np.zeros((n, sp), np.uint8)
                a[:, :wd * px] = data[0]
            else:
                sp = rp * (h + r.choice([0, 0, 2]))
                a = np.zeros((size[2], sp), np.uint8)
                for z in range(size[2]):
                    for y in range(h):
                        a[z, y * rp:y * rp + wd * px] = data[z, y]
            desc.rp = rp
            if ty in ("IMAGE3D", "IMAGE2D_ARRAY", "IMAGE1D_ARRAY"):
                desc.sp = sp
            p = a.ctypes.data
            fl = C["CL_MEM_COPY_HOST_PTR"]
        m = L.clCreateImage(X.ctx, fl, ct.byref(fmt), ct.byref(desc), p, ct.byref(err))
        if err.value:
            v.append(("create", "clCreateImage returns %d for %s" % (err.value, name)))
            return None
        X.objs.append(("clReleaseMemObject", m))
        if ty != "IMAGE1D_BUFFER" and not p:
            X.chk("write", L.clEnqueueWriteImage(X.q, m, 1, sizes([0, 0, 0]), sizes(size), 0, 0, data.ctypes.data, 0, None, None))
        return m

    # contents without NaN; special values now and then
    data = np.frombuffer(r.randbytes(size[2] * size[1] * wd * px), np.uint8).copy()
    if k == "f":
        f = np.array([r.uniform(-4, 4) for _ in range(len(data) // 4)], np.float32)
        if r.random() < .2:
            f[r.randrange(len(f))] = r.choice([1e30, -1e-40, 0.0, -0.0, 3e38])
        data = f.view(np.uint8).copy()
    elif k == "h":
        f = np.array([r.uniform(-4, 4) for _ in range(len(data) // 2)], np.float16)
        if r.random() < .2:
            f[r.randrange(len(f))] = r.choice([65504, 6e-8, -0.0])
        data = f.view(np.uint8).copy()
    elif r.random() < .3:
        data[:] = [r.choice([0, 255, 127, 128, 1]) for _ in range(len(data))]
    data = data.reshape(size[2], size[1], wd * px)
    im = image(data)
    if im is None:
        return dict(violations=v)
    cache = {}

    def pixel(x, y, z):
        if (x, y, z) not in cache:
            cache[x, y, z] = decode(order, dt, data[z, y, x * px:(x + 1) * px].tobytes())
        return cache[x, y, z]
    border = [0, 0, 0, 0 if order in ZERO_ALPHA else 1]

    def launch(K, args, N):
        X.args(K, *args)
        X.launch(K, (N,), r.choice([None, (1,), (4,) if N % 4 == 0 else (N,)]))

    N = 48
    dims = {1: 1, 2: 2, 4: 3}[ALLT[ty][1]]
    arr = {"IMAGE1D_ARRAY": 1, "IMAGE2D_ARRAY": 2}.get(ty)
    for _ in range(r.randint(2, 4)):
        how = r.random()
        if ty not in ST or how < .12:
            s, kind, route = ("NONE", 0, "NEAREST"), "i", "rn"
        else:
            s = r.choice([x for x in SAMPLERS if fn == "f" or x[2] == "NEAREST"])
            kind = "i" if s[2] == "NEAREST" and not s[1] and s[0] in ("NONE", "CLAMP_TO_EDGE", "CLAMP") and r.random() < .4 else "f"
            route = r.choice(["ra", "ra", "rt", "rf"] + (["rl", "rg"] if kind == "f" else []))
        co = np.zeros((N, 4), np.int32 if kind == "i" else np.float32)
        for i in range(N):
            for a in range(dims):
                if a == arr:
                    co[i, a] = r.randrange(n) if kind == "i" and s[0] == "NONE" else r.choice([-1, 0, 1, n - 1, n, 7, -100, 2 ** 31 - 1, -2 ** 31]) if kind == "i" else f32(r.choice([r.uniform(-1, n + 1), r.randrange(n), r.randrange(n) + .5, -.5, 1.5, 3e9, -3e9]))
                else:
                    co[i, a] = coord(r, s[0], s[1], s[2], size[a], kind)
        out = X.buffer(np.full(N * 16 + 16, 0xCD, np.uint8))
        cb = X.buffer(co)
        if route == "rn":
            launch(kern(w, "rn_%s_%s" % (ty, fn)), (im, cb, out), N)
        elif route in ("rl", "rg"):
            launch(kern(w, "%s_%s_%s" % (route, sname(s), fn), ty), (im, cb, out), N)
        else:
            launch(kern(w, "%s_%s_%s%s" % (route, ty, fn, kind)), (im, sampler(w, s), cb, out), N)
        raw = X.read(out, N * 16 + 16)
        if (raw[N * 16:] != 0xCD).any():
            v.append(("guard", "bytes behind the results changed"))
        got = raw[:N * 16].view({"f": np.float32, "i": np.int32, "ui": np.uint32}[fn]).reshape(N, 4)
        keys.add("%s %s %s %s %s %s" % (ty, order, dt, sname(s), kind, route))
        stats["reads"] = stats.get("reads", 0) + N
        for i in range(N):
            x = [float(co[i, a]) if kind == "f" else int(co[i, a]) for a in range(dims)]
            g = [float(t) if fn == "f" else int(t) for t in got[i]]
            z = None
            if arr is not None:
                z = layer_of(x[arr], n)
            sp = [a for a in range(dims) if a != arr]
            if s[2] == "NEAREST":
                opts = [near_axis(s[0], s[1], x[a], size[a]) for a in sp]
                ok = False
                exp = []
                for i0 in opts[0]:
                    for i1 in (opts[1] if len(opts) > 1 else [0]):
                        for i2 in (opts[2] if len(opts) > 2 else [0]):
                            if -1 in (i0, i1, i2):
                                e = border
                            elif arr == 1:
                                e = pixel(i0, z, 0)
                            elif arr == 2:
                                e = pixel(i0, i1, z)
                            else:
                                e = pixel(i0, i1, i2)
                            exp.append(e)
                            if fn != "f":
                                ok = ok or g == list(e)
                            else:
                                tol = 0 if k in "fh" else 2.0 ** -22
                                ok = ok or all(abs(a - b) <= tol for a, b in zip(g, e))
            else:
                ax = [lin_axis(s[0], s[1], x[a], size[a]) for a in sp]
                px_ = []
                e = [0.0] * 4
                for m in range(1 << len(ax)):
                    wt, idx = 1.0, []
                    for a, (i0, i1, t) in enumerate(ax):
                        if m >> a & 1:
                            wt *= t
                            idx.append(i1)
                        else:
                            wt *= 1 - t
                            idx.append(i0)
                    if -1 in idx:
                        pv = border
                    elif arr == 1:
                        pv = pixel(idx[0], z, 0)
                    elif arr == 2:
                        pv = pixel(idx[0], idx[1], z)
                    else:
                        pv = pixel(*(idx + [0, 0])[:3])
                    px_.append(pv)
                    for q in range(4):
                        e[q] += wt * pv[q]
                exp = [e]
                ok = True
                for q in range(4):
                    # all pixels a perturbed coordinate may touch lie within the range of the image
                    mx = max(abs(pv[q]) for pv in px_)
                    tol = 8 * 2.0 ** -23 * mx + 1e-9
                    for a, ia in enumerate(sp):
                        u = x[ia] * size[ia] if s[1] else x[ia]
                        dl = min((abs(u) + size[ia]) * 2.0 ** -22, 1.0)
                        tol += dl * 2 * rng_all(w, cache, pixel, size, q, border)
                    ok = ok and abs(g[q] - e[q]) <= tol
            if not ok:
                v.append(("read %s %s %s %s" % (ty if s[2] == "LINEAR" else "nearest", sname(s), kind, order if s[2] == "NEAREST" else ""),
                          "%s: read_image%s with %s sampler %s at %s returns %s, expected %s" % (name, fn, {"rn": "no", "ra": "argument", "rt": "typedef argument", "rf": "helper", "rl": "literal", "rg": "constant"}[route], sname(s), x, g, exp[:4])))
                break

    # writes
    if r.random() < .7:
        m = r.randint(1, min(24, wd * size[1] * size[2]))
        cells = [(x, y, z) for z in range(size[2]) for y in range(size[1]) for x in range(wd)]
        pick = r.sample(cells, m)
        co = np.array([(x, y, z, r.randint(-5, 5)) for x, y, z in pick], np.int32)
        if fn == "f":
            col = np.array([[r.choice([r.uniform(-1.2, 1.2), r.uniform(0, 1), 0.0, 1.0, -1.0, .5, 1e10, -1e10, 2.5 / 255, 1e-42, 65519.0, 65520.0, 1 / 3.0, 3e-8]) for _ in range(4)] for _ in pick], np.float32)
        else:
            col = np.array([[r.choice([r.getrandbits(32), r.getrandbits(7), 0, 0x7fffffff, 0x80000000, 0xffffffff, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0xffffff80, 0xffffff7f, 0xffff8000, 0xffff7fff]) for _ in range(4)] for _ in pick], np.uint32)
        # the last argument of 1D and 2D coordinates is not part of the image
        launch(kern(w, "%s_%s_%s" % (r.choice(["w", "wf"]), ty, fn)), (im, X.buffer(co), X.buffer(col)), m)
        keys.add("write %s %s %s" % (ty, order, dt))
        stats["writes"] = stats.get("writes", 0) + m
        back = np.full(data.size + 32, 0xEE, np.uint8)
        X.chk("read", L.clEnqueueReadImage(X.q, im, 1, sizes([0, 0, 0]), sizes(size), 0, 0, back.ctypes.data + 16, 0, None, None))
        got = back[16:-16].reshape(data.shape).copy()
        sz = TYP[dt][0]
        for (x, y, z), cl in zip(pick, col):
            p = got[z, y, x * px:(x + 1) * px].tobytes()
            for i, ch in enumerate(ORD[order]):
                ok = channel_ok(dt, cl["rgba".index(ch)].tobytes())
                if ok is not None and p[i * sz:(i + 1) * sz] not in ok:
                    v.append(("write %s %s" % (order, dt), "%s: write_image%s of %s at %s stores %s in channel %s, expected %s" % (name, fn, list(cl), (x, y, z), p[i * sz:(i + 1) * sz].hex(), ch, sorted(t.hex() for t in ok))))
                    break
            got[z, y, x * px:(x + 1) * px] = data[z, y, x * px:(x + 1) * px]
        if (got != data).any():
            v.append(("write:other " + ty, "%s: write_image at %s changed other pixels (z,y,byte %s)" % (name, pick[:6], list(map(tuple, np.argwhere(got != data)[:4])))))
    # queries
    if r.random() < .5:
        exp = [wd, C[dt], C[order]]
        if ty.startswith(("IMAGE2D", "IMAGE3D")):
            exp += [h, wd, h]
        if ty == "IMAGE3D":
            exp += [d, d, 0]
        if ty.endswith("ARRAY"):
            exp += [n]
        out = X.buffer(np.full(16, -7, np.int32))
        launch(kern(w, "q%s_%s" % (r.choice("rw"), ty)), (im, out), 1)
        g = list(map(int, X.read(out, 64).view(np.int32)[:len(exp)]))
        keys.add("query %s %s" % (ty, size))
        if g != exp:
            v.append(("query " + ty, "%s: image queries return %s, expected %s" % (name, g, exp)))
    logs = L.mon.logs()
    if logs:
        v.append(("log " + ty, "%s: valid image accesses reported: %s" % (name, str(logs[0])[:300])))
    while len(X.objs) > mark:
        f, o = X.objs.pop()
        if f in ("clReleaseKernel", "clReleaseProgram", "clReleaseSampler"):
            X.hold = getattr(X, "hold", [])
            X.hold.append((f, o))
        else:
            getattr(L, f)(o)
    if getattr(X, "hold", None):
        X.objs += X.hold
        X.hold = []
    return dict(violations=v, nontrivial=sorted(keys), stats=stats, evals=sum(stats.values()), sample=dict(image=name, keys=sorted(keys)))


def rng_all(w, cache, pixel, size, q, border):
    key = ("range", q)
    if key not in cache:
        vals = [pixel(x, y, z)[q] for z in range(size[2]) for y in range(size[1]) for x in range(size[0])] + [border[q]]
        cache[key] = max(vals) - min(vals)
    return cache[key]
