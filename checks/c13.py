"""C13: image command histories against a pixel-array model.  Oracle: every byte of every image, buffer and host array (with guard and
padding bytes) at observation points, read back by several routes."""
import ctypes as ct, random, struct
from fractions import Fraction
import numpy as np
import ocl
from ocl import Ctx, Lib, C, sizes, ptrs

PROP = "C13"
RULE = ("random histories of 10-40 image commands (read, write, copy, fill, image/buffer copies, map/unmap, buffer commands under 1D-buffer images, kernels) over 2-5 images of every type, "
        "supported format, host-pointer mode and pitch; contents compared with a pixel-array model at every sync point through a randomly chosen route; non-trivial = history with >=6 executed "
        "commands on >=2 image types, distinct by command/type sequence")
ASSUMPTIONS = ["commands on one in-order queue; regions mapped for writing are not touched by other commands while mapped", "fill conversions may choose either neighbour within 0.6 of a quantum"]
G = 48
ORD = {"CL_R": "r", "CL_A": "a", "CL_RG": "rg", "CL_RA": "ra", "CL_RGB": "rgb", "CL_RGBA": "rgba", "CL_BGRA": "bgra", "CL_ARGB": "argb", "CL_INTENSITY": "r", "CL_LUMINANCE": "r", "CL_Rx": "r", "CL_RGx": "rg"}
TYP = {"CL_SNORM_INT8": (1, "n", 127), "CL_SNORM_INT16": (2, "n", 32767), "CL_UNORM_INT8": (1, "N", 255), "CL_UNORM_INT16": (2, "N", 65535), "CL_SIGNED_INT8": (1, "i", 8),
       "CL_SIGNED_INT16": (2, "i", 16), "CL_SIGNED_INT32": (4, "i", 32), "CL_UNSIGNED_INT8": (1, "u", 8), "CL_UNSIGNED_INT16": (2, "u", 16), "CL_UNSIGNED_INT32": (4, "u", 32),
       "CL_HALF_FLOAT": (2, "h", 0), "CL_FLOAT": (4, "f", 0)}
TYPES = ["IMAGE1D", "IMAGE1D_BUFFER", "IMAGE1D_ARRAY", "IMAGE2D", "IMAGE2D_ARRAY", "IMAGE3D"]
KT = {"IMAGE1D": ("image1d_t", "x"), "IMAGE1D_BUFFER": ("image1d_buffer_t", "x"), "IMAGE1D_ARRAY": ("image1d_array_t", "(int2)(x,y)"), "IMAGE2D": ("image2d_t", "(int2)(x,y)"),
      "IMAGE2D_ARRAY": ("image2d_array_t", "(int4)(x,y,z,0)"), "IMAGE3D": ("image3d_t", "(int4)(x,y,z,0)")}
KSRC = "#pragma OPENCL EXTENSION cl_khr_3d_image_writes : enable\n" + "".join(
    "kernel void k_%s(read_only %s a, write_only %s b, int4 o, int4 p) { int x = get_global_id(0)+o.x, y = get_global_id(1)+o.y, z = get_global_id(2)+o.z; uint4 v = read_imageui(a, %s); x += p.x; y += p.y; z += p.z; write_imageui(b, %s, v ^ 1); }\n"
    % (t, k, k, c, c) for t, (k, c) in KT.items())


class Fmt(ct.Structure):
    _fields_ = [("order", ct.c_uint32), ("type", ct.c_uint32)]


class Desc(ct.Structure):
    _fields_ = [("type", ct.c_uint32), ("w", ct.c_size_t), ("h", ct.c_size_t), ("d", ct.c_size_t), ("n", ct.c_size_t), ("rp", ct.c_size_t), ("sp", ct.c_size_t),
                ("mip", ct.c_uint32), ("smp", ct.c_uint32), ("buf", ct.c_void_p)]


def cases(rng, tier):
    return [dict(seed=rng.randrange(1 << 30), n=rng.randint(10, 40)) for _ in range(20000 if tier == "quick" else 500000)]


class W:
    pass


def setup_worker(env):
    w = W()
    w.L = Lib(env["build"])
    w.L.err = ct.c_int32()
    w.fmts = {}
    return w


def formats(w, X, ty):
    if ty not in w.fmts:
        n = ct.c_uint32()
        w.L.clGetSupportedImageFormats(X.ctx, 1, C["CL_MEM_OBJECT_" + ty], 0, None, ct.byref(n))
        arr = (Fmt * n.value)()
        w.L.clGetSupportedImageFormats(X.ctx, 1, C["CL_MEM_OBJECT_" + ty], n.value, arr, None)
        o, t = {C[x]: x for x in ORD}, {C[x]: x for x in TYP}
        w.fmts[ty] = [(o[f.order], t[f.type]) for f in arr if f.order in o and f.type in t]
        assert w.fmts[ty], ty
    return w.fmts[ty]


def half_ok(f):
    """bit patterns allowed for the conversion of a float to half (to nearest even or towards zero)"""
    with np.errstate(all="ignore"):
        h = np.float16(f)
    out = {int(h.view(np.uint16))}
    if np.isfinite(f) and abs(float(h)) > abs(float(f)):
        out.add(int(h.view(np.uint16)) - 1)
    return out


def channel_ok(ty, raw):
    """set of allowed byte strings for one channel of a fill colour given as 4 raw bytes"""
    sz, k, p = TYP[ty]
    if k in "iu":
        v = int.from_bytes(raw, "little", signed=(k == "i"))
        lo, hi = (-(1 << (p - 1)), (1 << (p - 1)) - 1) if k == "i" else (0, (1 << p) - 1)
        return {min(max(v, lo), hi).to_bytes(sz, "little", signed=(k == "i"))}
    f = struct.unpack("<f", raw)[0]
    if k == "f":
        return {raw} if f == f else None
    if f != f:
        return None
    if k == "h":
        return {x.to_bytes(2, "little") for x in half_ok(np.float32(f))}
    signed = k == "n"
    lo, hi = (-p - 1, p) if signed else (0, p)
    if f in (float("inf"), float("-inf")):
        v = Fraction(hi if f > 0 else lo)
    else:
        v = Fraction(f) * p
    v = min(max(v, Fraction(lo)), Fraction(hi))
    out = set()
    for c in range(int(v) - 2, int(v) + 3):
        if lo <= c <= hi and abs(c - v) <= Fraction(6, 10):
            out.add(c)
    if signed and v <= -p:
        out |= {-p, -p - 1}
    return {c.to_bytes(sz, "little", signed=signed) for c in out}


class Host:
    """host array with guard bytes; model of every byte"""

    def __init__(self, n, r):
        self.a = np.frombuffer(r.randbytes(n + 2 * G), np.uint8).copy()
        self.m = self.a.copy()
        self.n = n

    def ptr(self):
        return self.a.ctypes.data + G

    @property
    def model(self):
        return self.m[G:G + self.n]


class Img:
    pass


def rows(region, rp, sp):
    """(z, y, byte offset) of every row of a region"""
    for z in range(region[2]):
        for y in range(region[1]):
            yield z, y, y * rp + z * sp


def run_case(w, c):
    L = w.L
    r = random.Random(c["seed"])
    X = Ctx(L, {"NUM_THREADS": 1})
    v, trace, stats = [], [], {}
    err = L.err
    keep = []
    hosts = []
    L.mon.mask("log")
    L.mon.clear()
    imgs, bufs = [], []
    kern = {}
    pk = r.choice([0, 0, .5, .9])
    types = set()

    class Stop(Exception):
        pass

    def bad(key, what):
        v.append((key, what + " | images: " + "; ".join(i.name for i in imgs) + " | trace: " + "; ".join(trace[-25:])))
        raise Stop()

    def chk(what, code, detail=""):
        if code:
            bad("%s:code" % what, "%s returns %d %s" % (what, code, detail))

    def create():
        i = Img()
        ty = i.type = r.choice(TYPES + [x.type for x in imgs])
        same = [x for x in imgs if x.type in TYPES]
        i.order, i.dt = r.choice(formats(w, X, ty)) if not same or r.random() < .4 else (lambda x: (x.order, x.dt))(r.choice(same))
        if r.random() < pk:
            i.order, i.dt = "CL_RGBA", r.choice(["CL_UNSIGNED_INT8", "CL_UNSIGNED_INT16", "CL_UNSIGNED_INT32"])
        if (i.order, i.dt) not in formats(w, X, ty):
            i.order, i.dt = r.choice(formats(w, X, ty))
        i.px = len(ORD[i.order]) * TYP[i.dt][0]
        wd = r.choice([1, 2, 3, 5, 8, 17])
        h = r.choice([1, 2, 3, 7]) if ty in ("IMAGE2D", "IMAGE2D_ARRAY", "IMAGE3D") else 1
        d = r.choice([1, 2, 3]) if ty == "IMAGE3D" else 1
        n = r.choice([1, 2, 4]) if ty.endswith("ARRAY") else 1
        desc = Desc(C["CL_MEM_OBJECT_" + ty], wd, h, d, n, 0, 0, 0, 0, None)
        # size in region coordinates
        i.size = {"IMAGE1D_ARRAY": (wd, n, 1), "IMAGE2D_ARRAY": (wd, h, n)}.get(ty, (wd, h, d))
        i.maps = []
        i.host = None
        fl = r.choice([0, C["CL_MEM_READ_WRITE"]])
        fmt = Fmt(C[i.order], C[i.dt])
        if ty == "IMAGE1D_BUFFER":
            bs = [b for b in bufs if len(b.data) >= wd * i.px]
            if bs and r.random() < .7:
                b = r.choice(bs)
            else:
                b = buffer(wd * i.px + r.choice([0, 5, 64]))
            desc.buf = b.mem
            i.data = b.data[:wd * i.px].reshape(1, 1, wd * i.px)
            i.maps = b.maps
            i.rp, i.sp, hostptr = 0, 0, None
            mode = "buffer"
        else:
            mode = r.choice(["plain", "alloc", "copy", "use", "use"])
            rp = wd * i.px
            sp = 0
            if mode in ("copy", "use"):
                if r.random() < .6:
                    rp = (wd + r.choice([0, 1, 4])) * i.px
                    desc.rp = rp
                hh = rp * h
                if ty in ("IMAGE3D", "IMAGE2D_ARRAY", "IMAGE1D_ARRAY"):
                    sp = hh
                    if r.random() < .5:
                        sp = rp * (h + r.choice([0, 1, 2]))
                        desc.sp = sp
                total = sp * max(d, n) if sp else hh
                H = Host(total, r)
                fl |= C["CL_MEM_%s_HOST_PTR" % mode.upper()] | (C["CL_MEM_ALLOC_HOST_PTR"] if mode == "copy" and r.random() < .2 else 0)
                hostptr = H.ptr()
                i.data = np.zeros((i.size[2], i.size[1], wd * i.px), np.uint8)
                rr, ss = (sp, 0) if ty == "IMAGE1D_ARRAY" else (rp, sp)
                for z, y, o in rows(i.size, rr, ss):
                    i.data[z, y] = H.model[o:o + wd * i.px]
                i.host, i.hrp, i.hsp = (H if mode == "use" else None), rr, ss
                if mode == "copy":
                    hosts.append(H)
                keep.append(H)
            else:
                hostptr = None
                i.data = None
                fl |= C["CL_MEM_ALLOC_HOST_PTR"] if mode == "alloc" else 0
        via = r.random()
        if ty == "IMAGE2D" and via < .2:
            i.mem = L.clCreateImage2D(X.ctx, fl, ct.byref(fmt), wd, h, desc.rp, hostptr, ct.byref(err))
        elif ty == "IMAGE3D" and via < .2 and d > 1:
            i.mem = L.clCreateImage3D(X.ctx, fl, ct.byref(fmt), wd, h, d, desc.rp, desc.sp, hostptr, ct.byref(err))
        elif via > .9:
            i.mem = L.clCreateImageWithProperties(X.ctx, None, fl, ct.byref(fmt), ct.byref(desc), hostptr, ct.byref(err))
        else:
            i.mem = L.clCreateImage(X.ctx, fl, ct.byref(fmt), ct.byref(desc), hostptr, ct.byref(err))
        i.name = "%s%s %s/%s %s" % (ty, i.size, i.order, i.dt, mode)
        imgs.append(i)
        chk("clCreateImage", err.value, i.name)
        X.objs.append(("clReleaseMemObject", i.mem))
        types.add(ty)
        if i.data is None:
            i.data = np.frombuffer(r.randbytes(i.size[2] * i.size[1] * wd * i.px), np.uint8).reshape(i.size[2], i.size[1], wd * i.px).copy()
            t = i.data.copy()
            chk("clEnqueueWriteImage", L.clEnqueueWriteImage(X.q, i.mem, 1, sizes([0, 0, 0]), sizes(i.size), 0, 0, t.ctypes.data, 0, None, None), i.name)
            t ^= 255
        return i

    def buffer(n):
        b = Img()
        b.data = np.frombuffer(r.randbytes(n), np.uint8).copy()
        b.maps = []
        b.name = "buffer"
        if r.random() < .3 and n > 3:
            # a sub-buffer
            root = X.buffer(np.zeros(n + 128, np.uint8))
            b.mem = L.clCreateSubBuffer(root, 0, C["CL_BUFFER_CREATE_TYPE_REGION"], sizes([128, n]), ct.byref(err))
            chk("clCreateSubBuffer", err.value)
            X.objs.append(("clReleaseMemObject", b.mem))
            X.write(b.mem, b.data)
        else:
            b.mem = X.buffer(b.data)
        bufs.append(b)
        return b

    def region(i):
        o, g = [], []
        for s in i.size:
            if r.random() < .35:
                o.append(0)
                g.append(s)
            else:
                a = r.randrange(s)
                o.append(a)
                g.append(r.randint(1, s - a))
        return o, g

    def part(i, o, g):
        return i.data[o[2]:o[2] + g[2], o[1]:o[1] + g[1], o[0] * i.px:(o[0] + g[0]) * i.px]

    def overlap(a, b):
        return all(x[0] < y[0] + y[1] and y[0] < x[0] + x[1] for x, y in zip(zip(*a), zip(*b)))

    def free(m, rg, write):
        """may a command touch this region, given the mappings of the host"""
        return not any((write or wr) for reg, wr in m.maps)

    def pitches(i, g):
        """(row pitch argument, slice pitch argument, effective pitches)"""
        row = g[0] * i.px
        ty = i.type
        rp = r.choice([0, row, row + r.choice([1, 4, 16])])
        erp = rp or row
        if ty == "IMAGE1D_ARRAY":
            sp = r.choice([0, erp, erp + r.choice([4, 12])])
            return rp, sp, (sp or erp), 0
        if ty in ("IMAGE3D", "IMAGE2D_ARRAY"):
            sp = r.choice([0, erp * g[1], erp * g[1] + r.choice([1, 8, erp])])
            return rp, sp, erp, (sp or erp * g[1])
        return rp, 0, erp, erp * g[1]

    def finish():
        chk("clFinish", L.clFinish(X.q))
        for h in hosts:
            if (h.a != h.m).any():
                k = int(np.argmax(h.a != h.m)) - G
                bad("host memory", "host byte %d of %d differs: %d instead of %d" % (k, h.n, h.a[k + G], h.m[k + G]))

    def readback(i):
        o, g = ([0, 0, 0], list(i.size)) if r.random() < .6 else region(i)
        how = r.choice(["read", "copy", "map", "use"])
        exp = part(i, o, g)
        if how == "use" and (i.host is None or not free(i, None, False)):
            how = "read"
        if how == "map" and not free(i, None, False):
            how = "read"
        if how == "read":
            rp, sp, erp, esp = pitches(i, g)
            h = Host(erp * g[1] + esp * (g[2] - 1) if g[2] > 1 else erp * g[1], r)
            chk("clEnqueueReadImage", L.clEnqueueReadImage(X.q, i.mem, 1, sizes(o), sizes(g), rp, sp, h.ptr(), 0, None, None), i.name)
            for z, y, off in rows(g, erp, esp):
                h.model[off:off + g[0] * i.px] = exp[z, y]
            if (h.a != h.m).any():
                bad("content:read " + i.type, "%s read at %s %s (pitches %d %d) differs from the model: %s instead of %s" % (i.name, o, g, rp, sp, h.a[h.a != h.m][:8], h.m[h.a != h.m][:8]))
        elif how == "copy":
            n = g[0] * g[1] * g[2] * i.px
            b = X.buffer(np.full(n + 32, 0xEE, np.uint8))
            chk("clEnqueueCopyImageToBuffer", L.clEnqueueCopyImageToBuffer(X.q, i.mem, b, sizes(o), sizes(g), 16, 0, None, None), i.name)
            d = X.read(b, n + 32)
            if (d[16:16 + n] != exp.reshape(-1)).any() or (d[:16] != 0xEE).any() or (d[16 + n:] != 0xEE).any():
                bad("content:copy " + i.type, "%s copied to a buffer at %s %s differs from the model" % (i.name, o, g))
        else:
            rp, sp = ct.c_size_t(), ct.c_size_t(0x5A5A)
            p = L.clEnqueueMapImage(X.q, i.mem, 1, C["CL_MAP_READ"], sizes(o), sizes(g), ct.byref(rp), ct.byref(sp), 0, None, None, ct.byref(err))
            chk("clEnqueueMapImage", err.value, i.name)
            erp, esp = (sp.value, 0) if i.type == "IMAGE1D_ARRAY" else (rp.value, sp.value)
            if how == "use" and not i.host.ptr() <= p < i.host.ptr() + i.host.n:
                bad("map:host pointer", "%s mapped outside its host memory" % i.name)
            for z, y, off in rows(g, erp, esp):
                if ct.string_at(p + off, g[0] * i.px) != exp[z, y].tobytes():
                    bad("content:map " + i.type, "%s mapped at %s %s (pitches %d %d) differs from the model in row %d slice %d" % (i.name, o, g, rp.value, sp.value, y, z))
            chk("clEnqueueUnmapMemObject", L.clEnqueueUnmapMemObject(X.q, i.mem, p, 0, None, None))

    def sync():
        finish()
        for i in imgs:
            readback(i)
        for b in bufs:
            if (X.read(b.mem, len(b.data)) != b.data).any():
                bad("content:buffer", "buffer differs from the model")
        stats["sync"] = stats.get("sync", 0) + 1

    try:
        for _ in range(r.randint(2, 5)):
            create()
        buffer(r.choice([256, 1000, 5000]))
        for _ in range(c["n"]):
            i = r.choice(imgs)
            o, g = region(i)
            op = r.choice(["read", "write", "write", "copy", "copy", "fill", "fill", "i2b", "b2i", "map", "unmap", "unmap", "kernel", "bufwrite", "sync"])
            P = part(i, o, g)
            if op in ("write", "fill", "b2i") and not free(i, None, True) or op in ("read", "i2b") and not free(i, None, False):
                continue
            ev = None
            typ = None
            evh = ct.c_void_p()
            E = [0, None, ct.byref(evh)] if r.random() < .3 else [0, None, None]
            desc = "%s %s %s%s" % (op, i.name, o, g)
            if op in ("read", "write"):
                rp, sp, erp, esp = pitches(i, g)
                h = Host(erp * (g[1] - 1) + esp * (g[2] - 1) + g[0] * i.px, r)
                keep.append(h)
                blocking = r.randint(0, 1)
                trace.append("%s pitches %d %d" % (desc, rp, sp))
                f = L.clEnqueueReadImage if op == "read" else L.clEnqueueWriteImage
                chk("clEnqueue%sImage" % op.title(), f(X.q, i.mem, blocking, sizes(o), sizes(g), rp, sp, h.ptr(), *E), desc)
                for z, y, off in rows(g, erp, esp):
                    if op == "read":
                        h.model[off:off + g[0] * i.px] = P[z, y]
                    else:
                        P[z, y] = h.model[off:off + g[0] * i.px]
                if blocking and op == "read" and (h.a != h.m).any():
                    bad("content:read " + i.type, "blocking read of %s differs from the model" % desc)
                if blocking and op == "write":
                    h.a ^= 255
                    h.m ^= 255
                hosts.append(h)
                typ = "CL_COMMAND_%s_IMAGE" % op.upper()
            elif op == "copy":
                j = r.choice([x for x in imgs if (x.order, x.dt) == (i.order, i.dt)])
                o2, _ = region(j)
                g = [min(a, b - c2) for a, b, c2 in zip(g, j.size, o2)]
                if min(g) < 1 or (j.data is i.data or np.shares_memory(i.data, j.data)) and (i is not j or overlap((o, g), (o2, g))):
                    continue
                if not free(i, None, False) or not free(j, None, True):
                    continue
                trace.append("%s -> %s %s" % (desc, j.name, o2))
                part(j, o2, g)[:] = part(i, o, g).copy()
                chk("clEnqueueCopyImage", L.clEnqueueCopyImage(X.q, i.mem, j.mem, sizes(o), sizes(o2), sizes(g), *E), desc + " to " + j.name)
                typ = "CL_COMMAND_COPY_IMAGE"
            elif op == "fill":
                k = TYP[i.dt][1]
                if k in "iu":
                    col = struct.pack("<4I", *[r.choice([0, 1, 100, 127, 128, 200, 255, 256, 32767, 32768, 65535, 65536, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFF00, 0xFFFF8000, r.getrandbits(32)]) for _ in range(4)])
                else:
                    col = struct.pack("<4f", *[r.choice([0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -3.0, 1.002, 1.005, -1.005, r.random(), -r.random(), r.uniform(-2, 2), 65504.0, 65520.0, 1e-7, 1e6, float("inf"), float("-inf")]) for _ in range(4)])
                sz = TYP[i.dt][0]
                allow = [channel_ok(i.dt, col[4 * "rgba".index(ch):4 * "rgba".index(ch) + 4]) for ch in ORD[i.order]]
                desc += " colour %s" % (struct.unpack("<4f" if k in "fhnN" else "<4I", col),)
                trace.append(desc)
                b = ct.create_string_buffer(col, 16)
                chk("clEnqueueFillImage", L.clEnqueueFillImage(X.q, i.mem, b, sizes(o), sizes(g), *E), desc)
                b.raw = b"\xAA" * 16
                # the value is read back (its conversion judged), then every pixel has to have it
                px = np.zeros(i.px, np.uint8)
                chk("clEnqueueReadImage", L.clEnqueueReadImage(X.q, i.mem, 1, sizes(o), sizes([1, 1, 1]), 0, 0, px.ctypes.data, 0, None, None), desc)
                raw = px.tobytes()
                for n, al in enumerate(allow):
                    if al is not None and raw[n * sz:n * sz + sz] not in al:
                        bad("fill value:%s" % i.dt, "%s stores %s in channel %d instead of one of %s" % (desc, raw[n * sz:n * sz + sz].hex(), n, [x.hex() for x in al]))
                P[:] = np.tile(px, g[0])
                typ = "CL_COMMAND_FILL_IMAGE"
                stats["fill values"] = stats.get("fill values", 0) + len(allow)
            elif op in ("i2b", "b2i"):
                n = g[0] * g[1] * g[2] * i.px
                bs = [b for b in bufs if len(b.data) >= n and not np.shares_memory(b.data, i.data) and free(b, None, op == "i2b")]
                if not bs:
                    continue
                b = r.choice(bs)
                off = r.choice([0, len(b.data) - n, r.randint(0, len(b.data) - n)])
                trace.append("%s buffer offset %d" % (desc, off))
                if op == "i2b":
                    chk("clEnqueueCopyImageToBuffer", L.clEnqueueCopyImageToBuffer(X.q, i.mem, b.mem, sizes(o), sizes(g), off, *E), desc)
                    b.data[off:off + n] = P.reshape(-1)
                    typ = "CL_COMMAND_COPY_IMAGE_TO_BUFFER"
                else:
                    chk("clEnqueueCopyBufferToImage", L.clEnqueueCopyBufferToImage(X.q, b.mem, i.mem, off, sizes(o), sizes(g), *E), desc)
                    P[:] = b.data[off:off + n].reshape(P.shape)
                    typ = "CL_COMMAND_COPY_BUFFER_TO_IMAGE"
            elif op == "map":
                fl = r.choice([1, 2, 3, 4])  # read, write, both, invalidate
                if i.maps or len(i.maps) > 2:
                    continue
                rp, sp = ct.c_size_t(0x5A5A5A), ct.c_size_t(0x5A5A5A)
                nosp = i.type not in ("IMAGE3D", "IMAGE2D_ARRAY", "IMAGE1D_ARRAY") and r.random() < .5
                trace.append("%s flags %d" % (desc, fl))
                p = L.clEnqueueMapImage(X.q, i.mem, 1, fl, sizes(o), sizes(g), ct.byref(rp), None if nosp else ct.byref(sp), *E, ct.byref(err))
                chk("clEnqueueMapImage", err.value, desc)
                erp, esp = (sp.value, 0) if i.type == "IMAGE1D_ARRAY" else (rp.value, sp.value)
                if rp.value < i.size[0] * i.px or not nosp and g[2] > 1 and esp < erp * i.size[1]:
                    bad("map:pitch", "%s maps with pitches %d %d" % (desc, rp.value, sp.value))
                if i.host and p != i.host.ptr() + o[0] * i.px + o[1] * i.hrp + o[2] * i.hsp:
                    bad("map:host pointer", "%s does not map its host memory" % desc)
                for z, y, off in rows(g, erp, esp):
                    if fl & 3 and ct.string_at(p + off, g[0] * i.px) != P[z, y].tobytes():
                        bad("content:map " + i.type, "%s differs from the model in row %d slice %d" % (desc, y, z))
                    if fl != 1 and (fl == 4 or r.random() < .7):
                        new = r.randbytes(g[0] * i.px)
                        ct.memmove(p + off, new, len(new))
                        P[z, y] = np.frombuffer(new, np.uint8)
                i.maps.append(((o, g), fl != 1))
                i.ptr = p
                typ = "CL_COMMAND_MAP_IMAGE"
            elif op == "unmap":
                m = [x for x in imgs if x.maps and getattr(x, "ptr", None)]
                if not m:
                    continue
                x = r.choice(m)
                trace.append("unmap " + x.name)
                chk("clEnqueueUnmapMemObject", L.clEnqueueUnmapMemObject(X.q, x.mem, x.ptr, *E))
                x.maps.clear()
                x.ptr = None
                typ = "CL_COMMAND_UNMAP_MEM_OBJECT"
            elif op == "kernel":
                j = r.choice([x for x in imgs if x.type == i.type])
                if i.order != "CL_RGBA" or not i.dt.startswith("CL_UNSIGNED") or (j.order, j.dt) != (i.order, i.dt) or i is j or np.shares_memory(i.data, j.data):
                    continue
                if not free(i, None, False) or not free(j, None, True):
                    continue
                o2, _ = region(j)
                g = [min(a, b - c2) for a, b, c2 in zip(g, j.size, o2)]
                if min(g) < 1:
                    continue
                if not kern:
                    kern["p"] = X.program(KSRC)
                kn = "k_" + i.type
                if kn not in kern:
                    kern[kn] = X.kernel(kern["p"], kn)
                trace.append("%s -> %s %s" % (desc, j.name, o2))
                X.args(kern[kn], i.mem, j.mem, np.array(o + [0], np.int32), np.array([b - a for a, b in zip(o, o2)] + [0], np.int32))
                X.launch(kern[kn], g, finish=False)
                one = np.zeros(i.px, np.uint8)
                one[::TYP[i.dt][0]] = 1
                part(j, o2, g)[:] = part(i, o, g).copy() ^ np.tile(one, g[0])
            elif op == "bufwrite":
                bs = [b for b in bufs if free(b, None, True)]
                if not bs:
                    continue
                b = r.choice(bs)
                n = r.randint(1, len(b.data))
                off = r.randint(0, len(b.data) - n)
                d = np.frombuffer(r.randbytes(n), np.uint8)
                trace.append("buffer write %d+%d" % (off, n))
                X.write(b.mem, d, off)
                b.data[off:off + n] = d
            else:
                trace.append("sync")
                sync()
            if E[2] is not None and evh.value:
                ty = ct.c_uint32()
                L.clGetEventInfo(evh, C["CL_EVENT_COMMAND_TYPE"], 4, ct.byref(ty), None)
                if typ and ty.value != C[typ]:
                    bad("event type:" + typ, "event of %s has type 0x%X" % (typ, ty.value))
                L.clReleaseEvent(evh)
            stats[op] = stats.get(op, 0) + 1
        for x in imgs:
            if x.maps and getattr(x, "ptr", None):
                L.clEnqueueUnmapMemObject(X.q, x.mem, x.ptr, 0, None, None)
                x.maps.clear()
        sync()
        for t, m in L.mon.logs():
            if t == 3:
                bad("diagnostic", "unexpected diagnostic %r" % m[:200])
    except Stop:
        pass
    finally:
        L.clFinish(X.q)
        X.release()
    key = "|".join(sorted(types)) + "".join(t.split(" ")[0][0] for t in trace)
    return dict(violations=v, nontrivial=[key] if len(trace) >= 6 and len(types) > 1 else False, stats=stats, evals=len(trace))
