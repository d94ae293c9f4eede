"""C17: valid and invalid API calls.  Every entry starts from a valid call and applies one or two mutations, each with the error codes OpenCL
allows for it; after an invalid call nothing may have changed (trace of device memory, allocations and commands; reference counts; outputs)."""
import ctypes as ct, random
import numpy as np
import ocl
from ocl import Ctx, Lib, C, sizes, ptrs

PROP = "C17"
RULE = ("random valid calls of every API entry point with zero, one or two invalid arguments (NULL/foreign/wrong-kind objects, flags, sizes, ranges including sums that wrap, pitches, wait lists); "
        "return codes against the sets OpenCL allows, no effect of failed calls on memory, counts, queues or outputs; non-trivial = distinct (function, mutations) pairs")
ASSUMPTIONS = ["only NULL and wrong-kind handles are used as invalid objects (dangling pointers are outside what the API can detect)"]
CASE_TIMEOUT = 60
M64 = (1 << 64) - 1
HOST = 4096
NA, HWO, HRO = 1 << 9, 1 << 7, 1 << 8
KSRC = """
kernel void k(global uchar *p, int v, local int *l) { if (get_global_id(0) == 0) p[0] = v; }
kernel void n(void) {}
kernel __attribute__((reqd_work_group_size(4,2,1))) void rq(global int *p) { }
kernel void im(read_only image2d_t a, sampler_t s, write_only image2d_t b, constant int *c) { }
kernel void st(float4 a, long b, global int *c) { c[0] = 1; }
"""
E = lambda *n: set(C["CL_" + x] for x in n)
IV = E("INVALID_VALUE")


class FMT(ct.Structure):
    _fields_ = [("order", ct.c_uint32), ("type", ct.c_uint32)]


class DESC(ct.Structure):
    _fields_ = [("image_type", ct.c_uint32), ("image_width", ct.c_size_t), ("image_height", ct.c_size_t), ("image_depth", ct.c_size_t), ("image_array_size", ct.c_size_t),
                ("image_row_pitch", ct.c_size_t), ("image_slice_pitch", ct.c_size_t), ("num_mip_levels", ct.c_uint32), ("num_samples", ct.c_uint32), ("buffer", ct.c_void_p)]


class W:
    pass


CB1 = ct.CFUNCTYPE(None, ct.c_void_p, ct.c_void_p)
CB2 = ct.CFUNCTYPE(None, ct.c_void_p, ct.c_int32, ct.c_void_p)
NK = ct.CFUNCTYPE(None, ct.c_void_p)


def image(L, ctx, flags, ty, w=16, h=8, d=4, a=3, order="CL_RGBA", typ="CL_UNSIGNED_INT8", buffer=None):
    e = ct.c_int32()
    f = FMT(C[order], C[typ])
    ds = DESC(C["CL_MEM_OBJECT_" + ty], w, h, d, a, 0, 0, 0, 0, buffer)
    m = L.clCreateImage(ctx, flags, ct.byref(f), ct.byref(ds), None, ct.byref(e))
    assert e.value == 0, e.value
    return m


def setup_worker(env):
    L = Lib(env["build"])
    w = W()
    w.L = L
    w.X = Ctx(L, {})
    w.Y = Ctx(L, {})
    X, Y = w.X, w.Y
    w.ctx, w.q, w.dev = X.ctx, X.q, L.device
    e = ct.c_int32()
    w.oq = X.queue(1)
    w.size = 1024
    init = np.arange(1024, dtype=np.uint32).astype(np.uint8)
    w.buf, w.buf2, w.bufx = X.buffer(init), X.buffer(init), Y.buffer(init)
    w.na, w.hwo, w.hro = X.buffer(size=1024, flags=NA), X.buffer(size=1024, flags=HWO), X.buffer(size=1024, flags=HRO)
    w.devro, w.devwo = X.buffer(size=1024, flags=4), X.buffer(size=1024, flags=2)
    reg = (ct.c_size_t * 2)(128, 256)
    w.sub = L.clCreateSubBuffer(w.buf, 0, C["CL_BUFFER_CREATE_TYPE_REGION"], reg, ct.byref(e))
    reg = (ct.c_size_t * 2)(256, 256)
    w.sub2 = L.clCreateSubBuffer(w.buf, 0, C["CL_BUFFER_CREATE_TYPE_REGION"], reg, ct.byref(e))
    assert w.sub and w.sub2
    w.img = {t: image(L, w.ctx, 0, t) for t in ("IMAGE1D", "IMAGE2D", "IMAGE3D", "IMAGE1D_ARRAY", "IMAGE2D_ARRAY")}
    w.img2 = {t: image(L, w.ctx, 0, t) for t in w.img}
    w.dims = dict(IMAGE1D=(16, 1, 1), IMAGE2D=(16, 8, 1), IMAGE3D=(16, 8, 4), IMAGE1D_ARRAY=(16, 3, 1), IMAGE2D_ARRAY=(16, 8, 3))
    w.imgf = image(L, w.ctx, 0, "IMAGE2D", order="CL_R", typ="CL_FLOAT")
    w.imgx = image(L, Y.ctx, 0, "IMAGE2D")
    w.imgna, w.imghwo, w.imghro = (image(L, w.ctx, f, "IMAGE2D") for f in (NA, HWO, HRO))
    w.prog = X.program(KSRC)
    w.kern = X.kernel(w.prog, "k")
    X.args(w.kern, w.buf, np.int32(3), ocl.Local(16))
    w.kun = X.kernel(w.prog, "k")
    X.args(w.kun, w.buf)
    w.kn, w.krq = X.kernel(w.prog, "n"), X.kernel(w.prog, "rq")
    X.args(w.krq, w.buf)
    w.kim, w.kst = X.kernel(w.prog, "im"), X.kernel(w.prog, "st")
    w.progx = Y.program(KSRC)
    w.kernx = Y.kernel(w.progx, "n")
    s = (ct.c_char_p * 1)(KSRC.encode())
    w.unbuilt = L.clCreateProgramWithSource(w.ctx, 1, s, None, ct.byref(e))
    s = (ct.c_char_p * 1)(b"kernel void bad( {")
    w.bad = L.clCreateProgramWithSource(w.ctx, 1, s, None, ct.byref(e))
    assert L.clBuildProgram(w.bad, 0, None, None, None, None) != 0
    s = (ct.c_char_p * 1)(b"kernel void c1(global int *p) { *p = 1; }")
    w.compiled = L.clCreateProgramWithSource(w.ctx, 1, s, None, ct.byref(e))
    assert L.clCompileProgram(w.compiled, 0, None, None, 0, None, None, None, None) == 0
    w.header = L.clCreateProgramWithSource(w.ctx, 1, (ct.c_char_p * 1)(b"#define H 1\n"), None, ct.byref(e))
    w.samp = L.clCreateSampler(w.ctx, 1, C["CL_ADDRESS_CLAMP"], C["CL_FILTER_NEAREST"], ct.byref(e))
    w.uev, w.uevx = L.clCreateUserEvent(w.ctx, ct.byref(e)), L.clCreateUserEvent(Y.ctx, ct.byref(e))
    w.udone = L.clCreateUserEvent(w.ctx, ct.byref(e))
    L.clSetUserEventStatus(w.udone, 0)
    ev = ct.c_void_p()
    L.clEnqueueMarkerWithWaitList(w.q, 0, None, ct.byref(ev))
    L.clFinish(w.q)
    w.ev = ev.value
    L.clEnqueueMarkerWithWaitList(Y.q, 0, None, ct.byref(ev))
    L.clFinish(Y.q)
    w.evx = ev.value
    w.host = np.zeros(HOST, np.uint8)
    w.hp = w.host.ctypes.data
    n = ct.c_size_t()
    L.clGetProgramInfo(w.prog, C["CL_PROGRAM_BINARY_SIZES"], 8, ct.byref(n), None)
    w.bin = ct.create_string_buffer(n.value)
    L.clGetProgramInfo(w.prog, C["CL_PROGRAM_BINARIES"], 8, ct.byref(ct.c_void_p(ct.addressof(w.bin))), None)
    w.binlen = n.value
    w.cb1, w.cb2, w.nk = CB1(lambda a, b: None), CB2(lambda a, b, c: None), NK(lambda a: None)
    w.platform = L.platform
    w.maps = []
    L.mon.mask("log", "alloc", "free", "hload", "hstore", "load", "store", "map", "unmap", "kbegin")
    return w


class Call:
    """name, ordered arguments, kind of result: 'int' (code returned) or 'obj' (handle, errcode last); muts: (label, fn(args), codes)"""

    def __init__(self, name, kind, args):
        self.name, self.kind, self.a, self.muts, self.out, self.post, self.ok = name, kind, args, [], None, None, {0}

    def m(self, label, codes, **kw):
        self.muts.append((label, lambda a: a.update(kw), codes))

    def f(self, label, codes, fn):
        self.muts.append((label, fn, codes))


def ev_list(w, r, n):
    return [r.choice([w.ev, w.udone]) for _ in range(n)]


def with_events(c, w, r, q=True):
    """adds wait list, event output and queue mutations to an enqueue call"""
    n = r.choice([0, 0, 1, 2])
    c.a["nw"], c.a["wl"] = n, ptrs(ev_list(w, r, n)) if n else None
    c.ev = ct.c_void_p()
    c.a["ev"] = ct.byref(c.ev) if r.random() < .6 else None
    EW = E("INVALID_EVENT_WAIT_LIST")
    c.m("wait list NULL", EW, nw=r.choice([1, 2]), wl=None)
    c.m("wait list without count", EW, nw=0, wl=ptrs([w.ev]))
    c.m("wait list with NULL event", EW, nw=2, wl=ptrs([w.ev, None]))
    c.m("wait list of other context", E("INVALID_CONTEXT", "INVALID_EVENT_WAIT_LIST"), nw=2, wl=ptrs([w.ev, w.evx]))
    c.m("queue NULL", E("INVALID_COMMAND_QUEUE"), q=None)
    c.enq = True
    return c


def bufmut(c, w, key="buf"):
    c.m(key + " NULL", E("INVALID_MEM_OBJECT"), **{key: None})
    c.m(key + " image", E("INVALID_MEM_OBJECT"), **{key: w.img["IMAGE2D"]})
    c.m(key + " of other context", E("INVALID_CONTEXT"), **{key: w.bufx})


BIG = [M64, M64 - 3, M64 - 255, 1 << 63, (1 << 63) - 1, 1 << 48, (1 << 48) - 16, 1 << 32, 1025, 1 << 20]


def rng_ok(r, size, al=1):
    o = r.randrange(0, size // al) * al
    n = r.randint(1, (size - o) // al) * al
    return o, n


def out_of_range(r, size, al=1):
    """(offset, size) pairs outside [0,size), including ones whose sum wraps"""
    k = r.randrange(5)
    if k == 0:
        return size - 4 * al, 5 * al
    if k == 1:
        o = (M64 - r.choice([7, 127, 255]) * al) // al * al & M64
        return o, ((1 << 64) - o + r.choice([0, 1, 8]) * al)  # wraps to a small end
    if k == 2:
        return r.choice([al, 4 * al, size - al]), (M64 // al * al)
    if k == 3:
        return size + al * r.choice([0, 1, 100]), al
    return r.choice([x // al * al for x in BIG if x // al * al >= size]), r.choice([al, 2 * al])


def b_rw(w, r, write):
    o, n = rng_ok(r, w.size)
    c = Call("clEnqueueWriteBuffer" if write else "clEnqueueReadBuffer", "int", dict(q=w.q, buf=r.choice([w.buf, w.hwo if write else w.hro]), bl=r.choice([0, 1]), off=o, cb=n, ptr=w.hp))
    with_events(c, w, r)
    bufmut(c, w)
    c.m("ptr NULL", IV, ptr=None)
    for bad in ((w.hro, w.na) if write else (w.hwo, w.na)):
        c.m("host access denied", E("INVALID_OPERATION"), buf=bad)
    o, n = out_of_range(r, w.size)
    c.m("range outside", IV, off=o & M64, cb=n & M64)
    c.m("range outside sub-buffer", IV, buf=w.sub, off=r.choice([256, 255, 200]), cb=r.choice([57, 100, 768]))
    return c


def rect_ok(r, size):
    while True:
        reg = [r.randint(1, 16), r.randint(1, 6), r.randint(1, 3)]
        rp = r.choice([0, reg[0], reg[0] + r.randint(0, 8)])
        erp = rp or reg[0]
        sp = r.choice([0, erp * reg[1], erp * (reg[1] + r.randint(0, 2))])
        esp = sp or erp * reg[1]
        o = [r.randint(0, 8), r.randint(0, 3), r.randint(0, 2)]
        if o[0] + o[1] * erp + o[2] * esp + (reg[2] - 1) * esp + (reg[1] - 1) * erp + reg[0] <= size:
            return o, reg, rp, sp


def rect_bad(c, r, size, ok, ko, krp, ksp, kreg="reg"):
    """mutations of the rectangle described by argument keys"""
    o, reg, rp, sp = ok
    erp = rp or reg[0]
    i = r.randrange(3)
    z = list(reg)
    z[i] = 0
    c.m("region[%d] zero" % i, IV, **{kreg: sizes(z)})
    c.m(kreg + " NULL", IV, **{kreg: None})
    c.m(ko + " NULL", IV, **{ko: None})
    if reg[0] > 1:
        c.m(krp + " below region", IV, **{krp: reg[0] - 1})
    c.m(ksp + " below region*pitch", IV, **{krp: reg[0], ksp: max(1, reg[0] * reg[1] - 1)} if reg[0] * reg[1] > 1 else {krp: 1, ksp: 1, kreg: sizes([1, 2, 1])})


def rect_oob(c, r, size, ok, ko, krp, ksp, kreg="reg"):
    o, reg, rp, sp = ok
    k = r.randrange(6)
    if k == 0:
        c.m(ko + " outside", IV, **{ko: sizes([size - reg[0] + 1, 0, 0]), })
    elif k == 1:
        c.m(ko + " wraps", IV, **{ko: sizes([M64 - r.choice([0, 3, 15]), 0, 0])})
    elif k == 2:
        c.m(kreg + "[0] huge", IV, **{kreg: sizes([r.choice(BIG), 1, 1]), ko: sizes([r.choice([0, 8, 1000]), 0, 0]), krp: 0, ksp: 0})
    elif k == 3:
        c.m(kreg + "[1]*pitch wraps", IV, **{kreg: sizes([16, 1 << 60, 1]), krp: 0, ksp: 0, ko: sizes([0, 0, 0])})
    elif k == 4:
        c.m(ko + "[2]*slice wraps", IV, **{ko: sizes([0, 0, 1 << 60]), kreg: sizes([16, 1, 1]), krp: 16, ksp: 16})
    else:
        c.m("row pitch huge", IV, **{kreg: sizes([4, 3, 1]), krp: r.choice([1 << 63, 1 << 40, 600]), ksp: 0})


def b_rect(w, r, write):
    a, h = rect_ok(r, w.size), None
    reg = a[1]
    hrp = r.choice([0, reg[0] + r.randint(0, 4)])
    hsp = r.choice([0, (hrp or reg[0]) * (reg[1] + r.randint(0, 1))])
    c = Call("clEnqueueWriteBufferRect" if write else "clEnqueueReadBufferRect", "int",
             dict(q=w.q, buf=w.buf, bl=r.choice([0, 1]), bo=sizes(a[0]), ho=sizes([r.randint(0, 4), r.randint(0, 2), r.randint(0, 1)]), reg=sizes(reg), brp=a[2], bsp=a[3], hrp=hrp, hsp=hsp, ptr=w.hp))
    with_events(c, w, r)
    bufmut(c, w)
    c.m("ptr NULL", IV, ptr=None)
    for bad in ((w.hro, w.na) if write else (w.hwo, w.na)):
        c.m("host access denied", E("INVALID_OPERATION"), buf=bad)
    c.m("ho NULL", IV, ho=None)
    rect_bad(c, r, w.size, a, "bo", "brp", "bsp")
    rect_oob(c, r, w.size, a, "bo", "brp", "bsp")
    if reg[0] > 1:
        c.m("hrp below region", IV, hrp=reg[0] - 1)
    return c


def b_copy(w, r):
    n = r.randint(1, 256)
    so, do = r.randint(0, w.size - n), r.randint(0, w.size - n)
    c = Call("clEnqueueCopyBuffer", "int", dict(q=w.q, src=w.buf, dst=r.choice([w.buf2, w.na]), so=so, do=do, cb=n))
    with_events(c, w, r)
    bufmut(c, w, "src")
    bufmut(c, w, "dst")
    o, k = out_of_range(r, w.size)
    c.m("source outside", IV, so=o & M64, cb=k & M64, **({"do": 0}))
    c.m("destination outside", IV, **{"do": r.choice([w.size - n + 1, w.size, M64, M64 - n + 1])})
    OV = E("MEM_COPY_OVERLAP")
    c.m("overlap", OV, dst=w.buf, so=r.choice([0, 10]), cb=64, **{"do": r.choice([0, 10, 63])})
    c.m("overlap of sub-buffer with parent", OV, src=w.sub, dst=w.buf, so=0, cb=64, **{"do": r.choice([128, 100, 191])})
    c.m("overlap of parent with sub-buffer", OV, src=w.buf, dst=w.sub, so=r.choice([128, 100, 191]), cb=64, **{"do": 0})
    return c


def b_copyrect(w, r):
    a = rect_ok(r, w.size)
    reg = a[1]
    d = [r.randint(0, 4), 0, 0]
    drp = r.choice([0, reg[0]])
    c = Call("clEnqueueCopyBufferRect", "int", dict(q=w.q, src=w.buf, dst=w.buf2, so=sizes(a[0]), do=sizes(d), reg=sizes(reg), srp=a[2], ssp=a[3], drp=drp, dsp=0))
    with_events(c, w, r)
    bufmut(c, w, "src")
    bufmut(c, w, "dst")
    rect_bad(c, r, w.size, a, "so", "srp", "ssp")
    rect_oob(c, r, w.size, a, "so", "srp", "ssp")
    rect_oob(c, r, w.size, (d, reg, drp, 0), "do", "drp", "dsp")
    c.m("do NULL", IV, **{"do": None})
    c.m("same buffer, different pitches", IV, dst=w.buf, so=sizes([0, 0, 0]), do=sizes([256, 0, 0]), reg=sizes([4, 2, 1]), srp=8, drp=16, ssp=0, dsp=0)
    c.m("overlap", E("MEM_COPY_OVERLAP"), dst=w.buf, so=sizes([0, 0, 0]), do=sizes([r.choice([0, 2, 3]), r.choice([0, 1]), 0]), reg=sizes([4, 3, 1]), srp=16, drp=16, ssp=64, dsp=64)
    return c


def b_fill(w, r):
    ps = r.choice([1, 2, 4, 8, 16, 32, 64, 128])
    o, n = rng_ok(r, w.size, ps)
    c = Call("clEnqueueFillBuffer", "int", dict(q=w.q, buf=r.choice([w.buf, w.na, w.hro]), pat=w.hp, ps=ps, off=o, cb=n))
    with_events(c, w, r)
    bufmut(c, w)
    c.m("pattern NULL", IV, pat=None)
    c.m("pattern size", IV, ps=r.choice([0, 3, 5, 6, 12, 129, 256, M64]))
    c.m("size not multiple", IV, ps=8, off=8, cb=r.choice([1, 4, 12, 7]))
    c.m("offset not multiple", IV, ps=8, off=r.choice([1, 4, 12]), cb=16)
    o, n = out_of_range(r, w.size, ps)
    c.m("range outside", IV, off=o & M64, cb=n & M64)
    return c


def b_map(w, r):
    o, n = rng_ok(r, w.size)
    c = Call("clEnqueueMapBuffer", "obj", dict(q=w.q, buf=w.buf, bl=r.choice([0, 1]), fl=r.choice([1, 2, 3, 4]), off=o, cb=n))
    with_events(c, w, r)
    bufmut(c, w)
    c.m("flags", IV, fl=r.choice([8, 1 << 20, 5, 6, 7]))
    o, n = out_of_range(r, w.size)
    c.m("range outside", IV, off=o & M64, cb=n & M64)
    c.m("size zero", IV, cb=0)
    OP = E("INVALID_OPERATION")
    c.m("read mapping denied", OP, buf=r.choice([w.na, w.hwo]), fl=1)
    c.m("write mapping denied", OP, buf=r.choice([w.na, w.hro]), fl=r.choice([2, 4]))
    c.post = lambda res: w.L.clEnqueueUnmapMemObject(w.q, c.a["buf"], res, 0, None, None)
    return c


def b_unmap(w, r):
    p = w.L.clEnqueueMapBuffer(w.q, w.buf, 1, 1, 8, 16, 0, None, None, None)
    c = Call("clEnqueueUnmapMemObject", "int", dict(q=w.q, buf=w.buf, ptr=p))
    with_events(c, w, r)
    c.m("NULL object", E("INVALID_MEM_OBJECT"), buf=None)
    c.m("object of other context", E("INVALID_CONTEXT"), buf=w.bufx)
    c.m("pointer not mapped", IV, ptr=r.choice([None, w.hp, p + 1]))
    c.m("pointer of other object", IV, buf=w.buf2)
    c.undo = lambda: w.L.clEnqueueUnmapMemObject(w.q, w.buf, p, 0, None, None)
    return c


def b_migrate(w, r):
    ms = [r.choice([w.buf, w.buf2, w.img["IMAGE2D"]]) for _ in range(r.randint(1, 3))]
    c = Call("clEnqueueMigrateMemObjects", "int", dict(q=w.q, n=len(ms), ms=ptrs(ms), fl=r.choice([0, 1, 2, 3])))
    with_events(c, w, r)
    c.m("count zero", IV, n=0)
    c.m("list NULL", IV, ms=None)
    c.m("flags", IV, fl=r.choice([4, 8, 1 << 30]))
    c.m("NULL object", E("INVALID_MEM_OBJECT"), n=2, ms=ptrs([w.buf, None]))
    c.m("object of other context", E("INVALID_CONTEXT"), n=2, ms=ptrs([w.buf, w.bufx]))
    return c


def img_region(w, r, t):
    D = w.dims[t]
    o = [r.randrange(d) for d in D]
    return o, [r.randint(1, d - x) for d, x in zip(D, o)]


def img_region_muts(c, w, r, t, ko, kr, who):
    D = w.dims[t]
    used = [i for i in range(3) if D[i] > 1]
    i = r.choice(used)
    o, g = [0, 0, 0], [1, 1, 1]
    o[i] = r.choice([D[i], D[i] + 3, M64, M64 - 1, 1 << 63, 1 << 32])
    c.m("%s origin[%d] outside" % (who, i), IV, **{ko: sizes(o), kr: sizes(g)})
    o, g = [0, 0, 0], [1, 1, 1]
    o[i] = r.randrange(D[i])
    g[i] = r.choice([D[i] - o[i] + 1, M64, (1 << 64) - o[i] if o[i] else M64 - 2, 1 << 33])
    c.m("%s region[%d] outside" % (who, i), IV, **{ko: sizes(o), kr: sizes(g)})
    j = r.randrange(3)
    g = [1, 1, 1]
    g[j] = 0
    c.m("%s region[%d] zero" % (who, j), IV, **{kr: sizes(g)})
    un = [i for i in range(3) if D[i] == 1]
    if un:
        j = r.choice(un)
        g = [1, 1, 1]
        g[j] = 2
        c.m("%s region[%d] of unused dimension" % (who, j), IV, **{ko: sizes([0, 0, 0]), kr: sizes(g)})
        o = [0, 0, 0]
        o[j] = 1
        c.m("%s origin[%d] of unused dimension" % (who, j), IV, **{ko: sizes(o), kr: sizes([1, 1, 1])})
    c.m("%s origin NULL" % who, IV, **{ko: None})
    c.m("%s region NULL" % who, IV, **{kr: None})


def imgmut(c, w, key="img"):
    c.m(key + " NULL", E("INVALID_MEM_OBJECT"), **{key: None})
    c.m(key + " buffer", E("INVALID_MEM_OBJECT"), **{key: w.buf})
    c.m(key + " of other context", E("INVALID_CONTEXT"), **{key: w.imgx})


def b_imgrw(w, r, write):
    t = r.choice(list(w.img))
    o, g = img_region(w, r, t)
    rp = r.choice([0, 0, g[0] * 4, g[0] * 4 + 8])
    sp = 0
    if t in ("IMAGE3D", "IMAGE2D_ARRAY", "IMAGE1D_ARRAY") and r.random() < .4:
        sp = (rp or g[0] * 4) * (g[1] if t != "IMAGE1D_ARRAY" else 1)
    c = Call("clEnqueueWriteImage" if write else "clEnqueueReadImage", "int", dict(q=w.q, img=w.img[t], bl=r.choice([0, 1]), o=sizes(o), g=sizes(g), rp=rp, sp=sp, ptr=w.hp))
    with_events(c, w, r)
    imgmut(c, w)
    c.m("ptr NULL", IV, ptr=None)
    img_region_muts(c, w, r, t, "o", "g", "image")
    c.m("row pitch too small", IV, g=sizes([4, 1, 1]), o=sizes([0, 0, 0]), rp=r.choice([1, 15]), sp=0)
    if t == "IMAGE3D":
        c.m("slice pitch too small", IV, g=sizes([4, 4, 2]), o=sizes([0, 0, 0]), rp=16, sp=r.choice([1, 63]))
    if t in ("IMAGE2D", "IMAGE1D"):
        c.m("slice pitch of image without slices", IV, sp=r.choice([4096, 512]))
    for bad in ((w.imghro, w.imgna) if write else (w.imghwo, w.imgna)):
        c.m("host access denied", E("INVALID_OPERATION"), img=bad, o=sizes([0, 0, 0]), g=sizes([1, 1, 1]), rp=0, sp=0)
    return c


def b_copyimg(w, r):
    t = r.choice(list(w.img))
    o, g = img_region(w, r, t)
    d = [r.randint(0, D - x) for D, x in zip(w.dims[t], g)]
    c = Call("clEnqueueCopyImage", "int", dict(q=w.q, src=w.img[t], dst=w.img2[t], o=sizes(o), do=sizes(d), g=sizes(g)))
    with_events(c, w, r)
    imgmut(c, w, "src")
    imgmut(c, w, "dst")
    c.m("format mismatch", E("IMAGE_FORMAT_MISMATCH"), dst=w.imgf, o=sizes([0, 0, 0]), do=sizes([0, 0, 0]), g=sizes([1, 1, 1]))
    img_region_muts(c, w, r, t, "o", "g", "source")
    i = r.choice([i for i in range(3) if w.dims[t][i] > 1])
    x = [0, 0, 0]
    x[i] = r.choice([w.dims[t][i], M64, M64 - 1])
    c.m("destination outside", IV, do=sizes(x))
    c.m("overlap", E("MEM_COPY_OVERLAP"), src=w.img["IMAGE2D"], dst=w.img["IMAGE2D"], o=sizes([0, 0, 0]), do=sizes([r.choice([0, 1, 2]), r.choice([0, 1]), 0]), g=sizes([4, 3, 1]))
    return c


def b_img2buf(w, r):
    t = r.choice(list(w.img))
    o, g = img_region(w, r, t)
    n = g[0] * g[1] * g[2] * 4
    while n > w.size:
        o, g = img_region(w, r, t)
        n = g[0] * g[1] * g[2] * 4
    off = r.randint(0, w.size - n)
    c = Call("clEnqueueCopyImageToBuffer", "int", dict(q=w.q, img=w.img[t], buf=w.buf, o=sizes(o), g=sizes(g), off=off))
    with_events(c, w, r)
    imgmut(c, w)
    bufmut(c, w)
    img_region_muts(c, w, r, t, "o", "g", "image")
    c.m("buffer range outside", IV, off=r.choice([w.size - n + 1, w.size, M64, M64 - n + 1, (1 << 64) - n]))
    return c


def b_buf2img(w, r):
    x = b_img2buf(w, r)
    c = Call("clEnqueueCopyBufferToImage", "int", dict(q=w.q, buf=w.buf, img=x.a["img"], off=x.a["off"], o=x.a["o"], g=x.a["g"]))
    c.a.update(nw=x.a["nw"], wl=x.a["wl"], ev=x.a["ev"])
    c.ev, c.enq, c.muts = x.ev, True, x.muts
    return c


def b_fillimg(w, r):
    t = r.choice(list(w.img))
    o, g = img_region(w, r, t)
    c = Call("clEnqueueFillImage", "int", dict(q=w.q, img=w.img[t], col=w.hp, o=sizes(o), g=sizes(g)))
    with_events(c, w, r)
    imgmut(c, w)
    c.m("color NULL", IV, col=None)
    img_region_muts(c, w, r, t, "o", "g", "image")
    return c


def b_mapimg(w, r):
    t = r.choice(list(w.img))
    o, g = img_region(w, r, t)
    rp, sp = ct.c_size_t(), ct.c_size_t()
    c = Call("clEnqueueMapImage", "obj", dict(q=w.q, img=w.img[t], bl=r.choice([0, 1]), fl=r.choice([1, 2, 3, 4]), o=sizes(o), g=sizes(g), rp=ct.byref(rp), sp=ct.byref(sp)))
    with_events(c, w, r)
    imgmut(c, w)
    img_region_muts(c, w, r, t, "o", "g", "image")
    c.m("row pitch NULL", IV, rp=None)
    if t in ("IMAGE3D", "IMAGE1D_ARRAY", "IMAGE2D_ARRAY"):
        c.m("slice pitch NULL", IV, sp=None)
    c.m("flags", IV, fl=r.choice([8, 1 << 20, 5, 6]))
    z, u = sizes([0, 0, 0]), sizes([1, 1, 1])
    c.m("read mapping denied", E("INVALID_OPERATION"), img=r.choice([w.imgna, w.imghwo]), fl=1, o=z, g=u)
    c.m("write mapping denied", E("INVALID_OPERATION"), img=r.choice([w.imgna, w.imghro]), fl=r.choice([2, 4]), o=z, g=u)
    c.post = lambda res: w.L.clEnqueueUnmapMemObject(w.q, c.a["img"], res, 0, None, None)
    return c


def b_ndrange(w, r):
    d = r.randint(1, 3)
    ls = [r.choice([1, 2, 4]) for _ in range(d)]
    gs = [x * r.randint(1, 3) for x in ls]
    c = Call("clEnqueueNDRangeKernel", "int", dict(q=w.q, k=w.kern, d=d, go=sizes([r.randint(0, 9) for _ in range(d)]) if r.random() < .4 else None, gs=sizes(gs), ls=sizes(ls) if r.random() < .7 else None))
    if r.random() < .1:
        c.a.update(k=w.krq, d=2, gs=sizes([8, 4]), ls=sizes([4, 2]), go=None)
    with_events(c, w, r)
    c.m("kernel NULL", E("INVALID_KERNEL"), k=None)
    c.m("kernel of other context", E("INVALID_CONTEXT"), k=w.kernx)
    c.m("work_dim", E("INVALID_WORK_DIMENSION"), d=r.choice([0, 4, 5, 1 << 31]))
    c.m("argument not set", E("INVALID_KERNEL_ARGS"), k=w.kun)
    z = [0] * d
    z[r.randrange(d)] = 0
    WG = E("INVALID_WORK_GROUP_SIZE", "INVALID_WORK_ITEM_SIZE")
    l0 = list(ls)
    l0[r.randrange(min(d, c.a["d"]))] = 0
    l0 += [1] * (c.a["d"] - d)
    c.m("local size zero", WG, ls=sizes(l0))
    c.m("local size too large", WG, d=1, gs=sizes([1 << 20]), ls=sizes([1 << 20]), go=None)
    c.m("work-group too large", WG, d=3, gs=sizes([64, 64, 64]), ls=sizes([64, 64, 64]), go=None)
    c.m("work-group size wraps", WG, d=3, gs=sizes([1 << 32, 1 << 32, 2]), ls=sizes([1 << 32, 1 << 32, 2]), go=None)
    c.m("required work-group size", WG, k=w.krq, d=2, gs=sizes([8, 8]), ls=sizes(r.choice([[2, 4], [4, 4], [8, 2], [1, 1]])), go=None)
    c.m("required work-group size, fewer dimensions", WG, k=w.krq, d=1, gs=sizes([8]), ls=sizes([4]), go=None)
    c.m("global range wraps", E("INVALID_GLOBAL_OFFSET"), d=1, go=sizes([M64 - 2]), gs=sizes([4]), ls=None)
    return c


def b_task(w, r):
    c = Call("clEnqueueTask", "int", dict(q=w.q, k=r.choice([w.kern, w.kn])))
    with_events(c, w, r)
    c.m("kernel NULL", E("INVALID_KERNEL"), k=None)
    c.m("argument not set", E("INVALID_KERNEL_ARGS"), k=w.kun)
    c.m("required work-group size", E("INVALID_WORK_GROUP_SIZE"), k=w.krq)
    c.m("kernel of other context", E("INVALID_CONTEXT"), k=w.kernx)
    return c


def b_native(w, r):
    args = (ct.c_void_p * 2)(w.buf, 5)
    c = Call("clEnqueueNativeKernel", "int", dict(q=w.q, fn=w.nk, args=args, cb=16, n=1, ms=ptrs([w.buf]), loc=ptrs([ct.addressof(args)])))
    c.keep = args
    with_events(c, w, r)
    c.m("function NULL", IV, fn=None)
    c.m("args NULL", IV, args=None)
    c.m("args without size", IV, cb=0)
    c.m("mem_list NULL", IV, ms=None)
    c.m("locations NULL", IV, loc=None)
    c.m("objects without count", IV, n=0)
    c.m("NULL object", E("INVALID_MEM_OBJECT"), ms=ptrs([None]))
    return c


def b_marker(w, r):
    c = Call(r.choice(["clEnqueueMarkerWithWaitList", "clEnqueueBarrierWithWaitList"]), "int", dict(q=w.q))
    return with_events(c, w, r)


def b_waitev(w, r):
    n = r.randint(1, 3)
    c = Call("clEnqueueWaitForEvents", "int", dict(q=w.q, n=n, l=ptrs(ev_list(w, r, n))))
    c.enq, c.ev = True, ct.c_void_p()
    c.m("queue NULL", E("INVALID_COMMAND_QUEUE"), q=None)
    c.m("count zero", IV, n=0)
    c.m("list NULL", IV, l=None)
    c.m("NULL event", E("INVALID_EVENT"), n=2, l=ptrs([w.ev, None]))
    c.m("event of other context", E("INVALID_CONTEXT"), n=2, l=ptrs([w.ev, w.evx]))
    return c


def b_wait(w, r):
    n = r.randint(1, 3)
    c = Call("clWaitForEvents", "int", dict(n=n, l=ptrs(ev_list(w, r, n))))
    c.m("count zero", IV, n=0)
    c.m("list NULL", IV, l=None)
    c.m("NULL event", E("INVALID_EVENT"), n=2, l=ptrs([w.ev, None]))
    c.m("event of other context", E("INVALID_CONTEXT"), n=2, l=ptrs([w.ev, w.evx]))
    return c


def b_setuser(w, r):
    u = w.L.clCreateUserEvent(w.ctx, None)
    c = Call("clSetUserEventStatus", "int", dict(ev=u, st=r.choice([0, -1, -1000])))
    c.m("event NULL", E("INVALID_EVENT"), ev=None)
    c.m("not a user event", E("INVALID_EVENT"), ev=w.ev)
    c.m("status", IV, st=r.choice([1, 2, 3, 100]))
    c.m("already set", E("INVALID_OPERATION"), ev=w.udone)
    c.undo = c.post = lambda *a: w.L.clReleaseEvent(u)
    return c


def b_evcb(w, r):
    c = Call("clSetEventCallback", "int", dict(ev=w.ev, ty=r.choice([0, 1, 2]), cb=w.cb2, ud=None))
    c.m("event NULL", E("INVALID_EVENT"), ev=None)
    c.m("callback NULL", IV, cb=None)
    c.m("type", IV, ty=r.choice([3, 4, -1, 77]))
    return c


def b_memcb(w, r):
    m = w.L.clCreateBuffer(w.ctx, 0, 16, None, None)
    c = Call("clSetMemObjectDestructorCallback", "int", dict(m=m, cb=w.cb1, ud=None))
    c.m("object NULL", E("INVALID_MEM_OBJECT"), m=None)
    c.m("callback NULL", IV, cb=None)
    c.undo = c.post = lambda *a: w.L.clReleaseMemObject(m)
    return c


def b_retain(w, r):
    n, o, code = r.choice([("Context", w.ctx, "CONTEXT"), ("CommandQueue", w.q, "COMMAND_QUEUE"), ("MemObject", w.buf, "MEM_OBJECT"), ("Sampler", w.samp, "SAMPLER"), ("Program", w.prog, "PROGRAM"),
                           ("Kernel", w.kern, "KERNEL"), ("Event", w.ev, "EVENT"), ("Device", w.dev, "DEVICE")])
    rel = r.random() < .4
    c = Call("cl%s%s" % ("Release" if rel else "Retain", n), "int", dict(o=o))
    c.m("NULL", E("INVALID_" + code), o=None)
    if rel:
        c.pre = lambda: getattr(w.L, "clRetain" + n)(o)
    else:
        c.post = lambda *a: getattr(w.L, "clRelease" + n)(o)
    return c


def b_flush(w, r):
    c = Call(r.choice(["clFlush", "clFinish"]), "int", dict(q=w.q))
    c.m("NULL", E("INVALID_COMMAND_QUEUE"), q=None)
    return c


def b_ctx(w, r):
    pl = (ct.c_ssize_t * 3)(C["CL_CONTEXT_PLATFORM"], w.platform, 0)
    c = Call("clCreateContext", "obj", dict(p=r.choice([None, pl, (ct.c_ssize_t * 1)(0)]), n=1, d=ptrs([w.dev]), cb=None, ud=None))
    c.m("no devices", IV, n=0)
    c.m("devices NULL", IV, d=None)
    c.m("NULL device", E("INVALID_DEVICE"), d=ptrs([None]))
    c.m("user data without callback", IV, ud=w.hp)
    c.m("property name", E("INVALID_PROPERTY", "INVALID_VALUE"), p=(ct.c_ssize_t * 3)(0x7777, 1, 0))
    c.m("platform", E("INVALID_PLATFORM", "INVALID_PROPERTY"), p=(ct.c_ssize_t * 3)(C["CL_CONTEXT_PLATFORM"], r.choice([0, 8]), 0))
    c.m("property repeated", E("INVALID_PROPERTY"), p=(ct.c_ssize_t * 5)(C["CL_CONTEXT_PLATFORM"], w.platform, C["CL_CONTEXT_PLATFORM"], w.platform, 0))
    c.post = w.L.clReleaseContext
    return c


def b_ctxt(w, r):
    pl = (ct.c_ssize_t * 3)(C["CL_CONTEXT_PLATFORM"], w.platform, 0)
    c = Call("clCreateContextFromType", "obj", dict(p=r.choice([None, pl]), t=r.choice([0xFFFFFFFF, 1]), cb=None, ud=None))
    c.m("user data without callback", IV, ud=w.hp)
    c.m("property name", E("INVALID_PROPERTY", "INVALID_VALUE"), p=(ct.c_ssize_t * 3)(0x7777, 1, 0))
    c.m("platform", E("INVALID_PLATFORM", "INVALID_PROPERTY"), p=(ct.c_ssize_t * 3)(C["CL_CONTEXT_PLATFORM"], 8, 0))
    c.m("device type", E("INVALID_DEVICE_TYPE", "DEVICE_NOT_FOUND"), t=r.choice([0, 1 << 10]))
    c.post = w.L.clReleaseContext
    return c


def b_queue(w, r):
    c = Call("clCreateCommandQueue", "obj", dict(c=w.ctx, d=w.dev, p=r.choice([0, 1, 2, 3])))
    c.m("context NULL", E("INVALID_CONTEXT"), c=None)
    c.m("device NULL", E("INVALID_DEVICE"), d=None)
    c.m("properties", E("INVALID_VALUE", "INVALID_QUEUE_PROPERTIES"), p=r.choice([1 << 10, 1 << 62]))
    c.post = w.L.clReleaseCommandQueue
    return c


def b_queuep(w, r):
    P = lambda *x: (ct.c_uint64 * len(x))(*x)
    c = Call("clCreateCommandQueueWithProperties", "obj", dict(c=w.ctx, d=w.dev, p=r.choice([None, P(0), P(C["CL_QUEUE_PROPERTIES"], r.choice([0, 1, 2, 3]), 0)])))
    c.m("context NULL", E("INVALID_CONTEXT"), c=None)
    c.m("device NULL", E("INVALID_DEVICE"), d=None)
    c.m("property name", IV, p=P(0x7777, 1, 0))
    c.m("property value", E("INVALID_VALUE", "INVALID_QUEUE_PROPERTIES"), p=P(C["CL_QUEUE_PROPERTIES"], r.choice([1 << 20, 1 << 40]), 0))
    c.post = w.L.clReleaseCommandQueue
    return c


def mem_flags_muts(c, hostkey):
    """flag combinations that are invalid for every memory object"""
    for fl in (3, 5, 6, 7):  # two of RW, WO, RO
        c.m("access flags 0x%x" % fl, IV, fl=fl, **{hostkey: None})
    c.m("host access flags", IV, fl=NA | HWO, **{hostkey: None})
    c.m("host access flags", IV, fl=HRO | HWO, **{hostkey: None})
    c.m("unknown flag", IV, fl=1 << 40, **{hostkey: None})


def b_buffer(w, r):
    fl = r.choice([0, 1, 2, 4, 16, 17, NA, HWO, HRO])
    host = None
    if r.random() < .5:
        fl |= r.choice([8, 32]) if not fl & 16 else 32
        host = w.hp
    props = r.random() < .3
    a = dict(c=w.ctx)
    if props:
        a["pr"] = r.choice([None, (ct.c_uint64 * 1)(0)])
    a.update(fl=fl, n=r.choice([1, 7, 64, 4096]), hp=host)
    c = Call("clCreateBufferWithProperties" if props else "clCreateBuffer", "obj", a)
    c.m("context NULL", E("INVALID_CONTEXT"), c=None)
    c.m("size zero", E("INVALID_BUFFER_SIZE"), n=0)
    c.m("size too large", E("INVALID_BUFFER_SIZE", "MEM_OBJECT_ALLOCATION_FAILURE"), n=r.choice([M64, 1 << 48, 1 << 62]), fl=0, hp=None)
    c.m("host pointer missing", E("INVALID_HOST_PTR"), fl=r.choice([8, 32]), hp=None)
    c.m("host pointer without flag", E("INVALID_HOST_PTR"), fl=r.choice([0, 1, 16]), hp=w.hp)
    c.m("use with alloc or copy", IV, fl=8 | r.choice([16, 32]), hp=w.hp)
    mem_flags_muts(c, "hp")
    if props:
        c.m("unsupported property", E("INVALID_PROPERTY"), pr=(ct.c_uint64 * 3)(0x7777, 1, 0))
    c.post = w.L.clReleaseMemObject
    return c


def b_sub(w, r):
    parent, pf = r.choice([(w.buf, 0), (w.devro, 4), (w.devwo, 2), (w.na, NA)])
    fl = {0: r.choice([0, 1, 2, 4, NA, HRO]), 4: r.choice([0, 4]), 2: r.choice([0, 2]), NA: r.choice([0, NA, 4])}[pf]
    R = lambda o, n: (ct.c_size_t * 2)(o & M64, n & M64)
    o = r.choice([0, 128, 256, 512])
    c = Call("clCreateSubBuffer", "obj", dict(b=parent, fl=fl, t=C["CL_BUFFER_CREATE_TYPE_REGION"], i=R(o, r.randint(1, w.size - o))))
    c.m("buffer NULL", E("INVALID_MEM_OBJECT"), b=None)
    c.m("buffer is a sub-buffer", E("INVALID_MEM_OBJECT"), b=w.sub, fl=0, i=R(0, 16))
    c.m("buffer is an image", E("INVALID_MEM_OBJECT"), b=w.img["IMAGE2D"], fl=0)
    c.m("type", IV, t=r.choice([0, 0x1221, 7]))
    c.m("region NULL", IV, i=None)
    x = out_of_range(r, w.size, 128)
    c.m("region outside", IV, i=R(*x))
    c.m("misaligned origin", E("MISALIGNED_SUB_BUFFER_OFFSET"), i=R(r.choice([1, 4, 64, 127, 200]), 8))
    c.m("size zero", E("INVALID_BUFFER_SIZE", "INVALID_VALUE"), i=R(128, 0))
    c.m("flags against write-only parent", IV, b=w.devwo, fl=r.choice([1, 4]))
    c.m("flags against read-only parent", IV, b=w.devro, fl=r.choice([1, 2]))
    c.m("host flags against parent", IV, b=w.hwo, fl=HRO)
    c.m("host flags against parent", IV, b=w.hro, fl=HWO)
    c.m("host flags against parent", IV, b=w.na, fl=r.choice([HWO, HRO]))
    c.m("host pointer flags", IV, b=w.buf, fl=r.choice([8, 16, 32]))
    for f in (3, 5, 6):
        c.m("access flags 0x%x" % f, IV, b=w.buf, fl=f)
    c.m("unknown flag", IV, b=w.buf, fl=1 << 40)
    c.post = w.L.clReleaseMemObject
    return c


def fmt_size(f):
    n = {C["CL_RGBA"]: 4, C["CL_RG"]: 2, C["CL_R"]: 1}[f.order]
    return n * {C["CL_UNORM_INT8"]: 1, C["CL_SIGNED_INT16"]: 2, C["CL_FLOAT"]: 4, C["CL_HALF_FLOAT"]: 2}[f.type]


def b_image(w, r):
    t = r.choice(["IMAGE1D", "IMAGE2D", "IMAGE3D", "IMAGE1D_ARRAY", "IMAGE2D_ARRAY", "IMAGE1D_BUFFER"])
    D = lambda **k: DESC(**{**dict(image_type=C["CL_MEM_OBJECT_" + t], image_width=8, image_height=6, image_depth=3, image_array_size=2, buffer=w.buf if t == "IMAGE1D_BUFFER" else None), **k})
    fmt = FMT(C[r.choice(["CL_RGBA", "CL_RG", "CL_R"])], C[r.choice(["CL_UNORM_INT8", "CL_SIGNED_INT16", "CL_FLOAT", "CL_HALF_FLOAT"])])
    fl = r.choice([0, 1, 2, 4]) if t != "IMAGE1D_BUFFER" else 0
    host = None
    if t != "IMAGE1D_BUFFER" and r.random() < .4:
        fl |= r.choice([8, 32])
        host = w.hp
    props = r.random() < .2
    a = dict(c=w.ctx)
    if props:
        a["pr"] = None
    c = Call("clCreateImageWithProperties" if props else "clCreateImage", "obj", dict(a, fl=fl, f=ct.byref(fmt), d=ct.byref(D()), hp=host))
    c.keep = [fmt]

    def mk(label, codes, **k):
        d = D(**k)
        c.keep.append(d)
        c.m(label, codes, d=ct.byref(d))
    ID = E("INVALID_IMAGE_DESCRIPTOR", "INVALID_IMAGE_SIZE")
    c.m("context NULL", E("INVALID_CONTEXT"), c=None)
    c.m("format NULL", E("INVALID_IMAGE_FORMAT_DESCRIPTOR"), f=None)
    c.m("descriptor NULL", E("INVALID_IMAGE_DESCRIPTOR"), d=None)
    # the simulator accepts every combination of an order with an unpacked type (CL_RGB with CL_FLOAT, say), which is its right
    for o, ty in ((0, "CL_FLOAT"), (0x1234, "CL_FLOAT"), (C["CL_RGBA"], None), (C["CL_RGBA"], "CL_UNORM_SHORT_565"), (C["CL_R"], "CL_UNORM_INT_101010")):
        ff = FMT(o, C[ty] if ty else 0x9999)
        c.keep.append(ff)
        c.m("format 0x%x/%s" % (o, ty), E("INVALID_IMAGE_FORMAT_DESCRIPTOR", "IMAGE_FORMAT_NOT_SUPPORTED"), f=ct.byref(ff))
    mk("image type", E("INVALID_IMAGE_DESCRIPTOR"), image_type=r.choice([0, C["CL_MEM_OBJECT_BUFFER"], 0x9999]))
    mk("width zero", ID, image_width=0)
    mk("width too large", ID | E("MEM_OBJECT_ALLOCATION_FAILURE"), image_width=r.choice([1 << 40, M64, 1 << 62]))
    if t in ("IMAGE2D", "IMAGE3D", "IMAGE2D_ARRAY"):
        mk("height zero", ID, image_height=0)
        mk("height too large", ID, image_height=r.choice([1 << 40, M64, 1 << 61]))
    if t == "IMAGE3D":
        mk("depth zero", ID, image_depth=0)
        mk("depth too large", ID, image_depth=r.choice([1 << 40, 1 << 61]))
    if t.endswith("ARRAY"):
        mk("array size zero", ID, image_array_size=0)
        mk("array size too large", ID, image_array_size=r.choice([1 << 40, 1 << 61]))
    mk("mip levels", E("INVALID_IMAGE_DESCRIPTOR", "INVALID_MIP_LEVEL"), num_mip_levels=1)
    mk("samples", E("INVALID_IMAGE_DESCRIPTOR"), num_samples=2)
    if t == "IMAGE1D_BUFFER":
        mk("buffer missing", E("INVALID_IMAGE_DESCRIPTOR", "INVALID_VALUE", "INVALID_MEM_OBJECT"), buffer=None)
        mk("buffer too small", ID, image_width=4096)
        mk("buffer is an image", E("INVALID_IMAGE_DESCRIPTOR", "INVALID_MEM_OBJECT"), buffer=w.img["IMAGE2D"])
    else:
        c.m("host pointer missing", E("INVALID_HOST_PTR"), fl=r.choice([8, 32]), hp=None)
        c.m("host pointer without flag", E("INVALID_HOST_PTR"), fl=r.choice([0, 1]), hp=w.hp)
        if not host:
            mk("row pitch without host pointer", E("INVALID_IMAGE_DESCRIPTOR"), image_row_pitch=256)
        else:
            mk("row pitch too small", E("INVALID_IMAGE_DESCRIPTOR"), image_row_pitch=7)
            if fmt_size(fmt) > 1:
                mk("row pitch not multiple of element", E("INVALID_IMAGE_DESCRIPTOR"), image_row_pitch=8 * 16 + 1)
        mem_flags_muts(c, "hp")
    if props:
        c.m("unsupported property", E("INVALID_PROPERTY"), pr=(ct.c_uint64 * 3)(0x7777, 1, 0))
    c.post = w.L.clReleaseMemObject
    return c


def b_sampler(w, r):
    c = Call("clCreateSampler", "obj", dict(c=w.ctx, n=r.choice([0, 1]), a=C["CL_ADDRESS_" + r.choice(["NONE", "CLAMP", "CLAMP_TO_EDGE"])], f=C["CL_FILTER_" + r.choice(["NEAREST", "LINEAR"])]))
    c.m("context NULL", E("INVALID_CONTEXT"), c=None)
    c.m("addressing mode", IV, a=r.choice([0, 0x1129, 0x1136]))
    c.m("filter mode", IV, f=r.choice([0, 0x113f, 0x1142]))
    c.post = w.L.clReleaseSampler
    return c


def b_samplerp(w, r):
    P = lambda *x: (ct.c_uint64 * len(x))(*x)
    n, a, f = C["CL_SAMPLER_NORMALIZED_COORDS"], C["CL_SAMPLER_ADDRESSING_MODE"], C["CL_SAMPLER_FILTER_MODE"]
    c = Call("clCreateSamplerWithProperties", "obj", dict(c=w.ctx, p=r.choice([None, P(0), P(n, 0, 0), P(a, C["CL_ADDRESS_CLAMP"], f, C["CL_FILTER_LINEAR"], 0)])))
    c.m("context NULL", E("INVALID_CONTEXT"), c=None)
    c.m("property name", IV, p=P(0x7777, 1, 0))
    c.m("property value", IV, p=r.choice([P(a, 0x7777, 0), P(f, 0x7777, 0)]))
    c.m("property repeated", IV, p=P(n, 1, n, 1, 0))
    c.post = w.L.clReleaseSampler
    return c


def strs(*x):
    return (ct.c_char_p * len(x))(*x)


def b_source(w, r):
    ln = r.random() < .3
    c = Call("clCreateProgramWithSource", "obj", dict(c=w.ctx, n=2, s=strs(b"kernel void", b" a() {}"), l=(ct.c_size_t * 2)(11, 0) if ln else None))
    c.m("context NULL", E("INVALID_CONTEXT"), c=None)
    c.m("count zero", IV, n=0)
    c.m("strings NULL", IV, s=None)
    c.m("NULL string", IV, s=strs(b"kernel void a() {}", None))
    c.post = w.L.clReleaseProgram
    return c


def b_binary(w, r):
    st = ct.c_int32()
    c = Call("clCreateProgramWithBinary", "obj", dict(c=w.ctx, n=1, d=ptrs([w.dev]), l=(ct.c_size_t * 1)(w.binlen), b=ptrs([ct.addressof(w.bin)]), st=r.choice([None, ct.byref(st)])))
    c.keep = st
    c.m("context NULL", E("INVALID_CONTEXT"), c=None)
    c.m("no devices", IV, n=0)
    c.m("devices NULL", IV, d=None)
    c.m("NULL device", E("INVALID_DEVICE"), d=ptrs([None]))
    c.m("lengths NULL", IV, l=None)
    c.m("binaries NULL", IV, b=None)
    c.m("NULL binary", IV, b=ptrs([None]))
    c.m("length zero", IV, l=(ct.c_size_t * 1)(0))
    g = ct.create_string_buffer(bytes(r.randrange(256) for _ in range(64)), 64)
    c.g = g
    c.m("garbage", E("INVALID_BINARY"), b=ptrs([ct.addressof(g)]), l=(ct.c_size_t * 1)(64))
    c.m("truncated", E("INVALID_BINARY"), l=(ct.c_size_t * 1)(r.choice([1, 3, w.binlen // 2, w.binlen - 5])))
    c.post = w.L.clReleaseProgram
    return c


def newprog(w, src=b"kernel void a(global int *p) { *p = 1; }"):
    return w.L.clCreateProgramWithSource(w.ctx, 1, strs(src), None, None)


def prog_muts(c, w, r):
    c.m("program NULL", E("INVALID_PROGRAM"), p=None)
    c.m("devices NULL", IV, n=1, d=None)
    c.m("devices without count", IV, n=0, d=ptrs([w.dev]))
    c.m("NULL device", E("INVALID_DEVICE"), n=1, d=ptrs([None]))
    c.m("user data without callback", IV, ud=w.hp, cb=None)


def b_build(w, r):
    p = newprog(w)
    dv = r.random() < .5
    c = Call("clBuildProgram", "int", dict(p=p, n=1 if dv else 0, d=ptrs([w.dev]) if dv else None, o=r.choice([None, b"", b"-DX=1", b"-cl-opt-disable"]), cb=None, ud=None))
    prog_muts(c, w, r)
    c.m("options", E("INVALID_BUILD_OPTIONS", "BUILD_PROGRAM_FAILURE"), o=b"-this-is-no-option")
    c.m("kernels attached", E("INVALID_OPERATION"), p=w.prog)
    bad = newprog(w, b"kernel void a( {")
    c.m("source invalid", E("BUILD_PROGRAM_FAILURE"), p=bad)
    c.noeffect = False
    c.undo = c.post = lambda *a: (w.L.clReleaseProgram(p), w.L.clReleaseProgram(bad))
    return c


def b_compile(w, r):
    p = newprog(w, b"#include \"h.h\"\nkernel void a(global int *p) { *p = H; }")
    c = Call("clCompileProgram", "int", dict(p=p, n=0, d=None, o=r.choice([None, b"", b"-DX=1"]), nh=1, h=ptrs([w.header]), hn=strs(b"h.h"), cb=None, ud=None))
    prog_muts(c, w, r)
    c.m("options", E("INVALID_COMPILER_OPTIONS", "COMPILE_PROGRAM_FAILURE"), o=b"-this-is-no-option")
    c.m("headers NULL", IV, h=None)
    c.m("header names NULL", IV, hn=None)
    c.m("headers without count", IV, nh=0)
    c.m("NULL header", E("INVALID_VALUE", "INVALID_PROGRAM"), h=ptrs([None]))
    c.m("NULL header name", IV, hn=strs(None))
    c.m("header missing", E("COMPILE_PROGRAM_FAILURE"), nh=0, h=None, hn=None)
    c.m("kernels attached", E("INVALID_OPERATION"), p=w.prog)
    c.noeffect = False
    c.undo = c.post = lambda *a: w.L.clReleaseProgram(p)
    return c


def b_link(w, r):
    c = Call("clLinkProgram", "obj", dict(c=w.ctx, n=0, d=None, o=r.choice([None, b""]), np=1, ps=ptrs([w.compiled]), cb=None, ud=None))
    c.m("context NULL", E("INVALID_CONTEXT"), c=None)
    c.m("devices NULL", IV, n=1, d=None)
    c.m("devices without count", IV, n=0, d=ptrs([w.dev]))
    c.m("NULL device", E("INVALID_DEVICE"), n=1, d=ptrs([None]))
    c.m("user data without callback", IV, ud=w.hp)
    c.m("no programs", IV, np=0)
    c.m("programs NULL", IV, ps=None)
    c.m("NULL program", E("INVALID_PROGRAM"), np=2, ps=ptrs([w.compiled, None]))
    c.m("program not compiled", E("INVALID_OPERATION"), np=2, ps=ptrs([w.compiled, w.unbuilt]))
    c.noeffect = False
    c.post = w.L.clReleaseProgram
    return c


def b_kernel(w, r):
    c = Call("clCreateKernel", "obj", dict(p=w.prog, n=r.choice([b"k", b"n", b"rq"])))
    c.m("program NULL", E("INVALID_PROGRAM"), p=None)
    c.m("not built", E("INVALID_PROGRAM_EXECUTABLE"), p=w.unbuilt)
    c.m("build failed", E("INVALID_PROGRAM_EXECUTABLE"), p=w.bad)
    c.m("only compiled", E("INVALID_PROGRAM_EXECUTABLE"), p=w.compiled, n=b"c1")
    c.m("name NULL", IV, n=None)
    c.m("name unknown", E("INVALID_KERNEL_NAME"), n=r.choice([b"", b"kk", b"K", b"get_global_id"]))
    c.post = w.L.clReleaseKernel
    return c


def b_kernels(w, r):
    out = (ct.c_void_p * 8)()
    num = ct.c_uint32()
    c = Call("clCreateKernelsInProgram", "int", dict(p=w.prog, n=r.choice([5, 8]), k=out, nr=r.choice([None, ct.byref(num)])))
    c.keep = num
    c.m("program NULL", E("INVALID_PROGRAM"), p=None)
    c.m("not built", E("INVALID_PROGRAM_EXECUTABLE"), p=w.unbuilt)
    c.m("build failed", E("INVALID_PROGRAM_EXECUTABLE"), p=w.bad)
    c.m("only compiled", E("INVALID_PROGRAM_EXECUTABLE"), p=w.compiled)
    c.m("too few entries", IV, n=r.choice([0, 1, 4]))
    c.post = lambda *a: [w.L.clReleaseKernel(x) for x in out if x]
    return c


def b_arg(w, r):
    V = lambda x: ct.byref(ct.c_void_p(x))
    k = w.X.kernel(w.prog, "k") if False else None
    which = r.choice(["mem", "int", "local", "image", "sampler", "vec", "const", "wimage"])
    kern, i, n, v = dict(mem=(w.kun, 0, 8, r.choice([V(w.buf2), V(None), None])), int=(w.kun, 1, 4, ct.byref(ct.c_int32(7))), local=(w.kun, 2, 16, None), image=(w.kim, 0, 8, V(w.img["IMAGE2D"])),
                         sampler=(w.kim, 1, 8, V(w.samp)), vec=(w.kst, 0, 16, ct.create_string_buffer(16)), const=(w.kim, 3, 8, V(w.buf)), wimage=(w.kim, 2, 8, V(w.img["IMAGE2D"])))[which]
    # a separate kernel object keeps "argument not set" of w.kun meaningful
    kern = {w.kun: w.kset, w.kim: w.kim, w.kst: w.kst}[kern]
    c = Call("clSetKernelArg", "int", dict(k=kern, i=i, n=n, v=v))
    c.keep = v
    c.m("kernel NULL", E("INVALID_KERNEL"), k=None)
    c.m("index", E("INVALID_ARG_INDEX"), i=r.choice([4, 5, 100, 1 << 31, (1 << 32) - 1]))
    AS, AV = E("INVALID_ARG_SIZE"), E("INVALID_ARG_VALUE")
    if which == "local":
        c.m("size zero", AS | AV, n=0)
        c.m("local with value", AV, v=ct.byref(ct.c_int32(7)))
    elif which == "int":
        c.m("size", AS, n=r.choice([0, 1, 3, 5, 8]))
        c.m("value NULL", AV, v=None)
    elif which == "vec":
        c.m("size", AS, n=r.choice([0, 4, 12, 15]))
        c.m("value NULL", AV, v=None)
    else:
        c.m("size", AS | AV | E("INVALID_MEM_OBJECT"), n=r.choice([0, 4, 7, 9, 16]))
        if which == "sampler":
            c.m("sampler NULL", E("INVALID_SAMPLER", "INVALID_ARG_VALUE"), v=V(None))
            c.m("value NULL", E("INVALID_SAMPLER", "INVALID_ARG_VALUE"), v=None)
        if which in ("image", "wimage"):
            c.m("image NULL", E("INVALID_MEM_OBJECT", "INVALID_ARG_VALUE"), v=V(None))
            c.m("buffer for image", E("INVALID_MEM_OBJECT", "INVALID_ARG_VALUE"), v=V(w.buf))
        if which in ("mem", "const"):
            c.m("image for buffer", E("INVALID_MEM_OBJECT", "INVALID_ARG_VALUE"), v=V(w.img["IMAGE2D"]))
    return c


def b_devs(w, r):
    d, n = (ct.c_void_p * 2)(), ct.c_uint32()
    c = Call("clGetDeviceIDs", "int", dict(p=r.choice([None, w.platform]), t=r.choice([0xFFFFFFFF, 1]), n=r.choice([1, 2]), d=d, nr=ct.byref(n)))
    c.keep = d, n
    c.m("platform", E("INVALID_PLATFORM"), p=8)
    c.m("type", E("INVALID_DEVICE_TYPE", "DEVICE_NOT_FOUND"), t=r.choice([0, 1 << 12]))
    c.m("count zero", IV, n=0)
    c.m("no outputs", IV, d=None, nr=None)
    return c


def b_plats(w, r):
    d, n = (ct.c_void_p * 2)(), ct.c_uint32()
    c = Call("clGetPlatformIDs", "int", dict(n=r.choice([1, 2]), p=d, nr=ct.byref(n)))
    c.keep = d, n
    c.m("count zero", IV, n=0)
    c.m("no outputs", IV, p=None, nr=None)
    return c


def b_fmts(w, r):
    d, n = (FMT * 200)(), ct.c_uint32()
    c = Call("clGetSupportedImageFormats", "int", dict(c=w.ctx, fl=r.choice([1, 2, 4]), t=C["CL_MEM_OBJECT_IMAGE2D"], n=r.choice([1, 3, 200]), f=d, nr=ct.byref(n)))
    c.keep = d, n
    c.m("context NULL", E("INVALID_CONTEXT"), c=None)
    c.m("count zero", IV, n=0)
    c.m("type", IV, t=r.choice([0, C["CL_MEM_OBJECT_BUFFER"], 0x7777]))
    c.m("flags", IV, fl=r.choice([3, 1 << 40]))
    return c


def b_uev(w, r):
    c = Call("clCreateUserEvent", "obj", dict(c=w.ctx))
    c.m("context NULL", E("INVALID_CONTEXT"), c=None)
    c.post = w.L.clReleaseEvent
    return c


BUILDERS = dict(read=lambda w, r: b_rw(w, r, False), write=lambda w, r: b_rw(w, r, True), readrect=lambda w, r: b_rect(w, r, False), writerect=lambda w, r: b_rect(w, r, True), copy=b_copy,
                copyrect=b_copyrect, fill=b_fill, map=b_map, unmap=b_unmap, migrate=b_migrate, readimg=lambda w, r: b_imgrw(w, r, False), writeimg=lambda w, r: b_imgrw(w, r, True), copyimg=b_copyimg,
                img2buf=b_img2buf, buf2img=b_buf2img, fillimg=b_fillimg, mapimg=b_mapimg, ndrange=b_ndrange, task=b_task, native=b_native, marker=b_marker, waitev=b_waitev, wait=b_wait, setuser=b_setuser,
                evcb=b_evcb, memcb=b_memcb, retain=b_retain, flush=b_flush, ctx=b_ctx, ctxt=b_ctxt, queue=b_queue, queuep=b_queuep, buffer=b_buffer, sub=b_sub, image=b_image, sampler=b_sampler,
                samplerp=b_samplerp, source=b_source, binary=b_binary, build=b_build, compile=b_compile, link=b_link, kernel=b_kernel, kernels=b_kernels, arg=b_arg, devs=b_devs, plats=b_plats, fmts=b_fmts, uev=b_uev)
SLOW = ("build", "compile", "link", "binary")
HEAVY = ("read", "write", "readrect", "writerect", "copy", "copyrect", "fill", "map", "readimg", "writeimg", "copyimg", "img2buf", "buf2img", "fillimg", "mapimg", "ndrange", "buffer", "sub", "image", "arg")


def cases(rng, tier):
    out = []
    k = 3 if tier == "quick" else 60
    for b in BUILDERS:
        n = 10 if b in SLOW else 60 if b in HEAVY else 20
        out += [dict(b=b, seed=rng.randrange(1 << 30), n=8 if b in SLOW else 40) for _ in range(n * k)]
    return out


def refs(w):
    L, n, out = w.L, ct.c_uint32(), []
    for f, p, o in ((L.clGetContextInfo, "CONTEXT", w.ctx), (L.clGetContextInfo, "CONTEXT", w.Y.ctx), (L.clGetCommandQueueInfo, "QUEUE", w.q), (L.clGetMemObjectInfo, "MEM", w.buf), (L.clGetMemObjectInfo, "MEM", w.buf2),
                    (L.clGetMemObjectInfo, "MEM", w.bufx), (L.clGetMemObjectInfo, "MEM", w.sub), (L.clGetMemObjectInfo, "MEM", w.img["IMAGE2D"]), (L.clGetMemObjectInfo, "MEM", w.img["IMAGE3D"]), (L.clGetEventInfo, "EVENT", w.ev),
                    (L.clGetEventInfo, "EVENT", w.evx), (L.clGetEventInfo, "EVENT", w.udone), (L.clGetKernelInfo, "KERNEL", w.kern), (L.clGetKernelInfo, "KERNEL", w.kun), (L.clGetProgramInfo, "PROGRAM", w.prog),
                    (L.clGetProgramInfo, "PROGRAM", w.compiled), (L.clGetSamplerInfo, "SAMPLER", w.samp)):
        e = f(o, C["CL_%s_REFERENCE_COUNT" % p], 4, ct.byref(n), None)
        out.append(n.value if e == 0 else e)
    return out


def run_case(w, c):
    L, r = w.L, random.Random(c["seed"])
    if not hasattr(w, "kset"):
        w.kset = w.X.kernel(w.prog, "k")
    v, keys = [], set()
    L.clFinish(w.q)
    for _ in range(c["n"]):
        call = BUILDERS[c["b"]](w, r)
        nm = r.choice([0, 1, 1, 1, 1])  # one at a time: two could cancel each other
        ms = r.sample(call.muts, min(nm, len(call.muts)))
        if "only" in c:  # triage: this mutation alone
            ms = [m for m in call.muts if m[0] == c["only"]]
        args = dict(call.a)
        codes = set()
        for label, fn, cs in ms:
            fn(args)
            codes |= cs
        valid = not ms
        label = ", ".join(m[0] for m in ms) or "valid"
        if getattr(call, "pre", None) and valid:
            call.pre()
        L.mon.clear()
        before = refs(w)
        hostb = w.host.copy() if not valid else None
        err = ct.c_int32(12345)
        a = list(args.values())
        if call.kind == "obj":
            res = getattr(L, call.name)(*a, ct.byref(err))
            code = err.value
        else:
            code = getattr(L, call.name)(*a)
            res = None
        what = "%s with %s" % (call.name, label)
        key = "%s:%s" % (call.name, label)
        keys.add(key)
        if valid:
            if code != 0:
                v.append((key, "valid %s returns %d; arguments %s" % (call.name, code, show(args))))
            elif call.kind == "obj" and not res:
                v.append((key, "%s succeeds but returns NULL" % call.name))
            if getattr(call, "enq", False):
                if code == 0 and args.get("ev") and not call.ev.value:
                    v.append((key + ":event", "%s succeeds without setting the event" % call.name))
                L.clFinish(w.q)
                if args.get("ev") and call.ev.value:
                    L.clReleaseEvent(call.ev)
            if call.post and code == 0:
                call.post(res)
                L.clFinish(w.q)
            elif getattr(call, "undo", None) and code == 0 and call.name == "clEnqueueUnmapMemObject":
                pass
        else:
            if code not in codes:
                v.append((key, "%s returns %d, OpenCL specifies %s; arguments %s" % (what, code, sorted(codes), show(args))))
            if code == 12345:
                v.append((key + ":errcode", "%s leaves errcode_ret unset" % what))
            if call.kind == "obj" and code != 0 and res and call.name != "clLinkProgram":
                v.append((key + ":object", "%s returns error %d and an object" % (what, code)))
            if getattr(call, "enq", False):
                if code != 0 and call.ev.value:
                    v.append((key + ":event", "%s fails with %d but sets the event" % (what, code)))
            if code == 0:  # nothing to compare: the call took effect
                if len(v) > 6:
                    break
                return dict(violations=v, nontrivial=sorted(keys), evals=len(keys))  # leave: state of this worker may be unusual
            L.clFinish(w.q)
            rec = L.mon.recs()
            eff = [ocl.KINDS[int(k)] for k in rec["kind"] if int(k) != 1]
            if eff and getattr(call, "noeffect", True):
                v.append((key + ":effect", "%s fails with %d but has effects on device memory: %s" % (what, code, eff[:6])))
            if getattr(call, "undo", None):
                call.undo()
                L.clFinish(w.q)
            else:
                after = refs(w)
                if before != after:
                    v.append((key + ":refs", "%s fails with %d but reference counts change from %s to %s" % (what, code, before, after)))
            if (w.host != hostb).any():
                v.append((key + ":host", "%s fails with %d but host memory changed" % (what, code)))
        if len(v) > 6:
            break
    return dict(violations=v, nontrivial=sorted(keys), evals=c["n"], stats={"calls": c["n"]}, sample=c)


def show(a):
    def s(x):
        if isinstance(x, ct.Array) and x._type_ in (ct.c_size_t, ct.c_void_p):
            return list(x)
        if hasattr(x, "_obj"):
            return "&" + (str(x._obj.value) if hasattr(x._obj, "value") else str([getattr(x._obj, f[0]) for f in x._obj._fields_]) if hasattr(x._obj, "_fields_") else "?")
        return x if not isinstance(x, (ct._CFuncPtr,)) else "fn"
    return {k: s(x) for k, x in a.items()}
