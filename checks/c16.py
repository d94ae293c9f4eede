"""C16: object lifetimes.  Random graphs of objects are created, retained, released and used in commands that are still pending; the
model knows who refers to whom, the monitor sees contexts and device allocations, AddressSanitizer sees uses of freed objects."""
import ctypes as ct, gc, random
import numpy as np
import ocl
from ocl import Lib, C, sizes, ptrs, setenv

PROP = "C16"
VARIANT = "asan"
RULE = ("random histories of 30-150 create/retain/release/enqueue/query operations over 1-3 contexts and all object kinds; sources, kernels, programs, samplers, events, queues and contexts "
        "are released while commands that use them wait for user events; the result of every command, the destructor callbacks (exactly once, reverse order, not early, not late), reference "
        "counts, live contexts and device allocations are compared with the model at every quiescent point, plus ASan and a repeat-and-measure leak oracle; non-trivial = a command ran after "
        "one of its objects had been released by the application, by seed")
ASSUMPTIONS = ["reference counts may include internal references", "an application does not set a kernel argument to an object it releases before the launch"]
CASE_TIMEOUT = 120
CBE = ct.CFUNCTYPE(None, ct.c_void_p, ct.c_int32, ct.c_void_p)
CBM = ct.CFUNCTYPE(None, ct.c_void_p, ct.c_void_p)
NK = ct.CFUNCTYPE(None, ct.c_void_p)
SRC = """
kernel void kb(global const uchar *src, global uchar *sink, uint slot, global const int *opt) { for (int i = 0; i < 16; i++) sink[slot*16+i] = src[i]; }
kernel void ki(read_only image2d_t im, sampler_t s, global uchar *sink, uint slot, read_only image2d_t im2)
{ for (int i = 0; i < 4; i++) { uint4 v = read_imageui(im, s, (int2)(i, 0)); sink[slot*16+4*i] = v.x; sink[slot*16+4*i+1] = v.y; sink[slot*16+4*i+2] = v.z; sink[slot*16+4*i+3] = v.w + (get_image_width(im2) - 4); } }
kernel void k1(read_only image1d_buffer_t im, global uchar *sink, uint slot)
{ for (int i = 0; i < 4; i++) { uint4 v = read_imageui(im, i); sink[slot*16+4*i] = v.x; sink[slot*16+4*i+1] = v.y; sink[slot*16+4*i+2] = v.z; sink[slot*16+4*i+3] = v.w; } }
"""
SLOTS = 64


def cases(rng, tier):
    n = 4000 if tier == "quick" else 100000
    m = 100 if tier == "quick" else 2500
    return [dict(seed=rng.randrange(1 << 30), n=rng.choice([30, 60, 100, 150, 300])) for _ in range(n)] + [dict(seed=rng.randrange(1 << 30), n=40, leak=12) for _ in range(m)]


class W:
    pass


def setup_worker(env):
    w = W()
    L = w.L = Lib(env["build"])
    L.core.__sanitizer_get_current_allocated_bytes.restype = ct.c_size_t
    w.bin = None
    # memory-object destructor callbacks: (object id, index)
    w.fired = []
    w.H = None
    w.cbm = CBM(lambda m, d: w.H.mem_cb(m, d or 0))
    w.cbc = CBM(lambda m, d: w.H.ctx_cb(m, d or 0))
    w.cbe = CBE(lambda e, s, d: w.H.ev_cb(e, s, d or 0))
    w.nk = NK(lambda a: w.H.native(a))
    return w


class O:
    """A model object; app = references held by the application, holds = objects it refers to."""
    n = 0

    def __init__(self, H, kind, h, ctx, holds=()):
        O.n += 1
        self.id, self.kind, self.h, self.ctx, self.app = O.n, kind, h, ctx, 1
        self.holds = list(holds)
        self.dead = False
        self.ncb, self.fired = 0, []
        H.objs.append(self)
        H.ids[self.id] = self


class Cmd:
    pass


REL = dict(ctx="Context", queue="CommandQueue", buf="MemObject", sub="MemObject", img="MemObject", bimg="MemObject", sampler="Sampler", prog="Program", kernel="Kernel", event="Event", uevent="Event")
INFO = dict(ctx=("Context", "CONTEXT"), queue=("CommandQueue", "QUEUE"), buf=("MemObject", "MEM"), sub=("MemObject", "MEM"), img=("MemObject", "MEM"), bimg=("MemObject", "MEM"),
            sampler=("Sampler", "SAMPLER"), prog=("Program", "PROGRAM"), kernel=("Kernel", "KERNEL"), event=("Event", "EVENT"), uevent=("Event", "EVENT"))
MEMS = ("buf", "sub", "img", "bimg")


class Hist:
    def __init__(self, w, seed):
        self.w, self.L, self.r = w, w.L, random.Random(seed)
        self.v, self.log = [], []
        self.objs, self.ids, self.cmds = [], {}, []
        self.st = dict(objects=0, commands=0, released_before_run=0, quiescent=0, destroyed=0, queries=0, callbacks=0)
        self.err = ct.c_int32()
        self.keep = []
        self.evcbs = {}

    # -- observations ------------------------------------------------------------------------------------------------------
    def bad(self, key, what):
        self.v.append((key, what + "\n  history: " + "; ".join(self.log[-80:])))

    def must(self, what, code):
        if code:
            self.bad(what, "%s returns %d" % (what, code))
            raise Stop()

    def mem_cb(self, m, d):
        o = self.ids.get(d >> 8)
        self.st["callbacks"] += 1
        if o is None or o.h != m:
            self.bad("destructor callback:object", "destructor callback called with an unexpected object")
            return
        o.fired.append(d & 255)
        if self.definite(o):
            self.bad("destructor callback:early", "%s %d is destroyed while referenced by %s" % (o.kind, o.id, self.definite(o)))

    def ctx_cb(self, c, d):
        self.mem_cb(c, d)

    def ev_cb(self, e, s, d):
        self.st["callbacks"] += 1
        rec = self.evcbs[d]
        rec["n"] += 1
        if rec["h"] != e:
            self.bad("event callback:event", "callback called with another event")
        if rec["release"] and rec["o"].app > 0:
            rec["o"].app -= 1
            if self.L.clReleaseEvent(e):
                self.bad("release in callback", "clReleaseEvent fails in a callback")

    def native(self, a):
        i, src, dst = np.frombuffer(ct.string_at(a, 24), np.uint64)
        ct.memmove(int(dst) + 16 * int(i), int(src), 16)

    # -- the model ----------------------------------------------------------------------------------------------------------
    def blocked(self, c, memo=None):
        """the command certainly has not run: it waits for an unset user event"""
        memo = {} if memo is None else memo
        if c in memo:
            return memo[c]
        memo[c] = False
        r = False
        if not c.done:
            for e in c.wait:
                r = r or (e.kind == "uevent" and e.status is None) or (e.kind == "event" and self.blocked(e.cmd, memo))
            if not c.queue.ooo:
                prev = [x for x in c.queue.cmds if x.seq < c.seq]
                r = r or any(self.blocked(x, memo) for x in prev[-1:])
            elif c.kind in ("marker", "barrier") and not c.wait:
                r = r or any(self.blocked(x, memo) for x in c.queue.cmds if x.seq < c.seq)
            if c.queue.ooo:
                r = r or any(self.blocked(x, memo) for x in [y for y in c.queue.cmds if y.seq < c.seq and y.kind == "barrier"][-1:])
        memo[c] = r
        return r

    def definite(self, o):
        """reasons why o has to exist now (empty: it may be gone)"""
        if o.app > 0:
            return "the application"
        for x in self.objs:
            if x is not o and o in x.holds and not x.dead:
                if self.definite(x):
                    return "%s %d" % (x.kind, x.id)
        memo = {}
        for c in self.cmds:
            if o in c.uses and self.blocked(c, memo):
                return "a pending command"
        return None

    def live(self, o):
        """at a quiescent point: whether o exists"""
        return o.app > 0 or any(o in x.holds and self.live(x) for x in self.objs if not x.dead)

    def usable(self, *kinds):
        return [o for o in self.objs if o.kind in kinds and o.app > 0]

    # -- creation -------------------------------------------------------------------------------------------------------------
    def ctx(self):
        r = self.r
        cs = [o for o in self.objs if o.kind == "ctx" and not o.dead and self.definite(o)]
        if cs and (len(cs) > 2 or r.random() < .9):
            return r.choice(cs)
        L = self.L
        setenv({"LOG": "/dev/null", "NUM_THREADS": 1, "PLUGINS": L.mon.path})
        props = (ct.c_size_t * 3)(C["CL_CONTEXT_PLATFORM"], L.platform, 0) if r.random() < .5 else None
        h = L.clCreateContext(props, 1, ptrs([L.device]), None, None, ct.byref(self.err))
        self.must("clCreateContext", self.err.value)
        o = O(self, "ctx", h, None)
        o.slot = 0
        self.log.append("ctx %d" % o.id)
        # the destination of the commands
        o.sink = self.buf(o, 16 * SLOTS, zero=True)
        o.sinkdata = o.sink.data.copy()
        self.queue(o)
        return o

    def buf(self, c, size=None, zero=False):
        r = self.r
        size = size or 16 * r.randint(2, 16)
        data = np.zeros(size, np.uint8) if zero else np.frombuffer(r.randbytes(size), np.uint8).copy()
        how = r.choice(["copy", "copy", "use"]) if not zero else "copy"
        self.keep.append(data)
        h = self.L.clCreateBuffer(c.h, C["CL_MEM_READ_WRITE"] | C["CL_MEM_%s_HOST_PTR" % how.upper()], size, data.ctypes.data, ct.byref(self.err))
        self.must("clCreateBuffer", self.err.value)
        o = O(self, "buf", h, c, [c])
        o.data, o.how = data, how
        self.log.append("buf %d(ctx %d)" % (o.id, c.id))
        return o

    def queue(self, c):
        p = self.r.choice([0, 0, 1, 2, 3])
        if self.r.random() < .3:
            h = self.L.clCreateCommandQueueWithProperties(c.h, self.L.device, (ct.c_uint64 * 3)(C["CL_QUEUE_PROPERTIES"], p, 0), ct.byref(self.err))
        else:
            h = self.L.clCreateCommandQueue(c.h, self.L.device, p, ct.byref(self.err))
        self.must("clCreateCommandQueue", self.err.value)
        o = O(self, "queue", h, c, [c])
        o.ooo, o.cmds, o.prof = bool(p & 1), [], bool(p & 2)
        self.log.append("queue %d(ctx %d)" % (o.id, c.id))
        return o

    def create(self):
        r, L = self.r, self.L
        k = r.choice(["buf", "sub", "sub", "img", "bimg", "bimg", "sampler", "prog", "kernel", "kernel", "kernel", "clone", "uevent", "uevent", "queue"])
        c = self.ctx()
        if k == "buf":
            return self.buf(c)
        if k == "queue":
            return self.queue(c)
        if k in ("sub", "bimg"):
            ps = [o for o in self.usable("buf") if o is not o.ctx.sink]
            if not ps:
                return
            p = r.choice(ps)
            c = p.ctx
            n = len(p.data) // 16
            if k == "sub":
                off = 0
                sz = 16 * r.randint(1, n)
                reg = sizes([off, sz])
                h = L.clCreateSubBuffer(p.h, 0, C["CL_BUFFER_CREATE_TYPE_REGION"], reg, ct.byref(self.err))
                self.must("clCreateSubBuffer", self.err.value)
                o = O(self, k, h, c, [p])
                o.data = p.data[off:off + sz]
            else:
                d = IDesc(C["CL_MEM_OBJECT_IMAGE1D_BUFFER"], 4 * n, 1, 1, 1, 0, 0, 0, 0, p.h)
                h = L.clCreateImage(c.h, 0, ct.byref(Fmt(C["CL_RGBA"], C["CL_UNSIGNED_INT8"])), ct.byref(d), None, ct.byref(self.err))
                self.must("clCreateImage", self.err.value)
                o = O(self, k, h, c, [p])
                o.data = p.data[:16 * n]
        elif k == "img":
            hgt = r.randint(1, 4)
            data = np.frombuffer(r.randbytes(16 * hgt), np.uint8).copy()
            d = IDesc(C["CL_MEM_OBJECT_IMAGE2D"], 4, hgt, 1, 1, 0, 0, 0, 0, None)
            h = L.clCreateImage(c.h, C["CL_MEM_READ_WRITE"] | C["CL_MEM_COPY_HOST_PTR"], ct.byref(Fmt(C["CL_RGBA"], C["CL_UNSIGNED_INT8"])), ct.byref(d), data.ctypes.data, ct.byref(self.err))
            self.must("clCreateImage", self.err.value)
            o = O(self, k, h, c, [c])
            o.data = data
        elif k == "sampler":
            if r.random() < .5:
                h = L.clCreateSampler(c.h, 0, C["CL_ADDRESS_CLAMP"], C["CL_FILTER_NEAREST"], ct.byref(self.err))
            else:
                h = L.clCreateSamplerWithProperties(c.h, (ct.c_uint64 * 3)(C["CL_SAMPLER_NORMALIZED_COORDS"], 0, 0), ct.byref(self.err))
            self.must("clCreateSampler", self.err.value)
            o = O(self, k, h, c, [c])
        elif k == "prog":
            o = self.program(c)
        elif k == "kernel":
            ps = self.usable("prog")
            p = r.choice(ps) if ps and r.random() < .8 else self.program(c)
            c = p.ctx
            if r.random() < .3:
                hs = ptrs([0] * 3)
                self.must("clCreateKernelsInProgram", L.clCreateKernelsInProgram(p.h, 3, hs, None))
                for h in hs:
                    o = O(self, k, h, c, [p])
                    o.name = self.kname(h)
                    o.argobjs = None
                    self.log.append("kernel %d(prog %d)" % (o.id, p.id))
                return o
            name = r.choice(["kb", "kb", "ki", "ki", "k1"])
            h = L.clCreateKernel(p.h, ct.c_char_p(name.encode()), ct.byref(self.err))
            self.must("clCreateKernel", self.err.value)
            o = O(self, k, h, c, [p])
            o.name, o.argobjs = name, None
        elif k == "clone":
            ks = self.usable("kernel")
            if not ks:
                return
            s = r.choice(ks)
            h = L.clCloneKernel(s.h, ct.byref(self.err))
            self.must("clCloneKernel", self.err.value)
            o = O(self, "kernel", h, s.ctx, list(s.holds))
            o.name, o.argobjs = s.name, s.argobjs
            c = s.ctx
            self.log.append("clone of %d:" % s.id)
        elif k == "uevent":
            h = L.clCreateUserEvent(c.h, ct.byref(self.err))
            self.must("clCreateUserEvent", self.err.value)
            o = O(self, k, h, c, [c])
            o.status = None
        self.log.append("%s %d(ctx %d)" % (k, o.id, c.id))
        return o

    def kname(self, h):
        b = ct.create_string_buffer(64)
        self.L.clGetKernelInfo(h, C["CL_KERNEL_FUNCTION_NAME"], 64, b, None)
        return b.value.decode()

    def program(self, c):
        L, w = self.L, self.w
        how = "src" if w.bin is None or self.r.random() < .04 else "bin"
        if how == "src":
            h = L.clCreateProgramWithSource(c.h, 1, (ct.c_char_p * 1)(SRC.encode()), None, ct.byref(self.err))
        else:
            st = ct.c_int32()
            b = ct.create_string_buffer(w.bin, len(w.bin))
            h = L.clCreateProgramWithBinary(c.h, 1, ptrs([L.device]), sizes([len(w.bin)]), ptrs([ct.addressof(b)]), ct.byref(st), ct.byref(self.err))
        self.must("create program", self.err.value)
        self.must("clBuildProgram", L.clBuildProgram(h, 0, None, None, None, None))
        if w.bin is None:
            n = ct.c_size_t()
            L.clGetProgramInfo(h, C["CL_PROGRAM_BINARY_SIZES"], 8, ct.byref(n), None)
            b = ct.create_string_buffer(n.value)
            L.clGetProgramInfo(h, C["CL_PROGRAM_BINARIES"], 8, ct.byref(ct.c_void_p(ct.addressof(b))), None)
            w.bin = b.raw
        o = O(self, "prog", h, c, [c])
        self.log.append("prog %d(ctx %d)" % (o.id, c.id))
        return o

    # -- commands -----------------------------------------------------------------------------------------------------------------
    def setarg(self, k, i, val, size=8):
        if isinstance(val, bytes):
            code = self.L.clSetKernelArg(k.h, i, len(val), ct.c_char_p(val))
        else:
            code = self.L.clSetKernelArg(k.h, i, 8, ct.byref(ct.c_void_p(val)) if val else None)
        self.must("clSetKernelArg", code)

    def enqueue(self):
        r, L = self.r, self.L
        qs = [q for q in self.usable("queue") if q.ctx.slot < SLOTS and q.ctx.sink.app > 0]
        if not qs:
            return
        q = r.choice(qs)
        c = q.ctx
        sink = c.sink
        kind = r.choice(["copy", "copy", "kernel", "kernel", "kernel", "read", "write", "native", "marker", "barrier", "fill", "mapunmap", "migrate"])
        mems = [m for m in self.usable(*MEMS) if m.ctx is c and m is not sink]
        evs = [e for e in self.usable("event", "uevent") if e.ctx is c]
        unset = [e for e in evs if e.kind == "uevent" and e.status is None]
        wait = []
        if unset and r.random() < .5:
            wait.append(r.choice(unset))
        if evs and r.random() < .3:
            wait += [e for e in r.sample(evs, min(len(evs), r.randint(1, 3))) if e not in wait]
        ev = ct.c_void_p()
        want = r.random() < .6
        E = [len(wait), ptrs([e.h for e in wait]) if wait else None, ct.byref(ev) if want else None]
        x = Cmd()
        x.kind, x.wait, x.queue, x.done, x.uses, x.host, x.ctx = kind, wait, q, False, [q], None, c
        x.seq, x.slot, x.exp = len(self.cmds), None, None
        if kind in ("copy", "kernel", "read", "native", "mapunmap", "migrate") and not mems:
            return
        if kind not in ("marker", "barrier", "read", "mapunmap", "migrate"):
            x.slot = c.slot
        if mems:
            m = r.choice(mems)
        off = 16 * (x.slot or 0)
        if kind == "copy":
            x.exp = m.data[:16].copy()
            if m.kind in ("img", "bimg"):
                code = L.clEnqueueCopyImageToBuffer(q.h, m.h, sink.h, sizes([0, 0, 0]), sizes([4, 1, 1]), off, *E)
            else:
                code = L.clEnqueueCopyBuffer(q.h, m.h, sink.h, 0, off, 16, *E)
            x.uses += [m, sink]
        elif kind == "fill":
            x.exp = np.frombuffer(r.randbytes(16), np.uint8)
            code = L.clEnqueueFillBuffer(q.h, sink.h, ct.c_char_p(x.exp.tobytes()), 16, off, 16, *E)
            x.uses += [sink]
        elif kind == "write":
            x.exp = np.frombuffer(r.randbytes(16), np.uint8)
            self.keep.append(x.exp)
            code = L.clEnqueueWriteBuffer(q.h, sink.h, 0, off, 16, x.exp.ctypes.data, *E)
            x.uses += [sink]
        elif kind == "read":
            x.host = np.zeros(16, np.uint8)
            x.exp = m.data[:16].copy()
            if m.kind in ("img", "bimg"):
                code = L.clEnqueueReadImage(q.h, m.h, 0, sizes([0, 0, 0]), sizes([4, 1, 1]), 0, 0, x.host.ctypes.data, *E)
            else:
                code = L.clEnqueueReadBuffer(q.h, m.h, 0, 0, 16, x.host.ctypes.data, *E)
            x.uses += [m]
        elif kind == "native":
            if m.kind != "buf":
                return
            x.exp = m.data[:16].copy()
            arg = (ct.c_uint64 * 3)(x.slot, 0, 0)
            code = L.clEnqueueNativeKernel(q.h, ct.cast(self.w.nk, ct.c_void_p), ct.byref(arg), 24, 2, ptrs([m.h, sink.h]), ptrs([ct.addressof(arg) + 8, ct.addressof(arg) + 16]), *E)
            x.uses += [m, sink]
        elif kind == "kernel":
            ks = [k for k in self.usable("kernel") if k.ctx is c]
            if not ks:
                return
            k = r.choice(ks)
            reuse = k.argobjs and all(a.app > 0 for a in k.argobjs) and r.random() < .4
            slot = np.uint32(x.slot).tobytes()
            if k.name == "kb":
                bs = [b for b in mems if b.kind in ("buf", "sub")]
                if not bs:
                    return
                if not reuse:
                    opt = r.choice(bs)
                    if r.random() < .6:
                        self.setarg(k, 3, opt.h)
                        if r.random() < .6:
                            self.setarg(k, 3, None)
                            opt = None
                    else:
                        self.setarg(k, 3, None)
                        opt = None
                    b = r.choice(bs)
                    self.setarg(k, 0, b.h)
                    self.setarg(k, 1, sink.h)
                    k.argobjs = [b, sink] + ([opt] if opt else [])
                self.setarg(k, 2, slot)
            elif k.name == "ki":
                im = [b for b in mems if b.kind == "img"]
                sm = [s for s in self.usable("sampler") if s.ctx is c]
                if not im or not sm:
                    return
                if not reuse:
                    b = r.choice(im)
                    b2 = r.choice(im)
                    s = r.choice(sm)
                    self.setarg(k, 0, b.h)
                    self.setarg(k, 1, s.h)
                    self.setarg(k, 2, sink.h)
                    self.setarg(k, 4, b2.h)
                    k.argobjs = [b, sink, b2]
                self.setarg(k, 3, slot)
            else:
                im = [b for b in mems if b.kind == "bimg"]
                if not im:
                    return
                if not reuse:
                    b = r.choice(im)
                    self.setarg(k, 0, b.h)
                    self.setarg(k, 1, sink.h)
                    k.argobjs = [b, sink]
                self.setarg(k, 2, slot)
            if not reuse and r.random() < .3:
                # launch a clone and drop it
                h = L.clCloneKernel(k.h, ct.byref(self.err))
                self.must("clCloneKernel", self.err.value)
                o = O(self, "kernel", h, k.ctx, list(k.holds))
                o.name, o.argobjs = k.name, k.argobjs
                k = o
            x.exp = k.argobjs[0].data[:16].copy()
            self.log.append("kernel %d args %s" % (k.id, [a.id for a in k.argobjs]))
            code = L.clEnqueueNDRangeKernel(q.h, k.h, 1, None, sizes([1]), None, *E) if r.random() < .8 else L.clEnqueueTask(q.h, k.h, *E)
            x.uses += [k] + k.argobjs
        elif kind == "mapunmap":
            if wait or any(self.blocked(y) for y in q.cmds):
                return
            if m.kind in ("img", "bimg"):
                rp = ct.c_size_t()
                p = L.clEnqueueMapImage(q.h, m.h, 1, 1, sizes([0, 0, 0]), sizes([4, 1, 1]), ct.byref(rp), None, 0, None, None, ct.byref(self.err))
            else:
                p = L.clEnqueueMapBuffer(q.h, m.h, 1, 1, 0, 16, 0, None, None, ct.byref(self.err))
            self.must("map", self.err.value)
            if ct.string_at(p, 16) != m.data[:16].tobytes():
                self.bad("map:content", "mapped %s %d has the wrong content" % (m.kind, m.id))
            if unset:
                E[0], E[1] = 1, ptrs([unset[0].h])
                x.wait = [unset[0]]
            code = L.clEnqueueUnmapMemObject(q.h, m.h, p, *E)
            x.uses += [m]
        elif kind == "migrate":
            code = L.clEnqueueMigrateMemObjects(q.h, 1, ptrs([m.h]), 0, *E)
            x.uses += [m]
        elif kind == "marker":
            code = L.clEnqueueMarkerWithWaitList(q.h, *E)
        else:
            code = L.clEnqueueBarrierWithWaitList(q.h, *E)
        self.must("enqueue " + kind, code)
        if x.slot is not None:
            c.slot += 1
        self.cmds.append(x)
        q.cmds.append(x)
        self.st["commands"] += 1
        self.log.append("#%d %s q%d uses %s wait %s" % (x.seq, kind, q.id, [u.id for u in x.uses[1:]], [e.id for e in wait]))
        if want:
            e = O(self, "event", ev.value, c, [q])
            e.cmd = x
            if r.random() < .3:
                self.callback(e)
            if r.random() < .3:
                self.release(e)
        for u in x.uses[1:]:
            if u is not sink and u.app > 0 and r.random() < .35:
                self.release(u, r.random() < .7)
        if r.random() < .08:
            self.release(q, True)

    def callback(self, e):
        n = len(self.evcbs) + 1
        rel = self.r.random() < .3
        if rel:
            self.must("clRetainEvent", self.L.clRetainEvent(e.h))
            e.app += 1
        self.evcbs[n] = dict(n=0, h=e.h, release=rel, o=e)
        self.must("clSetEventCallback", self.L.clSetEventCallback(e.h, 0, ct.cast(self.w.cbe, ct.c_void_p), n))

    # -- references ---------------------------------------------------------------------------------------------------------------
    def release(self, o, every=False):
        if o.kind == "uevent" and o.status is None and o.app == 1:
            return
        for _ in range(o.app if every else 1):
            if o.app <= 0 or (o.kind == "uevent" and o.status is None and o.app == 1):
                return
            if o.kind == "event" and o.app <= sum(1 for x in self.evcbs.values() if x["o"] is o and x["release"] and not x["n"]):
                return  # that reference is released by the callback
            self.log.append("release %s %d" % (o.kind, o.id))
            if o.kind == "ctx" or o.kind == "queue":
                # destruction is decided inside the call
                o.app -= 1
                code = getattr(self.L, "clRelease" + REL[o.kind])(o.h)
            else:
                o.app -= 1
                code = getattr(self.L, "clRelease" + REL[o.kind])(o.h)
            self.must("clRelease" + REL[o.kind], code)

    def retain(self, o):
        self.log.append("retain %s %d" % (o.kind, o.id))
        o.app += 1
        self.must("clRetain" + REL[o.kind], getattr(self.L, "clRetain" + REL[o.kind])(o.h))

    def query(self, o):
        self.st["queries"] += 1
        fn, pre = INFO[o.kind]
        n = ct.c_uint32(0xFFFFFFFF)
        code = getattr(self.L, "clGet%sInfo" % fn)(o.h, C["CL_%s_REFERENCE_COUNT" % pre], 4, ct.byref(n), None)
        self.must("clGet%sInfo" % fn, code)
        hi = o.app + sum(x.holds.count(o) for x in self.objs if x is not o) + sum(2 for c in self.cmds if o in c.uses or (o.kind in ("event", "uevent") and (o in c.wait or getattr(o, "cmd", None) is c)))
        if not o.app <= n.value <= hi + (len(self.objs) if o.kind == "ctx" else 0):
            self.bad("reference count:" + fn, "%s %d reports %d references; the application holds %d, at most %d others" % (o.kind, o.id, n.value, o.app, hi - o.app))
        h = ct.c_void_p()
        if o.kind not in ("ctx", "uevent", "event"):
            code = getattr(self.L, "clGet%sInfo" % fn)(o.h, C["CL_%s_CONTEXT" % pre], 8, ct.byref(h), None)
            if code or h.value != o.ctx.h:
                self.bad("context of " + o.kind, "%s %d reports another context (%d)" % (o.kind, o.id, code))
        if o.kind == "event":
            code = self.L.clGetEventInfo(o.h, C["CL_EVENT_COMMAND_QUEUE"], 8, ct.byref(h), None)
            if code or h.value != o.cmd.queue.h:
                self.bad("queue of event", "event %d reports another queue" % o.id)
            t = ct.c_uint64()
            code = self.L.clGetEventProfilingInfo(o.h, C["CL_PROFILING_COMMAND_END"], 8, ct.byref(t), None)
            if code == 0 and not o.cmd.queue.prof:
                self.bad("profiling", "profiling information without profiling")
            self.L.clGetCommandQueueInfo(h, C["CL_QUEUE_REFERENCE_COUNT"], 4, ct.byref(n), None)
        if o.kind == "kernel":
            code = self.L.clGetKernelInfo(o.h, C["CL_KERNEL_PROGRAM"], 8, ct.byref(h), None)
            if code or h.value != o.holds[0].h:
                self.bad("program of kernel", "kernel %d reports another program" % o.id)
            if self.kname(o.h) != o.name:
                self.bad("kernel name", "kernel %d is called %r instead of %r" % (o.id, self.kname(o.h), o.name))
        if o.kind in MEMS and not (o.kind == "buf" and o is o.ctx.sink):
            qs = [q for q in self.usable("queue") if q.ctx is o.ctx and not any(self.blocked(c) for c in q.cmds)]
            if qs:
                b = np.zeros(len(o.data), np.uint8)
                if o.kind in ("img", "bimg"):
                    w = 4 if o.kind == "img" else len(o.data) // 4
                    code = self.L.clEnqueueReadImage(qs[0].h, o.h, 1, sizes([0, 0, 0]), sizes([w, len(o.data) // (4 * w), 1]), 0, 0, b.ctypes.data, 0, None, None)
                else:
                    code = self.L.clEnqueueReadBuffer(qs[0].h, o.h, 1, 0, len(b), b.ctypes.data, 0, None, None)
                if code or (b != o.data).any():
                    self.bad("content of " + o.kind, "%s %d has lost its content (%d)" % (o.kind, o.id, code))

    def quiesce(self):
        r, L = self.r, self.L
        for e in self.objs:
            if e.kind == "uevent" and e.status is None and e.app > 0:
                self.setuser(e)
        qs = [q for q in self.usable("queue")]
        r.shuffle(qs)
        for q in qs:
            self.must("clFinish", L.clFinish(q.h))
        for x in self.cmds:
            if not x.done:
                x.done = True
                if any(u.app == 0 for u in x.uses):
                    self.st["released_before_run"] += 1
                if x.host is not None and (x.host != x.exp).any():
                    self.bad("result of pending read", "read command #%d did not deliver the content" % x.seq)
        self.judge()
        for o in self.objs:
            if o.kind == "ctx" and not o.dead and o.sink.app > 0:
                qs = [q for q in self.usable("queue") if q.ctx is o]
                if not qs:
                    continue
                b = np.zeros(16 * SLOTS, np.uint8)
                self.must("read sink", L.clEnqueueReadBuffer(qs[0].h, o.sink.h, 1, 0, len(b), b.ctypes.data, 0, None, None))
                for x in self.cmds:
                    if x.ctx is o and x.slot is not None and (b[16 * x.slot:16 * x.slot + 16] != x.exp).any():
                        self.bad("result of pending " + x.kind, "command #%d (%s) did not have its effect" % (x.seq, x.kind))
                        x.exp = b[16 * x.slot:16 * x.slot + 16].copy()

    def judge(self):
        """every command has finished: the objects that exist are exactly those referred to"""
        self.st["quiescent"] += 1
        for n, x in self.evcbs.items():
            if x["n"] != 1:
                self.bad("event callback:count", "callback of event %d called %d times" % (x["o"].id, x["n"]))
                x["n"] = 1
        for o in self.objs:
            alive = self.live(o)
            if o.kind in MEMS or o.kind == "ctx":
                exp = [] if alive else list(range(o.ncb - 1, -1, -1))
                if o.fired != exp:
                    self.bad("destructor callbacks:%s" % ("late" if len(o.fired) < len(exp) else "wrong"), "%s %d (%s): destructor callbacks %s have been called instead of %s" % (o.kind, o.id, "alive" if alive else "released", o.fired, exp))
                    o.fired = exp
            if not alive and not o.dead:
                o.dead = True
                self.st["destroyed"] += 1
        n = sum(1 for o in self.objs if o.kind == "ctx" and not o.dead)
        if self.L.mon.contexts() - self.base != n:
            self.bad("live contexts:" + ("leak" if self.L.mon.contexts() - self.base > n else "early"), "%d contexts exist instead of %d" % (self.L.mon.contexts() - self.base, n))
            self.base = self.L.mon.contexts() - n
        t = self.L.mon.recs()
        a = int(((t["kind"] == 2) & (t["a"] == 1)).sum()) - int(((t["kind"] == 3) & (t["a"] == 1)).sum())
        n = sum(1 for o in self.objs if not o.dead and o.kind in ("buf", "img"))
        if a - self.abase != n:
            self.bad("device allocations:" + ("leak" if a - self.abase > n else "early"), "%d device allocations exist for %d memory objects" % (a - self.abase, n))
            self.abase = a - n

    def setuser(self, e):
        self.log.append("set user event %d" % e.id)
        e.status = 0
        self.must("clSetUserEventStatus", self.L.clSetUserEventStatus(e.h, 0))

    # -- a history ------------------------------------------------------------------------------------------------------------------
    def run(self, n):
        r, L = self.r, self.L
        L.mon.clear()
        L.mon.mask("alloc", "free")
        self.base, self.abase = L.mon.contexts(), 0
        for _ in range(r.randint(4, 10)):
            self.create()
        for _ in range(n):
            x = r.random()
            if x < .2:
                self.create()
            elif x < .55:
                self.enqueue()
            elif x < .63:
                o = [o for o in self.objs if o.app > 0]
                if o:
                    self.retain(r.choice(o))
            elif x < .8:
                o = [o for o in self.objs if o.app > 0 and not (o.kind == "buf" and o is o.ctx.sink)]
                if o:
                    o = r.choice(o)
                    self.release(o, r.random() < .3)
            elif x < .9:
                o = [o for o in self.objs if o.app > 0]
                if o:
                    self.query(r.choice(o))
            elif x < .94:
                o = [o for o in self.objs if o.app > 0 and o.kind in MEMS + ("ctx",) and o.ncb < 5]
                if o:
                    o = r.choice(o)
                    f = L.clSetContextDestructorCallback if o.kind == "ctx" else L.clSetMemObjectDestructorCallback
                    self.must("set destructor callback", f(o.h, ct.cast(self.w.cbc if o.kind == "ctx" else self.w.cbm, ct.c_void_p), o.id << 8 | o.ncb))
                    o.ncb += 1
            elif x < .96:
                e = [e for e in self.usable("uevent") if e.status is None]
                if e:
                    e = r.choice(e)
                    if r.random() < .3:
                        self.callback(e)
                    self.setuser(e)
            elif x < .98:
                q = self.usable("queue")
                if q:
                    self.must("clFlush", L.clFlush(r.choice(q).h))
            else:
                self.quiesce()
        if r.random() < .7:
            self.quiesce()
        # everything goes, in any order, with some commands still pending
        o = [o for o in self.objs if o.app > 0]
        r.shuffle(o)
        for x in o:
            if x.kind == "uevent" and x.status is None:
                self.setuser(x)
            self.release(x, True)
        for x in self.cmds:
            x.done = True
        for x in self.objs:
            if x.kind == "uevent" and x.app > 0 and x.status is None:
                self.setuser(x)
                self.release(x, True)
        self.judge()
        if any(o.app > 0 for o in self.objs):
            self.bad("machinery", "model error")


class Fmt(ct.Structure):
    _fields_ = [("o", ct.c_uint32), ("t", ct.c_uint32)]


class IDesc(ct.Structure):
    _fields_ = [("type", ct.c_uint32), ("w", ct.c_size_t), ("h", ct.c_size_t), ("d", ct.c_size_t), ("n", ct.c_size_t), ("rp", ct.c_size_t), ("sp", ct.c_size_t),
                ("mip", ct.c_uint32), ("smp", ct.c_uint32), ("buf", ct.c_void_p)]


class Stop(Exception):
    pass


def once(w, c):
    O.n = 0
    H = w.H = Hist(w, c["seed"])
    try:
        H.run(c["n"])
    except Stop:
        pass
    return H


def run_case(w, c):
    H = once(w, c)
    v = H.v
    st = dict(H.st)
    st["objects"] = len(H.objs)
    if c.get("leak") and not v:
        def size():
            gc.collect()
            return w.L.core.__sanitizer_get_current_allocated_bytes()
        w.H = H = None
        once(w, c)
        s = [size()]
        for _ in range(c["leak"]):
            w.H = None
            once(w, c)
            w.H = None
            s.append(size())
        d = [b - a for a, b in zip(s, s[1:])]
        if min(d[2:]) >= 24:
            v.append(("leak", "memory in use grows with every repetition of the history: %s bytes" % d))
        st["leak_histories"] = 1
    return dict(violations=v, nontrivial=bool(st["released_before_run"]), stats=st, evals=st["commands"] + st["queries"] + st["quiescent"], sample=st)
