"""C18: information queries.  Objects are created with random attributes; every query of every object is compared with the attribute the
object was created with or has acquired since (argument lists, mappings, retains, builds, event states), with guard bytes around results."""
import ctypes as ct, random, struct
import numpy as np
import ocl
from ocl import Ctx, Lib, C, CLError, sizes, ptrs
from c17 import FMT, DESC

PROP = "C18"
RULE = ("random platform/device/context/queue/buffer/sub-buffer/image/sampler/program/kernel/event objects; every query asked with size-only, exact, larger, too small and absent size result; "
        "results against the attributes of creation, behaviour (limits are probed) and the kernel source; non-trivial = distinct (query, value) pairs")
ASSUMPTIONS = ["attributes that are the simulator's own choice (names, vendor, preferred widths) are only checked for size, form and consistency"]
CASE_TIMEOUT = 60
U32, I32, U64 = (lambda v: struct.pack("<I", v & 0xFFFFFFFF)), (lambda v: struct.pack("<i", v)), (lambda v: struct.pack("<Q", v & (1 << 64) - 1))
PTR = lambda v: struct.pack("<Q", v or 0)
STR = lambda s: (s if isinstance(s, bytes) else s.encode()) + b"\0"
GUARD = 64
CB2 = ct.CFUNCTYPE(None, ct.c_void_p, ct.c_int32, ct.c_void_p)
ALLIDS = {}
for _n, _v in C.items():
    for _p in ("CL_PLATFORM_", "CL_DEVICE_", "CL_CONTEXT_", "CL_QUEUE_", "CL_MEM_", "CL_IMAGE_", "CL_SAMPLER_", "CL_PROGRAM_", "CL_KERNEL_", "CL_EVENT_", "CL_PROFILING_"):
        if _n.startswith(_p) and 0x800 < _v < 0x5000:
            ALLIDS.setdefault(_v, _n)


class Chk:
    def __init__(self, w, r, L):
        self.w, self.r, self.L, self.v, self.keys, self.n = w, r, L, [], set(), 0

    def bad(self, key, what):
        self.v.append((key, what))

    def raw(self, fn, pre, pid, size, ptr, sret):
        return getattr(self.L, fn)(*pre, pid, size, ptr, sret)

    def q(self, fn, pre, pname, exp=None, ok=None, size=None, codes=None):
        """exp: exact bytes; ok: predicate over the bytes (message or None); codes: an error is expected instead"""
        r, pid = self.r, (C[pname] if isinstance(pname, str) else pname)
        key = "%s:%s" % (fn, pname)
        self.n += 1
        sz = ct.c_size_t(0xA5A5A5)
        if codes is not None:
            buf = np.full(512, 0xA5, np.uint8)
            c = self.raw(fn, pre, pid, 256, buf.ctypes.data + 64, ct.byref(sz))
            self.keys.add((key, "error"))
            if c not in codes:
                self.bad(key + ":code", "%s(%s) returns %d, expected one of %s" % (fn, pname, c, sorted(codes)))
            if (buf != 0xA5).any():
                self.bad(key + ":failed write", "%s(%s) fails with %d but writes to the result buffer" % (fn, pname, c))
            return None
        c = self.raw(fn, pre, pid, 0, None, ct.byref(sz))
        if c:
            self.bad(key + ":code", "%s(%s) returns %d" % (fn, pname, c))
            return None
        n = sz.value
        want = len(exp) if exp is not None else size
        if want is not None and n != want:
            self.bad(key + ":size", "%s(%s) reports %d bytes instead of %d" % (fn, pname, n, want))
            if n > 1 << 20:
                return None
        got = None
        for extra in (0, r.choice([1, 3, 8, 50])):
            buf = np.full(n + extra + 2 * GUARD, 0xA5, np.uint8)
            s2 = ct.c_size_t(0xA5A5A5)
            noret = r.random() < .3
            c = self.raw(fn, pre, pid, n + extra, buf.ctypes.data + GUARD, None if noret else ct.byref(s2))
            if c:
                self.bad(key + ":code", "%s(%s) returns %d for a buffer of the reported size%s" % (fn, pname, c, " plus %d" % extra if extra else ""))
                return None
            if not noret and s2.value != n:
                self.bad(key + ":size", "%s(%s) reports %d bytes, then %d" % (fn, pname, n, s2.value))
            if (buf[:GUARD] != 0xA5).any() or (buf[GUARD + n + extra:] != 0xA5).any():
                self.bad(key + ":overrun", "%s(%s) writes outside the %d bytes given" % (fn, pname, n + extra))
            b = buf[GUARD:GUARD + n].tobytes()
            if got is not None and b != got:
                self.bad(key + ":unstable", "%s(%s) returns different values" % (fn, pname))
            got = b
        if n:
            for small in {n - 1, r.randrange(n)}:
                buf = np.full(n + 2 * GUARD, 0xA5, np.uint8)
                c = self.raw(fn, pre, pid, small, buf.ctypes.data + GUARD, r.choice([None, ct.byref(sz)]))
                if c != C["CL_INVALID_VALUE"]:
                    self.bad(key + ":small", "%s(%s) with a buffer of %d instead of %d bytes returns %d" % (fn, pname, small, n, c))
                if (buf != 0xA5).any():
                    self.bad(key + ":small write", "%s(%s) writes to a buffer that is too small" % (fn, pname))
        if exp is not None and got != exp:
            self.bad(key + ":value", "%s(%s) returns %s instead of %s" % (fn, pname, show(got), show(exp)))
        if ok is not None:
            msg = ok(got)
            if msg:
                self.bad(key + ":value", "%s(%s) returns %s: %s" % (fn, pname, show(got), msg))
        self.keys.add((key, got[:24].hex()))
        return got

    def unknown(self, fn, pre, known):
        """a few attribute numbers that this query does not define"""
        kn = set(C[k] for k in known)
        ids = [i for i in ALLIDS if i not in kn] + [0, 1, 0xFFFFFFFF]
        for i in self.r.sample(ids, 3):
            if i in kn:
                continue
            sz = ct.c_size_t(0xA5A5A5)
            buf = np.full(64, 0xA5, np.uint8)
            c = self.raw(fn, pre, i, 64, buf.ctypes.data, ct.byref(sz))
            self.n += 1
            if c != C["CL_INVALID_VALUE"]:
                self.bad("%s:unknown" % fn, "%s of attribute 0x%X (%s), which it does not have, returns %d" % (fn, i, ALLIDS.get(i, "?"), c))
            if (buf != 0xA5).any() or sz.value != 0xA5A5A5:
                self.bad("%s:unknown write" % fn, "%s of attribute 0x%X fails but writes results" % (fn, i))


def show(b):
    if len(b) in (4, 8):
        return "0x%X" % int.from_bytes(b, "little")
    try:
        s = b.decode("ascii")
        if s.rstrip("\0").isprintable():
            return repr(s)
    except UnicodeDecodeError:
        pass
    return b[:48].hex() + ("..." if len(b) > 48 else "") + " (%d bytes)" % len(b)


class W:
    pass


def setup_worker(env):
    w = W()
    w.L = Lib(env["build"])
    w.X = Ctx(w.L, {})
    return w


KINDS = ["device", "context", "queue", "mem", "image", "sampler", "program", "kernel", "event"]
WEIGHT = dict(device=2, context=3, queue=4, mem=8, image=14, sampler=4, program=6, kernel=14, event=8)


def cases(rng, tier):
    k = 8 if tier == "quick" else 500
    out = []
    for kind in KINDS:
        for _ in range(WEIGHT[kind] * k):
            out.append(dict(kind=kind, seed=rng.getrandbits(48)))
    return out


def run_case(w, c):
    r = random.Random(c["seed"])
    k = Chk(w, r, w.L)
    globals()["t_" + c["kind"]](w, r, k, w.L, w.X)
    return dict(violations=k.v[:12], nontrivial=sorted("%s=%s" % x for x in k.keys), evals=k.n, stats={c["kind"]: 1}, sample=c)


# ------------------------------------------------------------------ platform and device
def isstr(b):
    return None if b and b[-1] == 0 and 0 not in b[:-1] else "not one terminated string"


def atleast(n):
    return lambda b: None if int.from_bytes(b, "little") >= n else "below the minimum %d of OpenCL" % n


def oneof(*v):
    return lambda b: None if int.from_bytes(b, "little") in v else "not one of %s" % (v,)


def bits(m):
    return lambda b: None if int.from_bytes(b, "little") & ~m == 0 else "undefined bits"


def versions(b):
    if len(b) % 68:
        return "not a sequence of cl_name_version"
    for i in range(0, len(b), 68):
        name = b[i + 4:i + 68]
        if 0 not in name:
            return "name not terminated"


def names(b):
    return [(struct.unpack("<I", b[i:i + 4])[0], b[i + 4:i + 68].split(b"\0")[0].decode()) for i in range(0, len(b or b""), 68)]


def t_device(w, r, k, L, X):
    P, D = [L.platform], [L.device]
    pf = lambda n, **kw: k.q("clGetPlatformInfo", [r.choice([L.platform, L.platform, None])], "CL_PLATFORM_" + n, **kw)
    for n in ("PROFILE", "VERSION", "NAME", "VENDOR", "EXTENSIONS", "ICD_SUFFIX_KHR"):
        pf(n, ok=isstr)
    pv = pf("VERSION", ok=isstr).rstrip(b"\0").decode()
    nv = struct.unpack("<I", pf("NUMERIC_VERSION", size=4))[0]
    if not pv.startswith("OpenCL %d.%d " % (nv >> 22, nv >> 12 & 0x3FF)):
        k.bad("platform version", "platform version %r, numeric version %d.%d" % (pv, nv >> 22, nv >> 12 & 0x3FF))
    pe = pf("EXTENSIONS", ok=isstr).rstrip(b"\0").decode().split()
    if sorted(pe) != sorted(x[1] for x in names(pf("EXTENSIONS_WITH_VERSION", ok=versions))):
        k.bad("platform extensions", "the two lists of platform extensions differ")
    pf("HOST_TIMER_RESOLUTION", size=8)
    k.unknown("clGetPlatformInfo", P, ["CL_PLATFORM_" + n for n in ("PROFILE", "VERSION", "NAME", "VENDOR", "EXTENSIONS", "ICD_SUFFIX_KHR", "NUMERIC_VERSION", "EXTENSIONS_WITH_VERSION", "HOST_TIMER_RESOLUTION")])
    n = ct.c_uint32(77)
    ids = (ct.c_void_p * 3)(1, 2, 3)
    if L.clGetPlatformIDs(3, ids, ct.byref(n)) or n.value != 1 or ids[0] != L.platform or ids[1] != 2:
        k.bad("clGetPlatformIDs", "platform list of %d entries" % n.value)
    dt = k.q("clGetDeviceInfo", D, "CL_DEVICE_TYPE", size=8, ok=lambda b: None if int.from_bytes(b, "little") & 0x1F else "no device type")
    dt = int.from_bytes(dt, "little")
    for t in (1, 2, 4, 8, 16, 0xFFFFFFFF):
        ids = (ct.c_void_p * 2)(1, 2)
        code = L.clGetDeviceIDs(L.platform, t, 2, ids, ct.byref(n))
        have = t == 0xFFFFFFFF or bool(t & dt)
        if code != (0 if have else C["CL_DEVICE_NOT_FOUND"]) or have and (n.value != 1 or ids[0] != L.device or ids[1] != 2):
            k.bad("clGetDeviceIDs", "device of type %X: query for type %X returns %d" % (dt, t, code))
    u4, u8 = lambda **kw: dict(size=4, **kw), lambda **kw: dict(size=8, **kw)
    B = u4(ok=oneof(0, 1))
    T = dict(VENDOR_ID=u4(), MAX_COMPUTE_UNITS=u4(ok=atleast(1)), MAX_WORK_ITEM_DIMENSIONS=u4(ok=atleast(3)), MAX_WORK_ITEM_SIZES=dict(size=24), MAX_WORK_GROUP_SIZE=u8(ok=atleast(1)),
             MAX_CLOCK_FREQUENCY=u4(), ADDRESS_BITS=u4(ok=oneof(32, 64)), MAX_READ_IMAGE_ARGS=u4(ok=atleast(128)), MAX_WRITE_IMAGE_ARGS=u4(ok=atleast(64)), MAX_READ_WRITE_IMAGE_ARGS=u4(),
             MAX_MEM_ALLOC_SIZE=u8(ok=atleast(1 << 20)), IMAGE2D_MAX_WIDTH=u8(ok=atleast(8192)), IMAGE2D_MAX_HEIGHT=u8(ok=atleast(8192)), IMAGE3D_MAX_WIDTH=u8(ok=atleast(2048)), IMAGE3D_MAX_HEIGHT=u8(ok=atleast(2048)),
             IMAGE3D_MAX_DEPTH=u8(ok=atleast(2048)), IMAGE_MAX_BUFFER_SIZE=u8(ok=atleast(65536)), IMAGE_MAX_ARRAY_SIZE=u8(ok=atleast(2048)), IMAGE_SUPPORT=u4(ok=oneof(1)), MAX_PARAMETER_SIZE=u8(ok=atleast(1024)),
             MAX_SAMPLERS=u4(ok=atleast(16)), IMAGE_PITCH_ALIGNMENT=u4(), IMAGE_BASE_ADDRESS_ALIGNMENT=u4(), MAX_PIPE_ARGS=u4(), PIPE_MAX_ACTIVE_RESERVATIONS=u4(), PIPE_MAX_PACKET_SIZE=u4(),
             MEM_BASE_ADDR_ALIGN=u4(ok=atleast(1024)), MIN_DATA_TYPE_ALIGN_SIZE=u4(), SINGLE_FP_CONFIG=u8(ok=lambda b: None if b[0] & 6 == 6 else "round to nearest and infinities are required"), HALF_FP_CONFIG=u8(),
             DOUBLE_FP_CONFIG=u8(), GLOBAL_MEM_CACHE_TYPE=u4(ok=oneof(0, 1, 2)), GLOBAL_MEM_CACHELINE_SIZE=u4(), GLOBAL_MEM_CACHE_SIZE=u8(), GLOBAL_MEM_SIZE=u8(ok=atleast(1)), MAX_CONSTANT_BUFFER_SIZE=u8(ok=atleast(65536)),
             MAX_CONSTANT_ARGS=u4(ok=atleast(8)), MAX_GLOBAL_VARIABLE_SIZE=u8(), GLOBAL_VARIABLE_PREFERRED_TOTAL_SIZE=u8(), LOCAL_MEM_TYPE=u4(ok=oneof(1, 2)), LOCAL_MEM_SIZE=u8(ok=atleast(32768)), ERROR_CORRECTION_SUPPORT=B,
             PROFILING_TIMER_RESOLUTION=u8(), ENDIAN_LITTLE=u4(ok=oneof(1)), AVAILABLE=u4(ok=oneof(1)), COMPILER_AVAILABLE=u4(ok=oneof(1)), LINKER_AVAILABLE=u4(ok=oneof(1)), EXECUTION_CAPABILITIES=u8(ok=lambda b: None if b[0] & 1 else "kernels are executed"),
             QUEUE_ON_HOST_PROPERTIES=u8(ok=lambda b: None if b[0] & 2 else "profiling is required"), QUEUE_ON_DEVICE_PROPERTIES=u8(), QUEUE_ON_DEVICE_PREFERRED_SIZE=u4(), QUEUE_ON_DEVICE_MAX_SIZE=u4(), MAX_ON_DEVICE_QUEUES=u4(),
             MAX_ON_DEVICE_EVENTS=u4(), NAME=dict(ok=isstr), VENDOR=dict(ok=isstr), PROFILE=dict(exp=STR("FULL_PROFILE")), VERSION=dict(ok=isstr), EXTENSIONS=dict(ok=isstr), PLATFORM=dict(exp=PTR(L.platform)),
             HOST_UNIFIED_MEMORY=B, OPENCL_C_VERSION=dict(ok=isstr), BUILT_IN_KERNELS=dict(exp=STR("")), PARENT_DEVICE=dict(exp=PTR(None)), PARTITION_MAX_SUB_DEVICES=u4(), PARTITION_AFFINITY_DOMAIN=u8(), REFERENCE_COUNT=dict(exp=U32(1)),
             PREFERRED_INTEROP_USER_SYNC=B, PRINTF_BUFFER_SIZE=u8(ok=atleast(1 << 20)), SVM_CAPABILITIES=u8(), PREFERRED_PLATFORM_ATOMIC_ALIGNMENT=u4(), PREFERRED_GLOBAL_ATOMIC_ALIGNMENT=u4(), PREFERRED_LOCAL_ATOMIC_ALIGNMENT=u4(),
             MAX_NUM_SUB_GROUPS=u4(), SUB_GROUP_INDEPENDENT_FORWARD_PROGRESS=B, NUMERIC_VERSION=u4(), EXTENSIONS_WITH_VERSION=dict(ok=versions), IL_VERSION=dict(exp=STR("")), ILS_WITH_VERSION=dict(exp=b""), BUILT_IN_KERNELS_WITH_VERSION=dict(exp=b""),
             ATOMIC_MEMORY_CAPABILITIES=u8(), ATOMIC_FENCE_CAPABILITIES=u8(), NON_UNIFORM_WORK_GROUP_SUPPORT=B, OPENCL_C_ALL_VERSIONS=dict(ok=versions), PREFERRED_WORK_GROUP_SIZE_MULTIPLE=u8(ok=atleast(1)),
             WORK_GROUP_COLLECTIVE_FUNCTIONS_SUPPORT=B, GENERIC_ADDRESS_SPACE_SUPPORT=B, OPENCL_C_FEATURES=dict(ok=versions), DEVICE_ENQUEUE_CAPABILITIES=u8(), PIPE_SUPPORT=B, LATEST_CONFORMANCE_VERSION_PASSED=dict(ok=isstr),
             SPIR_VERSIONS=dict(ok=isstr))
    for t in ("CHAR", "SHORT", "INT", "LONG", "FLOAT", "DOUBLE", "HALF"):
        T["PREFERRED_VECTOR_WIDTH_" + t] = T["NATIVE_VECTOR_WIDTH_" + t] = u4()
    T["PARTITION_PROPERTIES"] = T["PARTITION_TYPE"] = dict(ok=lambda b: None if len(b) % 8 == 0 else "not an array")
    got = {}
    if "CL_DEVICE_SPIR_VERSIONS" not in C:
        T.pop("SPIR_VERSIONS")
    items = list(T.items())
    r.shuffle(items)
    for n, kw in items:
        got[n] = k.q("clGetDeviceInfo", D, "CL_DEVICE_" + n, **kw)
    k.q("clGetDeviceInfo", D, "CL_DRIVER_VERSION", ok=isstr)
    k.unknown("clGetDeviceInfo", D, [n for n in C if n.startswith("CL_DEVICE_") or n == "CL_DRIVER_VERSION"])
    if k.v:
        return
    I = lambda n: int.from_bytes(got[n], "little")
    v = got["VERSION"].decode()
    if not v.startswith("OpenCL %d.%d " % (I("NUMERIC_VERSION") >> 22, I("NUMERIC_VERSION") >> 12 & 0x3FF)):
        k.bad("device version", "device version %r does not agree with the numeric version" % v)
    if not got["OPENCL_C_VERSION"].decode().startswith("OpenCL C "):
        k.bad("C version", "OpenCL C version %r" % got["OPENCL_C_VERSION"])
    ex = got["EXTENSIONS"].decode().rstrip("\0").split()
    if sorted(ex) != sorted(x[1] for x in names(got["EXTENSIONS_WITH_VERSION"])):
        k.bad("device extensions", "the two lists of device extensions differ")
    if ("cl_khr_fp64" in ex) != (I("DOUBLE_FP_CONFIG") != 0):
        k.bad("fp64", "cl_khr_fp64 and CL_DEVICE_DOUBLE_FP_CONFIG disagree")
    ws = struct.unpack("<3Q", got["MAX_WORK_ITEM_SIZES"])
    mw = I("MAX_WORK_GROUP_SIZE")
    # limits as the simulator applies them
    prog = X.program("kernel void f(global int *p) { if (p) p[0] = 1; }")
    f = X.kernel(prog, "f")
    b = X.buffer(size=64)
    X.args(f, b)
    if max(ws) > 1 << 26 or min(ws) < 1:
        k.bad("item sizes", "CL_DEVICE_MAX_WORK_ITEM_SIZES %s" % (ws,))
    for d in range(3):
        for n_, ok in ((min(ws[d], mw), True), (min(ws[d], mw) + 1, False)):
            g = [1, 1, 1]
            g[d] = n_
            code = L.clEnqueueNDRangeKernel(X.q, f, 3, None, sizes(g), sizes(g), 0, None, None) if (not ok or n_ <= 4096) else 0
            if ok and code or not ok and code not in (C["CL_INVALID_WORK_GROUP_SIZE"], C["CL_INVALID_WORK_ITEM_SIZE"]):
                k.bad("limit of work-items", "work-group of %s with limits %s and %d returns %d" % (g, ws, mw, code))
    L.clFinish(X.q)
    e = ct.c_int32()
    for n_, ok in ((1 << 40, I("MAX_MEM_ALLOC_SIZE") >= 1 << 40),):
        m = L.clCreateBuffer(X.ctx, 0, I("MAX_MEM_ALLOC_SIZE") + 1 if not ok else n_, None, ct.byref(e))
        if not ok and e.value == 0:
            pass  # larger allocations may be accepted
        if m:
            L.clReleaseMemObject(m)
    al = I("MEM_BASE_ADDR_ALIGN") // 8
    big = X.buffer(size=4 * al)
    for o, ok in ((al, True), (2 * al, True), (al + 1, False), (al // 2, False)):
        reg = sizes([o, 8])
        m = L.clCreateSubBuffer(big, 0, C["CL_BUFFER_CREATE_TYPE_REGION"], reg, ct.byref(e))
        if (e.value == 0) != ok or not ok and e.value != C["CL_MISALIGNED_SUB_BUFFER_OFFSET"]:
            k.bad("alignment", "alignment %d bytes; sub-buffer at %d returns %d" % (al, o, e.value))
        if m:
            L.clReleaseMemObject(m)
    fm = FMT(C["CL_R"], C["CL_UNSIGNED_INT8"])
    for ty, dim, lim in (("IMAGE2D", 0, "IMAGE2D_MAX_WIDTH"), ("IMAGE2D", 1, "IMAGE2D_MAX_HEIGHT"), ("IMAGE3D", 0, "IMAGE3D_MAX_WIDTH"), ("IMAGE3D", 1, "IMAGE3D_MAX_HEIGHT"), ("IMAGE3D", 2, "IMAGE3D_MAX_DEPTH"),
                         ("IMAGE1D", 0, "IMAGE2D_MAX_WIDTH"), ("IMAGE1D_ARRAY", 3, "IMAGE_MAX_ARRAY_SIZE"), ("IMAGE2D_ARRAY", 3, "IMAGE_MAX_ARRAY_SIZE"), ("IMAGE2D_ARRAY", 1, "IMAGE2D_MAX_HEIGHT"), ("IMAGE1D_BUFFER", 0, "IMAGE_MAX_BUFFER_SIZE")):
        for over in (0, 1):
            s = [1, 1, 1, 1]
            s[dim] = I(lim) + over
            if s[dim] > 1 << 24:
                continue
            bb = X.buffer(size=s[0]) if ty == "IMAGE1D_BUFFER" else None
            ds = DESC(C["CL_MEM_OBJECT_" + ty], s[0], s[1], s[2], s[3], 0, 0, 0, 0, bb)
            m = L.clCreateImage(X.ctx, 0, ct.byref(fm), ct.byref(ds), None, ct.byref(e))
            if not over and e.value or over and e.value not in (C["CL_INVALID_IMAGE_SIZE"], C["CL_INVALID_IMAGE_DESCRIPTOR"]):
                k.bad("image limit", "%s with %s %d %s returns %d" % (ty, lim, I(lim), "exceeded by one" if over else "reached", e.value))
            if m:
                L.clReleaseMemObject(m)
    # language versions and features
    for ver, _ in names(got["OPENCL_C_ALL_VERSIONS"]):
        o = "-cl-std=CL%d.%d" % (ver >> 22, ver >> 12 & 0x3FF)
        try:
            src = "#if __OPENCL_C_VERSION__ != %d\n#error version\n#endif\nkernel void g(global int *p) { *p = 1; }" % ((ver >> 22) * 100 + (ver >> 12 & 0x3FF) * 10)
            X.program(src, o)
        except CLError as x:
            k.bad("C versions", "listed OpenCL C version does not build with %s: %s" % (o, str(x)[:200]))
    src = "".join("#ifndef %s\n#error %s\n#endif\n" % (n_, n_) for _, n_ in names(got["OPENCL_C_FEATURES"])) + "kernel void g(global int *p) { *p = 1; }"
    try:
        X.program(src, "-cl-std=CL3.0")
    except CLError as x:
        k.bad("C features", "listed OpenCL C feature is not defined: %s" % str(x)[:200])
    fl = set(n_ for _, n_ in names(got["OPENCL_C_FEATURES"]))
    for feat, param in (("__opencl_c_generic_address_space", "GENERIC_ADDRESS_SPACE_SUPPORT"), ("__opencl_c_pipes", "PIPE_SUPPORT"), ("__opencl_c_device_enqueue", "DEVICE_ENQUEUE_CAPABILITIES"), ("__opencl_c_fp64", "DOUBLE_FP_CONFIG"),
                        ("__opencl_c_work_group_collective_functions", "WORK_GROUP_COLLECTIVE_FUNCTIONS_SUPPORT"), ("__opencl_c_images", "IMAGE_SUPPORT")):
        if (feat in fl) != (I(param) != 0):
            k.bad("feature " + feat, "%s and CL_DEVICE_%s disagree" % (feat, param))


# ------------------------------------------------------------------ context, queue
def refs(k, fn, obj, pname, retain, release, base=1, obs=None):
    """retain/release moves the count by one each"""
    L = k.L
    n = base
    for _ in range(k.r.randint(1, 4)):
        if k.r.random() < .6 or n == base:
            getattr(L, retain)(obj)
            n += 1
        else:
            getattr(L, release)(obj)
            n -= 1
        k.q(fn, [obj], pname, exp=U32(n))
    while n > base:
        getattr(L, release)(obj)
        n -= 1
    k.q(fn, [obj], pname, exp=U32(n))


def t_context(w, r, k, L, X):
    e = ct.c_int32()
    for _ in range(3):
        props = r.choice([None, [], [C["CL_CONTEXT_PLATFORM"], L.platform], [C["CL_CONTEXT_INTEROP_USER_SYNC"], r.choice([0, 1])], [C["CL_CONTEXT_INTEROP_USER_SYNC"], 1, C["CL_CONTEXT_PLATFORM"], L.platform]])
        arr = None if props is None else ptrs(props + [None])
        if r.random() < .5:
            c = L.clCreateContext(arr, 1, ptrs([L.device]), None, None, ct.byref(e))
        else:
            c = L.clCreateContextFromType(arr, C["CL_DEVICE_TYPE_ALL"], None, None, ct.byref(e))
        if e.value:
            k.bad("clCreateContext", "context with properties %s: %d" % (props, e.value))
            return
        G = "clGetContextInfo"
        k.q(G, [c], "CL_CONTEXT_NUM_DEVICES", exp=U32(1))
        k.q(G, [c], "CL_CONTEXT_DEVICES", exp=PTR(L.device))
        k.q(G, [c], "CL_CONTEXT_PROPERTIES", exp=b"" if props is None else None, ok=None if props is None else (lambda b: None if b == b"".join(PTR(x) for x in props + [0]) or not props and b == b"" else "context was created with other properties"))
        k.q(G, [c], "CL_CONTEXT_REFERENCE_COUNT", exp=U32(1))
        refs(k, G, c, "CL_CONTEXT_REFERENCE_COUNT", "clRetainContext", "clReleaseContext")
        k.unknown(G, [c], ["CL_CONTEXT_NUM_DEVICES", "CL_CONTEXT_DEVICES", "CL_CONTEXT_PROPERTIES", "CL_CONTEXT_REFERENCE_COUNT"])
        formats(k, c)
        L.clReleaseContext(c)


def formats(k, c):
    """clGetSupportedImageFormats: the list has the reported length, no duplicates, and every format listed can be created"""
    L, r = k.L, k.r
    e = ct.c_int32()
    ty = r.choice(["IMAGE1D", "IMAGE2D", "IMAGE3D", "IMAGE1D_ARRAY", "IMAGE2D_ARRAY", "IMAGE1D_BUFFER"])
    fl = r.choice([1, 2, 4])
    n = ct.c_uint32()
    L.clGetSupportedImageFormats(c, fl, C["CL_MEM_OBJECT_" + ty], 0, None, ct.byref(n))
    arr = (FMT * (n.value + 2))()
    m = r.randint(0, n.value + 1) or 1
    n2 = ct.c_uint32()
    L.clGetSupportedImageFormats(c, fl, C["CL_MEM_OBJECT_" + ty], m, arr, ct.byref(n2))
    k.n += 2
    got = [(f.order, f.type) for f in arr]
    filled = min(m, n.value)
    if n2.value != n.value or any(x == (0, 0) for x in got[:filled]) or any(x != (0, 0) for x in got[filled:]):
        k.bad("formats", "clGetSupportedImageFormats with %d entries of %d: second count %d, entries %s" % (m, n.value, n2.value, got[filled:filled + 2]))
    L.clGetSupportedImageFormats(c, fl, C["CL_MEM_OBJECT_" + ty], n.value, arr, None)
    got = [(f.order, f.type) for f in arr][:n.value]
    if len(set(got)) != len(got):
        k.bad("formats duplicate", "clGetSupportedImageFormats lists a format twice")
    need = [(o, t) for o in ("CL_RGBA",) for t in ("CL_UNORM_INT8", "CL_UNORM_INT16", "CL_SIGNED_INT8", "CL_SIGNED_INT16", "CL_SIGNED_INT32", "CL_UNSIGNED_INT8", "CL_UNSIGNED_INT16", "CL_UNSIGNED_INT32", "CL_HALF_FLOAT", "CL_FLOAT")] + [("CL_BGRA", "CL_UNORM_INT8")]
    for o, t in need:
        if (C[o], C[t]) not in got:
            k.bad("formats required", "%s %s, which OpenCL requires, is not listed for %s" % (o, t, ty))
    for o, t in r.sample(got, min(12, len(got))):
        f = FMT(o, t)
        bb = L.clCreateBuffer(c, fl, 256, None, ct.byref(e)) if ty == "IMAGE1D_BUFFER" else None
        ds = DESC(C["CL_MEM_OBJECT_" + ty], 4, 3, 2, 2, 0, 0, 0, 0, bb)
        im = L.clCreateImage(c, fl, ct.byref(f), ct.byref(ds), None, ct.byref(e))
        if e.value:
            k.bad("formats create", "supported format 0x%X 0x%X cannot be used for %s: %d" % (o, t, ty, e.value))
        else:
            L.clReleaseMemObject(im)
        if bb:
            L.clReleaseMemObject(bb)


def t_queue(w, r, k, L, X):
    e = ct.c_int32()
    for _ in range(3):
        pr = r.randrange(4)
        arr = None
        if r.random() < .4:
            q = L.clCreateCommandQueue(X.ctx, L.device, pr, ct.byref(e))
            want = b""
        else:
            arr = r.choice([None, [], [C["CL_QUEUE_PROPERTIES"], pr]])
            if not arr:
                pr = 0
            q = L.clCreateCommandQueueWithProperties(X.ctx, L.device, None if arr is None else ptrs(arr + [0]), ct.byref(e))
            want = b"" if arr is None else b"".join(U64(x) for x in arr + [0])
        if e.value:
            k.bad("create queue", "queue with properties %s/%s: %d" % (pr, arr, e.value))
            return
        G = "clGetCommandQueueInfo"
        k.q(G, [q], "CL_QUEUE_CONTEXT", exp=PTR(X.ctx))
        k.q(G, [q], "CL_QUEUE_DEVICE", exp=PTR(L.device))
        k.q(G, [q], "CL_QUEUE_PROPERTIES", exp=U64(pr))
        k.q(G, [q], "CL_QUEUE_PROPERTIES_ARRAY", exp=want)
        k.q(G, [q], "CL_QUEUE_DEVICE_DEFAULT", exp=PTR(None))
        k.q(G, [q], "CL_QUEUE_SIZE", codes={C["CL_INVALID_COMMAND_QUEUE"]})
        k.q(G, [q], "CL_QUEUE_REFERENCE_COUNT", exp=U32(1))
        refs(k, G, q, "CL_QUEUE_REFERENCE_COUNT", "clRetainCommandQueue", "clReleaseCommandQueue")
        k.unknown(G, [q], [n for n in C if n.startswith("CL_QUEUE_")])
        L.clReleaseCommandQueue(q)


# ------------------------------------------------------------------ memory objects
RW = {0: 1, 1: 1, 2: 2, 4: 4}
HP, CP, AP = 8, 32, 16


def memflags(fl):
    return lambda b: None if int.from_bytes(b, "little") in (fl, fl | 1 if not fl & 7 else fl) else "created with flags 0x%X" % fl


def t_mem(w, r, k, L, X):
    e = ct.c_int32()
    G = "clGetMemObjectInfo"
    for _ in range(2):
        size = r.choice([1, 7, 64, 1000, r.randint(1, 5000)])
        acc, ha = r.choice([0, 1, 2, 4]), r.choice([0, 0, 1 << 7, 1 << 8, 1 << 9])
        hp = r.choice([0, 0, HP, CP, AP, AP | CP])
        fl = acc | ha | hp
        host = np.zeros(size + 16, np.uint8)
        ptr = host.ctypes.data + r.randrange(16) if hp & (HP | CP) else None
        props = None
        if r.random() < .5:
            m = L.clCreateBuffer(X.ctx, fl, size, ptr, ct.byref(e))
        else:
            props = r.choice([None, [0]])
            m = L.clCreateBufferWithProperties(X.ctx, None if props is None else (ct.c_uint64 * 1)(0), fl, size, ptr, ct.byref(e))
        if e.value:
            k.bad("clCreateBuffer", "buffer with flags 0x%X: %d" % (fl, e.value))
            return
        hostp = ptr if hp & HP else None
        common(k, G, m, "CL_MEM_OBJECT_BUFFER", fl, size, hostp, None, 0, X, props)
        # sub-buffers
        subs = []
        for _ in range(2 if size >= 130 else 1):
            o = 128 * r.randrange(0, (size - 1) // 128 + 1)
            n = r.randint(1, size - o)
            sacc = r.choice([0] + {0: [1, 2, 4], 1: [1, 2, 4], 2: [2], 4: [4]}[acc])
            sha = r.choice([0] + {0: [1 << 7, 1 << 8, 1 << 9], 1 << 7: [1 << 7, 1 << 9], 1 << 8: [1 << 8, 1 << 9], 1 << 9: [1 << 9]}[ha])
            s = L.clCreateSubBuffer(m, sacc | sha, C["CL_BUFFER_CREATE_TYPE_REGION"], sizes([o, n]), ct.byref(e))
            if e.value:
                k.bad("clCreateSubBuffer", "sub-buffer flags 0x%X of 0x%X: %d" % (sacc | sha, fl, e.value))
                continue
            common(k, G, s, "CL_MEM_OBJECT_BUFFER", (sacc or acc) | (sha or ha) | hp, n, hostp + o if hostp else None, m, o, X, None)
            subs.append(s)
        # mappings
        if not ha & 1 << 9:
            mf = 2 if ha & 1 << 7 else 1 if ha & 1 << 8 else r.choice([1, 2, 3, 4])
            maps = []
            for i in range(r.randint(1, 3)):
                o = r.randrange(size)
                wr = bool(mf & 6)
                if wr and maps:
                    break
                p = L.clEnqueueMapBuffer(X.q, m, 1, mf, o, r.randint(1, size - o), 0, None, None, ct.byref(e))
                if e.value:
                    k.bad("map", "mapping with flags %d of a buffer with flags 0x%X: %d" % (mf, fl, e.value))
                    break
                if hostp and p != hostp + o:
                    k.bad("map host pointer", "mapping of offset %d of a USE_HOST_PTR buffer is not at that host address" % o)
                maps.append(p)
                k.q(G, [m], "CL_MEM_MAP_COUNT", exp=U32(len(maps)))
            while maps:
                L.clEnqueueUnmapMemObject(X.q, m, maps.pop(r.randrange(len(maps))), 0, None, None)
                L.clFinish(X.q)
                k.q(G, [m], "CL_MEM_MAP_COUNT", exp=U32(len(maps)))
        refs(k, G, r.choice(subs), "CL_MEM_REFERENCE_COUNT", "clRetainMemObject", "clReleaseMemObject") if subs else None
        k.q("clGetImageInfo", [m], "CL_IMAGE_WIDTH", codes={C["CL_INVALID_MEM_OBJECT"]})
        for s in subs:
            L.clReleaseMemObject(s)
        refs(k, G, m, "CL_MEM_REFERENCE_COUNT", "clRetainMemObject", "clReleaseMemObject")
        L.clReleaseMemObject(m)


def common(k, G, m, ty, fl, size, hostp, assoc, off, X, props):
    k.q(G, [m], "CL_MEM_TYPE", exp=U32(C[ty]))
    k.q(G, [m], "CL_MEM_FLAGS", size=8, ok=memflags(fl))
    if size is not None:
        k.q(G, [m], "CL_MEM_SIZE", exp=U64(size))
    k.q(G, [m], "CL_MEM_HOST_PTR", exp=PTR(hostp))
    k.q(G, [m], "CL_MEM_MAP_COUNT", exp=U32(0))
    k.q(G, [m], "CL_MEM_REFERENCE_COUNT", size=4, ok=atleast(1))
    k.q(G, [m], "CL_MEM_CONTEXT", exp=PTR(X.ctx))
    k.q(G, [m], "CL_MEM_ASSOCIATED_MEMOBJECT", exp=PTR(assoc))
    k.q(G, [m], "CL_MEM_OFFSET", exp=U64(off))
    k.q(G, [m], "CL_MEM_USES_SVM_POINTER", exp=U32(0))
    k.q(G, [m], "CL_MEM_PROPERTIES", exp=b"" if props is None else U64(0))
    k.unknown(G, [m], [n for n in C if n.startswith("CL_MEM_")])


ORD = {"CL_R": 1, "CL_A": 1, "CL_RG": 2, "CL_RA": 2, "CL_RGB": 3, "CL_RGBA": 4, "CL_BGRA": 4, "CL_ARGB": 4, "CL_INTENSITY": 1, "CL_LUMINANCE": 1, "CL_Rx": 1, "CL_RGx": 2}
TYP = {"CL_SNORM_INT8": 1, "CL_SNORM_INT16": 2, "CL_UNORM_INT8": 1, "CL_UNORM_INT16": 2, "CL_SIGNED_INT8": 1, "CL_SIGNED_INT16": 2, "CL_SIGNED_INT32": 4, "CL_UNSIGNED_INT8": 1, "CL_UNSIGNED_INT16": 2, "CL_UNSIGNED_INT32": 4, "CL_HALF_FLOAT": 2, "CL_FLOAT": 4}


def supported(w, ty):
    """formats the simulator reports for an image type, restricted to the ones with a known layout"""
    if not hasattr(w, "fmts"):
        w.fmts = {}
    if ty not in w.fmts:
        n = ct.c_uint32()
        w.L.clGetSupportedImageFormats(w.X.ctx, 1, C["CL_MEM_OBJECT_" + ty], 0, None, ct.byref(n))
        arr = (FMT * n.value)()
        w.L.clGetSupportedImageFormats(w.X.ctx, 1, C["CL_MEM_OBJECT_" + ty], n.value, arr, None)
        o, t = {C[x]: x for x in ORD}, {C[x]: x for x in TYP}
        w.fmts[ty] = [(o[f.order], t[f.type]) for f in arr if f.order in o and f.type in t]
    return w.fmts[ty]


def t_image(w, r, k, L, X):
    e = ct.c_int32()
    ty = r.choice(["IMAGE1D", "IMAGE2D", "IMAGE3D", "IMAGE1D_ARRAY", "IMAGE2D_ARRAY", "IMAGE1D_BUFFER"])
    order, typ = r.choice(supported(w, ty))
    px = ORD[order] * TYP[typ]
    wd, h, d, a = r.randint(1, 20), r.randint(1, 9), r.randint(1, 5), r.randint(1, 4)
    hp = r.choice([0, HP, CP, AP]) if ty != "IMAGE1D_BUFFER" else 0
    acc, ha = r.choice([0, 1, 2, 4]), r.choice([0, 0, 1 << 7, 1 << 8, 1 << 9])
    fl = acc | ha | hp
    rows = {"IMAGE2D": h, "IMAGE3D": h, "IMAGE2D_ARRAY": h}.get(ty, 1)
    lay = {"IMAGE3D": d, "IMAGE2D_ARRAY": a, "IMAGE1D_ARRAY": a}.get(ty, 0)
    rp = sp = 0
    if hp & (HP | CP):
        rp = r.choice([0, wd * px, (wd + r.randint(0, 4)) * px])
        if lay:
            sp = r.choice([0, (rp or wd * px) * (rows + r.randint(0, 2))])
    erp = rp or wd * px
    esp = (sp or erp * rows) if lay else 0
    total = esp * lay if lay else erp * rows
    host = (np.arange(total + 64) % 251).astype(np.uint8)
    off = r.randrange(4) * 16
    ptr = host.ctypes.data + off if hp & (HP | CP) else None
    buf = None
    bfl = 0
    if ty == "IMAGE1D_BUFFER":
        bfl = r.choice([0, 1]) if acc == 0 else r.choice([0, 1, acc])
        buf = L.clCreateBuffer(X.ctx, bfl, wd * px + r.choice([0, 16]), None, ct.byref(e))
    f = FMT(C[order], C[typ])
    junk = lambda x, used: x if used else r.choice([0, 1, 7])
    ds = DESC(C["CL_MEM_OBJECT_" + ty], wd, junk(h, rows > 1 or ty in ("IMAGE2D", "IMAGE3D", "IMAGE2D_ARRAY")), junk(d, ty == "IMAGE3D"), junk(a, "ARRAY" in ty), rp, sp, 0, 0, buf)
    props = r.choice([None, None, [0]])
    if props is None and r.random() < .7:
        m = L.clCreateImage(X.ctx, fl, ct.byref(f), ct.byref(ds), ptr, ct.byref(e))
    else:
        m = L.clCreateImageWithProperties(X.ctx, None if props is None else (ct.c_uint64 * 1)(0), fl, ct.byref(f), ct.byref(ds), ptr, ct.byref(e))
    what = "%s %s %s %s pitches %d/%d flags 0x%X" % (ty, order, typ, (wd, h, d, a), rp, sp, fl)
    if e.value:
        k.bad("clCreateImage", "%s: %d" % (what, e.value))
        return
    efl = fl
    if buf:
        efl = (acc or (bfl & 7)) | ha
    common(k, "clGetMemObjectInfo", m, "CL_MEM_OBJECT_" + ty, efl, None, ptr if hp & HP else None, buf, 0, X, props)
    if ty != "IMAGE1D_BUFFER":
        k.q("clGetMemObjectInfo", [m], "CL_MEM_SIZE", size=8, ok=lambda b: None if int.from_bytes(b, "little") >= wd * px * rows * max(1, lay) else "smaller than the image's pixels")
    G = "clGetImageInfo"
    k.q(G, [m], "CL_IMAGE_FORMAT", exp=U32(C[order]) + U32(C[typ]))
    k.q(G, [m], "CL_IMAGE_ELEMENT_SIZE", exp=U64(px))
    k.q(G, [m], "CL_IMAGE_WIDTH", exp=U64(wd))
    k.q(G, [m], "CL_IMAGE_HEIGHT", exp=U64(h if ty in ("IMAGE2D", "IMAGE3D", "IMAGE2D_ARRAY") else 0))
    k.q(G, [m], "CL_IMAGE_DEPTH", exp=U64(d if ty == "IMAGE3D" else 0))
    k.q(G, [m], "CL_IMAGE_ARRAY_SIZE", exp=U64(a if "ARRAY" in ty else 0))
    if hp & HP:
        k.q(G, [m], "CL_IMAGE_ROW_PITCH", exp=U64(erp))
        k.q(G, [m], "CL_IMAGE_SLICE_PITCH", exp=U64(esp))
    else:
        k.q(G, [m], "CL_IMAGE_ROW_PITCH", size=8, ok=lambda b: None if int.from_bytes(b, "little") >= wd * px and int.from_bytes(b, "little") % px == 0 else "not a row of %d pixels of %d bytes" % (wd, px))
        g = k.q(G, [m], "CL_IMAGE_ROW_PITCH", size=8)
        gr = int.from_bytes(g or b"", "little")
        k.q(G, [m], "CL_IMAGE_SLICE_PITCH", size=8, ok=lambda b: None if (int.from_bytes(b, "little") >= gr * rows if lay else int.from_bytes(b, "little") == 0) else "slices of %d rows with pitch %d" % (rows, gr))
    k.q(G, [m], "CL_IMAGE_BUFFER", exp=PTR(buf))
    k.q(G, [m], "CL_IMAGE_NUM_MIP_LEVELS", exp=U32(0))
    k.q(G, [m], "CL_IMAGE_NUM_SAMPLES", exp=U32(0))
    k.unknown(G, [m], [n for n in C if n.startswith("CL_IMAGE_")])
    # the pitches a mapping reports make the pixels accessible
    if not ha & (1 << 9 | 1 << 7) and not buf:
        mr, ms = ct.c_size_t(99), ct.c_size_t(99)
        reg = [wd, (lay if ty == "IMAGE1D_ARRAY" else rows), lay if ty in ("IMAGE3D", "IMAGE2D_ARRAY") else 1]
        p = L.clEnqueueMapImage(X.q, m, 1, 1, sizes([0, 0, 0]), sizes(reg), ct.byref(mr), ct.byref(ms), 0, None, None, ct.byref(e))
        if e.value:
            k.bad("map image", "%s: mapping returns %d" % (what, e.value))
        else:
            k.q("clGetMemObjectInfo", [m], "CL_MEM_MAP_COUNT", exp=U32(1))
            if hp & (HP | CP):
                for z in range(max(1, lay)):
                    for y in range(rows):
                        got = ct.string_at(p + z * ms.value + y * mr.value, wd * px)
                        o = off + z * esp + y * erp
                        if got != host[o:o + wd * px].tobytes():
                            k.bad("map image data", "%s: row %d of slice %d of the mapping (pitches %d/%d) is not the row of the host data" % (what, y, z, mr.value, ms.value))
                            break
                    else:
                        continue
                    break
            L.clEnqueueUnmapMemObject(X.q, m, p, 0, None, None)
            L.clFinish(X.q)
            k.q("clGetMemObjectInfo", [m], "CL_MEM_MAP_COUNT", exp=U32(0))
    refs(k, "clGetMemObjectInfo", m, "CL_MEM_REFERENCE_COUNT", "clRetainMemObject", "clReleaseMemObject")
    L.clReleaseMemObject(m)
    if buf:
        L.clReleaseMemObject(buf)


def t_sampler(w, r, k, L, X):
    e = ct.c_int32()
    G = "clGetSamplerInfo"
    AM = [C["CL_ADDRESS_" + x] for x in ("NONE", "CLAMP_TO_EDGE", "CLAMP", "REPEAT", "MIRRORED_REPEAT")]
    for _ in range(3):
        nc, am, fm = r.choice([0, 1]), r.choice(AM), C[r.choice(["CL_FILTER_NEAREST", "CL_FILTER_LINEAR"])]
        want = b""
        if r.random() < .5:
            s = L.clCreateSampler(X.ctx, nc, am, fm, ct.byref(e))
        else:
            it = [(C["CL_SAMPLER_NORMALIZED_COORDS"], nc), (C["CL_SAMPLER_ADDRESSING_MODE"], am), (C["CL_SAMPLER_FILTER_MODE"], fm)]
            it = r.sample(it, r.randint(0, 3))
            ks = [x[0] for x in it]
            nc = nc if C["CL_SAMPLER_NORMALIZED_COORDS"] in ks else 1
            am = am if C["CL_SAMPLER_ADDRESSING_MODE"] in ks else C["CL_ADDRESS_CLAMP"]
            fm = fm if C["CL_SAMPLER_FILTER_MODE"] in ks else C["CL_FILTER_NEAREST"]
            arr = [y for x in it for y in x] + [0]
            want = b"".join(U64(x) for x in arr)
            if not it and r.random() < .5:
                arr, want = None, b""
            s = L.clCreateSamplerWithProperties(X.ctx, None if arr is None else (ct.c_uint64 * len(arr))(*arr), ct.byref(e))
        if e.value:
            k.bad("create sampler", "sampler (%d, 0x%X, 0x%X): %d" % (nc, am, fm, e.value))
            return
        k.q(G, [s], "CL_SAMPLER_CONTEXT", exp=PTR(X.ctx))
        k.q(G, [s], "CL_SAMPLER_NORMALIZED_COORDS", exp=U32(nc))
        k.q(G, [s], "CL_SAMPLER_ADDRESSING_MODE", exp=U32(am))
        k.q(G, [s], "CL_SAMPLER_FILTER_MODE", exp=U32(fm))
        k.q(G, [s], "CL_SAMPLER_PROPERTIES", exp=want)
        k.q(G, [s], "CL_SAMPLER_REFERENCE_COUNT", exp=U32(1))
        refs(k, G, s, "CL_SAMPLER_REFERENCE_COUNT", "clRetainSampler", "clReleaseSampler")
        k.unknown(G, [s], [n for n in C if n.startswith("CL_SAMPLER_")])
        L.clReleaseSampler(s)


# ------------------------------------------------------------------ programs
def t_program(w, r, k, L, X):
    e = ct.c_int32()
    G, B = "clGetProgramInfo", "clGetProgramBuildInfo"
    pool = ["f", "ff", "f1", "f12", "g_", "kernel_x", "long_name_%d" % r.randrange(1000), "a", "ab", "zz9"]
    kn = r.sample(pool, r.randint(0, 5))
    parts = ["kernel void %s(global int *p) { p[0] = %d; }\n" % (n, r.randrange(99)) for n in kn] + ["int help%d(int x) { return x + 1; }\n" % r.randrange(9), "// comment ; kernel void no(void) {}\n", "constant int tab[3] = {1,2,3};\n"]
    r.shuffle(parts)
    broken = r.random() < .2
    if broken:
        parts.insert(r.randrange(len(parts)), "kernel void broken(global int *p) { undefined_function_%d(p); ; \n" % r.randrange(9) + r.choice(["", "}"]))
    src = "".join(parts)
    # split the text at random positions, some strings with explicit lengths
    cut = sorted(r.randrange(len(src) + 1) for _ in range(r.randint(0, 4)))
    segs = [src[i:j] for i, j in zip([0] + cut, cut + [len(src)])]
    segs = [s for s in segs if s] or [src]
    bufs, lens = [], []
    for s in segs:
        if r.random() < .5:
            bufs.append(s.encode() + b"@ junk \x01")
            lens.append(len(s))
        else:
            bufs.append(s.encode())
            lens.append(0)
    arr = (ct.c_char_p * len(bufs))(*bufs)
    uselens = any(lens)
    p = L.clCreateProgramWithSource(X.ctx, len(bufs), arr, sizes(lens) if uselens else None, ct.byref(e))
    if e.value:
        k.bad("create program", "program of %d strings: %d" % (len(bufs), e.value))
        return
    PN = ["CL_PROGRAM_" + n for n in ("REFERENCE_COUNT", "CONTEXT", "NUM_DEVICES", "DEVICES", "SOURCE", "BINARY_SIZES", "BINARIES", "NUM_KERNELS", "KERNEL_NAMES", "IL", "SCOPE_GLOBAL_CTORS_PRESENT", "SCOPE_GLOBAL_DTORS_PRESENT")]
    BN = ["CL_PROGRAM_" + n for n in ("BUILD_STATUS", "BUILD_OPTIONS", "BUILD_LOG", "BINARY_TYPE", "BUILD_GLOBAL_VARIABLE_TOTAL_SIZE")]
    NOEXE = {C["CL_INVALID_PROGRAM_EXECUTABLE"]}

    def fixed(p, source):
        k.q(G, [p], "CL_PROGRAM_CONTEXT", exp=PTR(X.ctx))
        k.q(G, [p], "CL_PROGRAM_NUM_DEVICES", exp=U32(1))
        k.q(G, [p], "CL_PROGRAM_DEVICES", exp=PTR(L.device))
        if source is not None:
            k.q(G, [p], "CL_PROGRAM_SOURCE", exp=STR(source))
        k.q(G, [p], "CL_PROGRAM_IL", exp=b"")
        k.q(G, [p], "CL_PROGRAM_SCOPE_GLOBAL_CTORS_PRESENT", exp=U32(0))
        k.q(G, [p], "CL_PROGRAM_SCOPE_GLOBAL_DTORS_PRESENT", exp=U32(0))
        k.q(G, [p], "CL_PROGRAM_REFERENCE_COUNT", exp=U32(1))
        k.unknown(G, [p], PN)
        k.unknown(B, [p, L.device], BN)

    def state(p, status, opts, btype, kernels, log=None):
        D = [p, L.device]
        k.q(B, D, "CL_PROGRAM_BUILD_STATUS", exp=I32(status))
        k.q(B, D, "CL_PROGRAM_BUILD_OPTIONS", exp=STR(opts))
        k.q(B, D, "CL_PROGRAM_BUILD_LOG", ok=lambda b: isstr(b) or (log and log(b.decode(errors="replace"))))
        k.q(B, D, "CL_PROGRAM_BINARY_TYPE", exp=U32(btype))
        k.q(B, D, "CL_PROGRAM_BUILD_GLOBAL_VARIABLE_TOTAL_SIZE", size=8)
        if kernels is None:
            k.q(G, [p], "CL_PROGRAM_NUM_KERNELS", codes=NOEXE)
            k.q(G, [p], "CL_PROGRAM_KERNEL_NAMES", codes=NOEXE)
        else:
            k.q(G, [p], "CL_PROGRAM_NUM_KERNELS", exp=U64(len(kernels)))
            k.q(G, [p], "CL_PROGRAM_KERNEL_NAMES", ok=lambda b: isstr(b) or (None if sorted(x for x in b[:-1].decode().split(";") if x) == sorted(kernels) else "the kernels are %s" % sorted(kernels)))
            n = ct.c_uint32()
            if L.clCreateKernelsInProgram(p, 0, None, ct.byref(n)) or n.value != len(kernels):
                k.bad("clCreateKernelsInProgram", "%d kernels instead of %d" % (n.value, len(kernels)))

    fixed(p, src)
    state(p, C["CL_BUILD_NONE"], "", 0, None)
    opts = " ".join(r.sample(["-DX=1", "-D Y=2", "-cl-std=CL1.2", "-cl-mad-enable", "-w", "-cl-fast-relaxed-math", "-I /tmp", "-cl-opt-disable"], r.randint(0, 3)))
    opts = r.choice(["", " "]) * bool(opts) + opts
    how = r.choice(["build", "build", "compile"])
    devs = r.choice([(0, None), (1, ptrs([L.device]))])
    if how == "build":
        code = L.clBuildProgram(p, devs[0], devs[1], ct.c_char_p(opts.encode()) if opts or r.random() < .5 else None, None, None)
        fail = C["CL_BUILD_PROGRAM_FAILURE"]
    else:
        code = L.clCompileProgram(p, devs[0], devs[1], ct.c_char_p(opts.encode()), 0, None, None, None, None)
        fail = C["CL_COMPILE_PROGRAM_FAILURE"]
    if code != (fail if broken else 0):
        k.bad("build code", "%s of %s program returns %d; log: %s" % (how, "an invalid" if broken else "a valid", code, X.buildlog(p)[:200]))
        return
    fixed(p, src)
    if broken:
        state(p, C["CL_BUILD_ERROR"], opts, 0, None, lambda b: None if "error" in b else "no error in the log")
    else:
        ty = C["CL_PROGRAM_BINARY_TYPE_EXECUTABLE" if how == "build" else "CL_PROGRAM_BINARY_TYPE_COMPILED_OBJECT"]
        D = [p, L.device]
        if how == "build":
            state(p, C["CL_BUILD_SUCCESS"], opts, ty, kn)
        else:
            k.q(B, D, "CL_PROGRAM_BUILD_STATUS", exp=I32(C["CL_BUILD_SUCCESS"]))
            k.q(B, D, "CL_PROGRAM_BUILD_OPTIONS", exp=STR(opts))
            k.q(B, D, "CL_PROGRAM_BINARY_TYPE", exp=U32(ty))
        # binaries: the reported number of bytes is written, no more
        bs = struct.unpack("<Q", k.q(G, [p], "CL_PROGRAM_BINARY_SIZES", size=8))[0]
        if not bs:
            k.bad("binary size", "successfully built program has a binary of 0 bytes")
        store = np.full(bs + 128, 0xA5, np.uint8)
        ptr = ct.c_void_p(store.ctypes.data + 64)
        n = ct.c_size_t()
        code = L.clGetProgramInfo(p, C["CL_PROGRAM_BINARIES"], 8, ct.byref(ptr), ct.byref(n))
        if code or n.value != 8:
            k.bad("binaries", "CL_PROGRAM_BINARIES returns %d, size %d" % (code, n.value))
        if (store[:64] != 0xA5).any() or (store[64 + bs:] != 0xA5).any():
            k.bad("binaries overrun", "CL_PROGRAM_BINARIES writes more than the %d bytes reported" % bs)
        if (store[64:64 + bs] == 0xA5).all():
            k.bad("binaries empty", "CL_PROGRAM_BINARIES writes nothing")
        nul = ct.c_void_p(None)
        if L.clGetProgramInfo(p, C["CL_PROGRAM_BINARIES"], 8, ct.byref(nul), None):
            k.bad("binaries null", "CL_PROGRAM_BINARIES with a NULL entry fails")
        if L.clGetProgramInfo(p, C["CL_PROGRAM_BINARIES"], 7, ct.byref(ptr), None) != C["CL_INVALID_VALUE"]:
            k.bad("binaries small", "CL_PROGRAM_BINARIES accepts 7 bytes")
        # reload
        st = ct.c_int32(99)
        bp = L.clCreateProgramWithBinary(X.ctx, 1, ptrs([L.device]), sizes([bs]), ptrs([store.ctypes.data + 64]), ct.byref(st), ct.byref(e))
        if e.value or st.value:
            k.bad("load binary", "own binary is rejected: %d, status %d" % (e.value, st.value))
        else:
            fixed(bp, None)
            k.q(B, [bp, L.device], "CL_PROGRAM_BINARY_TYPE", exp=U32(ty))
            if how == "build":
                code = L.clBuildProgram(bp, 0, None, None, None, None)
                if code:
                    k.bad("build binary", "program from binary does not build: %d" % code)
                else:
                    state(bp, C["CL_BUILD_SUCCESS"], "", ty, kn)
            L.clReleaseProgram(bp)
        if how == "compile":
            lp = L.clLinkProgram(X.ctx, 0, None, b"" if r.random() < .5 else None, 1, ptrs([p]), None, None, ct.byref(e))
            if e.value:
                k.bad("link", "linking one compiled program: %d" % e.value)
            else:
                state(lp, C["CL_BUILD_SUCCESS"], "", C["CL_PROGRAM_BINARY_TYPE_EXECUTABLE"], kn)
                fixed(lp, None)
                L.clReleaseProgram(lp)
            lp = L.clLinkProgram(X.ctx, 0, None, b"-create-library", 1, ptrs([p]), None, None, ct.byref(e))
            if e.value:
                k.bad("link library", "linking a library: %d" % e.value)
            else:
                k.q(B, [lp, L.device], "CL_PROGRAM_BINARY_TYPE", exp=U32(C["CL_PROGRAM_BINARY_TYPE_LIBRARY"]))
                k.q(B, [lp, L.device], "CL_PROGRAM_BUILD_OPTIONS", exp=STR("-create-library"))
                L.clReleaseProgram(lp)
    k.q(B, [p, None], "CL_PROGRAM_BUILD_STATUS", codes={C["CL_INVALID_DEVICE"]})
    # a kernel holds the program
    if not broken and how == "build" and kn:
        kk = L.clCreateKernel(p, ct.c_char_p(kn[0].encode()), ct.byref(e))
        k.q("clGetKernelInfo", [kk], "CL_KERNEL_PROGRAM", exp=PTR(p))
        L.clReleaseKernel(kk)
    refs(k, G, p, "CL_PROGRAM_REFERENCE_COUNT", "clRetainProgram", "clReleaseProgram")
    L.clReleaseProgram(p)


# ------------------------------------------------------------------ kernels
SC = {"char": "char", "uchar": "uchar", "unsigned char": "uchar", "short": "short", "ushort": "ushort", "int": "int", "uint": "uint", "unsigned int": "uint", "unsigned": "uint", "long": "long", "ulong": "ulong",
      "unsigned long": "ulong", "float": "float", "double": "double", "float4": "float4", "int2": "int2", "uchar16": "uchar16", "short3": "short3", "long8": "long8", "double2": "double2", "uint4": "uint4"}
SZ = {"char": 1, "uchar": 1, "short": 2, "ushort": 2, "int": 4, "uint": 4, "long": 8, "ulong": 8, "float": 4, "double": 8, "float4": 16, "int2": 8, "uchar16": 16, "short3": 8, "long8": 64, "double2": 16, "uint4": 16}
Q = {"CONST": 1, "RESTRICT": 2, "VOLATILE": 4}
AS = {"global": "GLOBAL", "constant": "CONSTANT", "local": "LOCAL", "private": "PRIVATE"}


def t_kernel(w, r, k, L, X):
    e = ct.c_int32()
    names_ = r.sample(["k", "k1", "k12", "kk", "kernel_a", "kernel_ab", "x"], r.randint(1, 4))
    pre = "#pragma OPENCL EXTENSION cl_khr_fp64 : enable\ntypedef float4 myvec;\ntypedef unsigned int myuint;\ntypedef struct { int a; float b; char c; } S1;\nstruct image_s { long l; int i; };\nenum en { EA, EB };\ntypedef sampler_t mysamp;\n"
    text, spec = pre, {}
    for n in names_:
        args = []
        for i in range(r.randint(0, 7)):
            an = r.choice(["a%d" % i, "arg_%d" % i, "p%d" % i, "image%d" % i])
            kind = r.choice(["scalar", "scalar", "ptr", "ptr", "ptr", "struct", "image", "sampler", "typedef"])
            if kind == "scalar":
                t = r.choice(list(SC))
                c_ = r.choice(["", "", "const "])
                args.append((c_ + t + " " + an, SC[t], "PRIVATE", "NONE", None, an, SZ[SC[t]], "val"))
            elif kind == "typedef":
                t, s = r.choice([("myvec", 16), ("myuint", 4), ("size_t", None), ("enum en", 4)])
                if s is None:
                    t, s = "uint", 4
                args.append((t + " " + an, t, "PRIVATE", "NONE", None, an, s, "val"))
            elif kind == "struct":
                t, s = r.choice([("S1", 12), ("struct image_s", 16)])
                args.append((t + " " + an, t, "PRIVATE", "NONE", None, an, s, "val"))
            elif kind == "image":
                t = r.choice(["image1d_t", "image2d_t", "image3d_t", "image1d_array_t", "image2d_array_t", "image1d_buffer_t"])
                q = r.choice(["", "read_only ", "write_only ", "__read_only "])
                if t == "image3d_t":
                    q = "read_only "
                args.append((q + t + " " + an, t, "GLOBAL", "WRITE_ONLY" if "write" in q else "READ_ONLY", 0, an, 8, "img"))
            elif kind == "sampler":
                args.append(("sampler_t " + an, "sampler_t", "PRIVATE", "NONE", 0, an, 8, "samp"))
            else:
                sp = r.choice(["global", "global", "constant", "local"])
                t, tn = r.choice(list(SC.items()) + [("S1", "S1"), ("struct image_s", "struct image_s"), ("myvec", "myvec"), ("void", "void")])
                if t == "void" and sp != "global":
                    t = tn = "int"
                quals = r.sample(["const", "volatile"], r.choice([0, 0, 1, 2]))
                rs = r.random() < .3
                tq = sum(Q[x.upper()] for x in quals) | (Q["RESTRICT"] if rs else 0)
                if sp == "constant":
                    tq |= Q["CONST"]
                us = r.choice(["", "__"])
                args.append(("%s%s %s %s *%s%s" % (us, sp, " ".join(quals), t, "restrict " if rs else "", an), tn + "*", AS[sp], "NONE", tq, an, 8, sp))
        loc, body, attr, wg, locsz = [], [], [], (0, 0, 0), 0
        outp = next((a for a in args if a[7] == "global" and a[1] == "int*" and not a[4] & 1), None)
        for j in range(r.randint(0, 2)):
            ln = r.choice([4, 16, 33, 100])
            lt, ls = r.choice([("int", 4), ("char", 1), ("long", 8)])
            locsz += ln * ls
            loc.append("local %s l%d[%d];" % (lt, j, ln))
            body.append("l%d[get_local_id(0) %% %d] = %d + (%s)get_global_id(0); barrier(CLK_LOCAL_MEM_FENCE); vout[get_global_id(0)] += l%d[(get_local_id(0) + 1) %% %d];" % (j, ln, j, lt, j, ln))
        args.append(("global volatile int *vout", "int*", "GLOBAL", "NONE", 4, "vout", 8, "global"))
        if r.random() < .4:
            wg = (r.choice([1, 2, 8]), r.choice([1, 3]), r.choice([1, 2]))
            attr.append("reqd_work_group_size(%d,%d,%d)" % wg)
        if r.random() < .3:
            attr.append("work_group_size_hint(%d,%d,%d)" % (r.randint(1, 64), r.randint(1, 4), r.randint(1, 2)))
        if r.random() < .3:
            attr.append("vec_type_hint(%s)" % r.choice(["int", "uint", "float4", "char16", "uchar", "long2", "ulong", "short3", "ushort8", "double2", "float"]))
        style = r.choice(["kernel", "__kernel"])
        at = "".join("__attribute__((%s)) " % a for a in attr)
        text += "%s %svoid %s(%s) { %s %s vout[0] = 1; }\n" % (style, at, n, ", ".join(a[0] for a in args), " ".join(loc), " ".join(body))
        spec[n] = (args, attr, wg, locsz)
    opts = r.choice(["", "-cl-kernel-arg-info", "-cl-std=CL1.2 -cl-kernel-arg-info", "-cl-opt-disable", "-w"])
    try:
        p = X.program(text, opts)
    except CLError as x:
        raise RuntimeError("generated program does not build: %s\n%s" % (x, text))
    if r.random() < .25:  # the same questions about a reloaded binary
        bs = struct.unpack("<Q", k.q("clGetProgramInfo", [p], "CL_PROGRAM_BINARY_SIZES", size=8))[0]
        st = ct.create_string_buffer(bs)
        L.clGetProgramInfo(p, C["CL_PROGRAM_BINARIES"], 8, ct.byref(ct.c_void_p(ct.addressof(st))), None)
        p2 = L.clCreateProgramWithBinary(X.ctx, 1, ptrs([L.device]), sizes([bs]), ptrs([ct.addressof(st)]), None, ct.byref(e))
        L.clBuildProgram(p2, 0, None, None, None, None)
        X.objs.append(("clReleaseProgram", p2))
        p = p2
    G, A, WG = "clGetKernelInfo", "clGetKernelArgInfo", "clGetKernelWorkGroupInfo"
    for n in names_:
        args, attr, wg, locsz = spec[n]
        kk = L.clCreateKernel(p, ct.c_char_p(n.encode()), ct.byref(e))
        if e.value:
            k.bad("create kernel", "kernel %s: %d" % (n, e.value))
            continue
        clone = None
        k.q(G, [kk], "CL_KERNEL_FUNCTION_NAME", exp=STR(n))
        k.q(G, [kk], "CL_KERNEL_NUM_ARGS", exp=U32(len(args)))
        k.q(G, [kk], "CL_KERNEL_REFERENCE_COUNT", exp=U32(1))
        k.q(G, [kk], "CL_KERNEL_CONTEXT", exp=PTR(X.ctx))
        k.q(G, [kk], "CL_KERNEL_PROGRAM", exp=PTR(p))
        k.q(G, [kk], "CL_KERNEL_ATTRIBUTES", ok=lambda b: isstr(b) or (None if sorted(b[:-1].decode().split()) == sorted(attr) else "the attributes are %s" % attr))
        k.unknown(G, [kk], ["CL_KERNEL_" + x for x in ("FUNCTION_NAME", "NUM_ARGS", "REFERENCE_COUNT", "CONTEXT", "PROGRAM", "ATTRIBUTES")])
        for i, (_, tn, sp, acc, tq, an, sz, kd) in enumerate(args):
            what = "CL_KERNEL_ARG_"
            k.q(A, [kk, i], what + "ADDRESS_QUALIFIER", exp=U32(C["CL_KERNEL_ARG_ADDRESS_" + sp]))
            k.q(A, [kk, i], what + "ACCESS_QUALIFIER", exp=U32(C["CL_KERNEL_ARG_ACCESS_" + acc]))
            k.q(A, [kk, i], what + "TYPE_NAME", exp=STR(tn))
            k.q(A, [kk, i], what + "NAME", exp=STR(an))
            k.q(A, [kk, i], what + "TYPE_QUALIFIER", exp=U64(tq or 0))
        k.q(A, [kk, len(args)], "CL_KERNEL_ARG_NAME", codes={C["CL_INVALID_ARG_INDEX"]})
        k.unknown(A, [kk, r.randrange(len(args))], ["CL_KERNEL_ARG_" + x for x in ("ADDRESS_QUALIFIER", "ACCESS_QUALIFIER", "TYPE_NAME", "NAME", "TYPE_QUALIFIER")])
        for dev in (L.device,):
            D = [kk, dev]
            k.q(WG, D, "CL_KERNEL_COMPILE_WORK_GROUP_SIZE", exp=b"".join(U64(x) for x in wg))
            k.q(WG, D, "CL_KERNEL_WORK_GROUP_SIZE", size=8, ok=atleast(1))
            k.q(WG, D, "CL_KERNEL_PREFERRED_WORK_GROUP_SIZE_MULTIPLE", size=8, ok=atleast(1))
            k.q(WG, D, "CL_KERNEL_PRIVATE_MEM_SIZE", size=8)
            k.q(WG, D, "CL_KERNEL_GLOBAL_WORK_SIZE", codes={C["CL_INVALID_VALUE"]})
            k.q(WG, D, "CL_KERNEL_LOCAL_MEM_SIZE", exp=U64(locsz))
            dyn = {}
            for i, a in enumerate(args):
                if a[7] == "local":
                    for _ in range(r.randint(0, 2)):
                        dyn[i] = r.choice([4, 64, 100, 4096])
                        L.clSetKernelArg(kk, i, dyn[i], None)
                        k.q(WG, D, "CL_KERNEL_LOCAL_MEM_SIZE", exp=U64(locsz + sum(dyn.values())))
            k.unknown(WG, D, ["CL_KERNEL_" + x for x in ("COMPILE_WORK_GROUP_SIZE", "WORK_GROUP_SIZE", "PREFERRED_WORK_GROUP_SIZE_MULTIPLE", "PRIVATE_MEM_SIZE", "GLOBAL_WORK_SIZE", "LOCAL_MEM_SIZE")])
            k.q(WG, [kk, None], "CL_KERNEL_WORK_GROUP_SIZE", size=8) if False else None
            if dyn or r.random() < .3:
                clone = L.clCloneKernel(kk, ct.byref(e))
                if e.value == 0:
                    k.q(WG, [clone, dev], "CL_KERNEL_LOCAL_MEM_SIZE", exp=U64(locsz + sum(dyn.values())))
                    k.q(G, [clone], "CL_KERNEL_FUNCTION_NAME", exp=STR(n))
                    k.q(G, [clone], "CL_KERNEL_REFERENCE_COUNT", exp=U32(1))
                    L.clReleaseKernel(clone)
        # argument sizes as the kernel declares them
        for i, a in enumerate(args):
            if a[7] == "val":
                junk = ct.create_string_buffer(256)
                if L.clSetKernelArg(kk, i, a[6], junk):
                    k.bad("arg size", "argument %s of %s does not accept %d bytes" % (a[0], n, a[6]))
        refs(k, G, kk, "CL_KERNEL_REFERENCE_COUNT", "clRetainKernel", "clReleaseKernel")
        L.clReleaseKernel(kk)
    for o in X.objs:
        if o[0] == "clReleaseProgram":
            L.clReleaseProgram(o[1])
    X.objs = [o for o in X.objs if o[0] != "clReleaseProgram"]


# ------------------------------------------------------------------ events
def t_event(w, r, k, L, X):
    e = ct.c_int32()
    prof = r.choice([0, 2])
    q = L.clCreateCommandQueue(X.ctx, L.device, prof | r.choice([0, 1]), ct.byref(e))
    a, b = X.buffer(size=1024), X.buffer(size=1024)
    host = np.zeros(4096, np.uint8)
    hp = host.ctypes.data
    fm = FMT(C["CL_RGBA"], C["CL_UNSIGNED_INT8"])
    ds = DESC(C["CL_MEM_OBJECT_IMAGE2D"], 8, 4, 1, 1, 0, 0, 0, 0, None)
    im, im2 = (L.clCreateImage(X.ctx, 0, ct.byref(fm), ct.byref(ds), None, ct.byref(e)) for _ in range(2))
    prog = X.program("kernel void f(global int *p) { p[get_global_id(0)] += 1; }")
    f = X.kernel(prog, "f")
    X.args(f, a)
    O, R8 = sizes([0, 0, 0]), sizes([8, 4, 1])
    s1 = sizes([4])
    NK = ct.CFUNCTYPE(None, ct.c_void_p)
    nk = NK(lambda p: None)
    pat = (ct.c_uint32 * 4)(1, 2, 3, 4)
    mp = []

    def mapb(*ev):
        p = L.clEnqueueMapBuffer(q, a, 0, 1, 0, 64, *ev, ct.byref(e))
        mp.append((a, p))
        return e.value

    def mapi(*ev):
        x, y = ct.c_size_t(), ct.c_size_t()
        p = L.clEnqueueMapImage(q, im, 0, 1, O, R8, ct.byref(x), ct.byref(y), *ev, ct.byref(e))
        mp.append((im, p))
        return e.value

    cmds = [("NDRANGE_KERNEL", lambda *ev: L.clEnqueueNDRangeKernel(q, f, 1, None, s1, None, *ev)), ("TASK", lambda *ev: L.clEnqueueTask(q, f, *ev)),
            ("NATIVE_KERNEL", lambda *ev: L.clEnqueueNativeKernel(q, nk, None, 0, 0, None, None, *ev)),
            ("READ_BUFFER", lambda *ev: L.clEnqueueReadBuffer(q, a, 0, 0, 64, hp, *ev)), ("WRITE_BUFFER", lambda *ev: L.clEnqueueWriteBuffer(q, a, 0, 0, 64, hp, *ev)),
            ("COPY_BUFFER", lambda *ev: L.clEnqueueCopyBuffer(q, a, b, 0, 0, 64, *ev)), ("FILL_BUFFER", lambda *ev: L.clEnqueueFillBuffer(q, a, pat, 4, 0, 64, *ev)),
            ("READ_BUFFER_RECT", lambda *ev: L.clEnqueueReadBufferRect(q, a, 0, O, O, R8, 0, 0, 0, 0, hp, *ev)), ("WRITE_BUFFER_RECT", lambda *ev: L.clEnqueueWriteBufferRect(q, a, 0, O, O, R8, 0, 0, 0, 0, hp, *ev)),
            ("COPY_BUFFER_RECT", lambda *ev: L.clEnqueueCopyBufferRect(q, a, b, O, O, R8, 0, 0, 0, 0, *ev)),
            ("READ_IMAGE", lambda *ev: L.clEnqueueReadImage(q, im, 0, O, R8, 0, 0, hp, *ev)), ("WRITE_IMAGE", lambda *ev: L.clEnqueueWriteImage(q, im, 0, O, R8, 0, 0, hp, *ev)),
            ("COPY_IMAGE", lambda *ev: L.clEnqueueCopyImage(q, im, im2, O, O, R8, *ev)), ("COPY_IMAGE_TO_BUFFER", lambda *ev: L.clEnqueueCopyImageToBuffer(q, im, a, O, R8, 0, *ev)),
            ("COPY_BUFFER_TO_IMAGE", lambda *ev: L.clEnqueueCopyBufferToImage(q, a, im, 0, O, R8, *ev)), ("FILL_IMAGE", lambda *ev: L.clEnqueueFillImage(q, im, pat, O, R8, *ev)),
            ("MAP_BUFFER", mapb), ("MAP_IMAGE", mapi), ("UNMAP_MEM_OBJECT", None), ("MIGRATE_MEM_OBJECTS", lambda *ev: L.clEnqueueMigrateMemObjects(q, 1, ptrs([a]), 0, *ev)),
            ("MARKER", lambda *ev: L.clEnqueueMarkerWithWaitList(q, *ev)), ("BARRIER", lambda *ev: L.clEnqueueBarrierWithWaitList(q, *ev))]
    G, PG = "clGetEventInfo", "clGetEventProfilingInfo"
    TIMES = ["QUEUED", "SUBMIT", "START", "END", "COMPLETE"]
    for name, fn in r.sample(cmds, 9):
        if fn is None:
            if not mp:
                continue
            m_, p_ = mp.pop()
            fn = lambda *ev: L.clEnqueueUnmapMemObject(q, m_, p_, *ev)
        gate = None
        if r.random() < .6:
            gate = L.clCreateUserEvent(X.ctx, ct.byref(e))
            k.q(G, [gate], "CL_EVENT_COMMAND_QUEUE", exp=PTR(None))
            k.q(G, [gate], "CL_EVENT_CONTEXT", exp=PTR(X.ctx))
            k.q(G, [gate], "CL_EVENT_COMMAND_TYPE", exp=U32(C["CL_COMMAND_USER"]))
            k.q(G, [gate], "CL_EVENT_COMMAND_EXECUTION_STATUS", exp=I32(C["CL_SUBMITTED"]))
            k.q(PG, [gate], "CL_PROFILING_COMMAND_END", codes={C["CL_PROFILING_INFO_NOT_AVAILABLE"]})
        ev = ct.c_void_p()
        code = fn(1 if gate else 0, ptrs([gate]) if gate else None, ct.byref(ev))
        if code:
            k.bad("enqueue", "%s returns %d" % (name, code))
            continue
        ev = ev.value
        k.q(G, [ev], "CL_EVENT_COMMAND_QUEUE", exp=PTR(q))
        k.q(G, [ev], "CL_EVENT_CONTEXT", exp=PTR(X.ctx))
        k.q(G, [ev], "CL_EVENT_COMMAND_TYPE", exp=U32(C["CL_COMMAND_" + name]))
        k.q(G, [ev], "CL_EVENT_REFERENCE_COUNT", size=4, ok=atleast(1))
        if gate:
            if r.random() < .5:
                L.clFlush(q)
            k.q(G, [ev], "CL_EVENT_COMMAND_EXECUTION_STATUS", size=4, ok=oneof(C["CL_QUEUED"], C["CL_SUBMITTED"]))
            for t in r.sample(TIMES, 2):
                k.q(PG, [ev], "CL_PROFILING_COMMAND_" + t, codes={C["CL_PROFILING_INFO_NOT_AVAILABLE"]})
            L.clSetUserEventStatus(gate, 0)
            k.q(G, [gate], "CL_EVENT_COMMAND_EXECUTION_STATUS", exp=I32(0))
        if r.random() < .5:
            L.clFinish(q)
        else:
            L.clWaitForEvents(1, ptrs([ev]))
        k.q(G, [ev], "CL_EVENT_COMMAND_EXECUTION_STATUS", exp=I32(0))
        refs(k, G, ev, "CL_EVENT_REFERENCE_COUNT", "clRetainEvent", "clReleaseEvent", base=base(k, ev))
        if prof:
            ts = [struct.unpack("<Q", k.q(PG, [ev], "CL_PROFILING_COMMAND_" + t, size=8) or bytes(8))[0] for t in TIMES]
            if ts != sorted(ts) or ts[0] == 0:
                k.bad("profiling order", "%s: times queued, submitted, started, ended, complete are %s" % (name, ts))
            k.unknown(PG, [ev], ["CL_PROFILING_COMMAND_" + t for t in TIMES])
        else:
            for t in r.sample(TIMES, 2):
                k.q(PG, [ev], "CL_PROFILING_COMMAND_" + t, codes={C["CL_PROFILING_INFO_NOT_AVAILABLE"]})
        k.unknown(G, [ev], ["CL_EVENT_" + x for x in ("COMMAND_QUEUE", "COMMAND_TYPE", "REFERENCE_COUNT", "COMMAND_EXECUTION_STATUS", "CONTEXT")])
        L.clReleaseEvent(ev)
        if gate:
            L.clReleaseEvent(gate)
    # failed user event
    u = L.clCreateUserEvent(X.ctx, ct.byref(e))
    st = r.choice([-1, -7, -9999])
    ev = ct.c_void_p()
    L.clEnqueueMarkerWithWaitList(q, 1, ptrs([u]), ct.byref(ev))
    L.clSetUserEventStatus(u, st)
    k.q(G, [u], "CL_EVENT_COMMAND_EXECUTION_STATUS", exp=I32(st))
    L.clFinish(q)
    k.q(G, [ev], "CL_EVENT_COMMAND_EXECUTION_STATUS", size=4, ok=lambda b: None if struct.unpack("<i", b)[0] < 0 else "a command that waited for a failed event did not fail")
    L.clReleaseEvent(ev)
    L.clReleaseEvent(u)
    L.clFinish(q)
    for m_, p_ in mp:
        L.clEnqueueUnmapMemObject(q, m_, p_, 0, None, None)
    L.clFinish(q)
    L.clReleaseCommandQueue(q)
    for m in (im, im2):
        L.clReleaseMemObject(m)
    for o in reversed(X.objs):
        getattr(L, o[0])(o[1])
    X.objs = []


def base(k, ev):
    b = k.q("clGetEventInfo", [ev], "CL_EVENT_REFERENCE_COUNT", size=4)
    return struct.unpack("<I", b)[0]
