"""ctypes binding of the simulator's OpenCL runtime plus the monitor plugin.

Prototypes and constants are read from the OpenCL headers shipped with /repo."""
import ctypes as ct, os, re, struct, sys
import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
_INT = {"cl_int": ct.c_int32, "cl_uint": ct.c_uint32, "size_t": ct.c_size_t, "cl_ulong": ct.c_uint64,
        "cl_long": ct.c_int64, "int": ct.c_int, "cl_bool": ct.c_uint32}
_BITS64 = ("cl_bitfield", "cl_device_type", "cl_mem_flags", "cl_map_flags", "cl_command_queue_properties",
           "cl_mem_migration_flags", "cl_svm_mem_flags", "cl_device_affinity_domain", "cl_sampler_properties")
_UINT = ("cl_mem_object_type", "cl_addressing_mode", "cl_filter_mode", "cl_buffer_create_type", "cl_platform_info",
         "cl_device_info", "cl_context_info", "cl_command_queue_info", "cl_mem_info", "cl_image_info",
         "cl_sampler_info", "cl_program_info", "cl_program_build_info", "cl_kernel_info", "cl_kernel_arg_info",
         "cl_kernel_work_group_info", "cl_event_info", "cl_profiling_info", "cl_pipe_info", "cl_kernel_exec_info",
         "cl_kernel_sub_group_info")
C = {}


def _parse():
    protos = {}
    txt = ""
    for f in ("cl.h", "cl_ext.h", "cl_platform.h"):
        p = os.path.join(REPO, "src/CL", f)
        if os.path.exists(p):
            txt += open(p, errors="replace").read()
    txt = re.sub(r"/\*.*?\*/", "", txt, flags=re.S)
    for m in re.finditer(r"#define\s+(CL_\w+)\s+\(?(-?0x[0-9A-Fa-f]+|-?\d+)\)?\s*$", txt, re.M):
        C.setdefault(m.group(1), int(m.group(2), 0))
    for m in re.finditer(r"#define\s+(CL_\w+)\s+\(\s*1\s*<<\s*(\d+)\s*\)", txt):
        C.setdefault(m.group(1), 1 << int(m.group(2)))
    C["CL_DEVICE_TYPE_ALL"] = 0xFFFFFFFF
    for m in re.finditer(r"CL_API_ENTRY\s+([\w\s\*]+?)\s+(?:CL_API_CALL|CL_CALLBACK)\s+(cl\w+)\s*\(", txt):
        i, depth = m.end(), 1
        while depth:
            depth += {"(": 1, ")": -1}.get(txt[i], 0)
            i += 1
        body = txt[m.end():i - 1]
        args, cur, depth = [], "", 0
        for ch in body:
            depth += {"(": 1, ")": -1}.get(ch, 0)
            if ch == "," and depth == 0:
                args.append(cur)
                cur = ""
            else:
                cur += ch
        args.append(cur)
        ret = m.group(1).split()[-1] if "*" not in m.group(1) else "void*"
        protos.setdefault(m.group(2), (ret, [a.strip() for a in args if a.strip() not in ("", "void")]))
    return protos


def _ctype(a):
    if "*" in a or "(" in a or "[" in a:
        return ct.c_void_p
    toks = [t for t in a.replace("const", "").split()]
    t = toks[0]
    if t in _INT:
        return _INT[t]
    if t in _BITS64:
        return ct.c_uint64
    if t in _UINT:
        return ct.c_uint32
    return ct.c_void_p


PROTOS = _parse()


class Lib:
    def __init__(self, builddir):
        self.dir = builddir
        os.environ["OCLGRIND_PCH_DIR"] = builddir + "/include/oclgrind"
        self.core = ct.CDLL(builddir + "/liboclgrind.so", mode=ct.RTLD_GLOBAL)
        self.rt = ct.CDLL(builddir + "/liboclgrind-rt.so", mode=ct.RTLD_GLOBAL)
        self.protos = PROTOS
        self.plain = {}
        for name, (ret, args) in self.protos.items():
            try:
                f = getattr(self.rt, name)
            except AttributeError:
                continue
            f.argtypes = [_ctype(a) for a in args]
            r = ret
            f.restype = ct.c_int32 if r == "cl_int" else (None if r == "void" else ct.c_void_p)
            setattr(self, name, f)
        self.mon = Mon(builddir)
        p = ct.c_void_p()
        n = ct.c_uint32()
        assert self.clGetPlatformIDs(1, ct.byref(p), ct.byref(n)) == 0
        self.platform = p.value
        d = ct.c_void_p()
        assert self.clGetDeviceIDs(self.platform, C["CL_DEVICE_TYPE_ALL"], 1, ct.byref(d), None) == 0
        self.device = d.value


class Rec(ct.Structure):
    _fields_ = [("kind", ct.c_uint32), ("tid", ct.c_uint32)] + [(k, ct.c_uint64) for k in ("wi", "wg", "a", "b", "c", "d")]


KINDS = ("", "log", "alloc", "free", "hload", "hstore", "load", "store", "aload", "astore", "gload", "gstore", "map",
         "unmap", "barrier", "wgbegin", "wgend", "wibegin", "wiend", "kbegin", "kend", "inst")
NONE = (1 << 64) - 1
RDT = np.dtype([("kind", "<u4"), ("tid", "<u4"), ("wi", "<u8"), ("wg", "<u8"), ("a", "<u8"), ("b", "<u8"), ("c", "<u8"), ("d", "<u8")])


def unpack3(v):
    v = int(v)
    return (v & 0x1FFFFF, (v >> 21) & 0x1FFFFF, (v >> 42) & 0x1FFFFF)


class Mon:
    """The monitor plugin, shared with the instance the simulator loads."""

    def __init__(self, builddir):
        self.path = builddir + "/libvmon.so"
        self.l = ct.CDLL(self.path, mode=ct.RTLD_GLOBAL)
        for n, r, a in (("vmon_mask", None, [ct.c_uint64]), ("vmon_limit", None, [ct.c_uint64]),
                        ("vmon_jitter", None, [ct.c_int, ct.c_uint64]), ("vmon_count", ct.c_uint64, []),
                        ("vmon_dropped", ct.c_uint64, []), ("vmon_contexts", ct.c_int, []),
                        ("vmon_recs", ct.c_void_p, []), ("vmon_blob", ct.c_void_p, []),
                        ("vmon_bloblen", ct.c_uint64, []), ("vmon_clear", None, []),
                        ("vmon_counts", ct.c_char_p, []), ("vmon_flush", None, [])):
            f = getattr(self.l, n)
            f.restype, f.argtypes = r, a

    def mask(self, *kinds):
        self.l.vmon_mask(sum(1 << KINDS.index(k) for k in kinds))

    def jitter(self, j, seed=1):
        self.l.vmon_jitter(j, seed)

    def clear(self):
        self.l.vmon_clear()

    def flush(self):
        self.l.vmon_flush()

    def contexts(self):
        return self.l.vmon_contexts()

    def recs(self):
        n = self.l.vmon_count()
        if not n:
            return np.zeros(0, RDT)
        buf = ct.string_at(self.l.vmon_recs(), n * RDT.itemsize)
        return np.frombuffer(buf, RDT)

    def logs(self, recs=None):
        """[(type, message)], type 0 debug 1 info 2 warning 3 error"""
        recs = self.recs() if recs is None else recs
        blob = ct.string_at(self.l.vmon_blob(), self.l.vmon_bloblen()) if self.l.vmon_bloblen() else b""
        return [(int(r["a"]), blob[int(r["b"]):int(r["b"]) + int(r["c"])].decode(errors="replace"))
                for r in recs[recs["kind"] == 1]]

    def counts(self):
        out = {}
        for line in self.l.vmon_counts().decode().splitlines():
            k, n, b = line.split("\t")
            out[k] = (int(n), int(b))
        return out


class CLError(Exception):
    def __init__(self, what, code, log=""):
        Exception.__init__(self, "%s -> %d %s" % (what, code, log))
        self.code, self.log = code, log


def setenv(env):
    """Sets the OCLGRIND_* environment (seen by contexts created afterwards)."""
    for k in list(os.environ):
        if k.startswith("OCLGRIND_") and k != "OCLGRIND_PCH_DIR":
            del os.environ[k]
    for k, v in env.items():
        os.environ["OCLGRIND_" + k] = str(v)


def sizes(t):
    return (ct.c_size_t * len(t))(*t)


def ptrs(t):
    return (ct.c_void_p * max(1, len(t)))(*t)


class Ctx:
    """Convenience wrapper: one context with one queue and the monitor loaded."""

    def __init__(self, lib, env=None, queue_props=0, monitor=True):
        e = {"LOG": "/dev/null", "NUM_THREADS": 1, "MAX_ERRORS": 1000000}
        e.update(env or {})
        e = {k: v for k, v in e.items() if v is not None}
        if monitor:
            e["PLUGINS"] = lib.mon.path
        setenv(e)
        self.L = lib
        err = ct.c_int32()
        dev = ptrs([lib.device])
        self.ctx = lib.clCreateContext(None, 1, dev, None, None, ct.byref(err))
        self.chk("clCreateContext", err.value)
        self.q = lib.clCreateCommandQueue(self.ctx, lib.device, queue_props, ct.byref(err))
        self.chk("clCreateCommandQueue", err.value)
        self.objs = []

    def chk(self, what, code):
        if code != 0:
            raise CLError(what, code)

    def queue(self, props=0):
        err = ct.c_int32()
        q = self.L.clCreateCommandQueue(self.ctx, self.L.device, props, ct.byref(err))
        self.chk("clCreateCommandQueue", err.value)
        self.objs.append(("clReleaseCommandQueue", q))
        return q

    def buffer(self, data=None, size=None, flags=0):
        err = ct.c_int32()
        if data is not None:
            data = np.ascontiguousarray(data)
            raw = data.tobytes()
            m = self.L.clCreateBuffer(self.ctx, flags | C["CL_MEM_COPY_HOST_PTR"], len(raw), ct.c_char_p(raw), ct.byref(err))
        else:
            m = self.L.clCreateBuffer(self.ctx, flags, size, None, ct.byref(err))
        self.chk("clCreateBuffer", err.value)
        self.objs.append(("clReleaseMemObject", m))
        return m

    def read(self, mem, size, offset=0, dtype=np.uint8, q=None):
        out = np.zeros(size, np.uint8)
        self.chk("clEnqueueReadBuffer", self.L.clEnqueueReadBuffer(q or self.q, mem, 1, offset, size, out.ctypes.data, 0, None, None))
        return out.view(dtype)

    def write(self, mem, data, offset=0, q=None):
        raw = np.ascontiguousarray(data).tobytes()
        self.chk("clEnqueueWriteBuffer", self.L.clEnqueueWriteBuffer(q or self.q, mem, 1, offset, len(raw), ct.c_char_p(raw), 0, None, None))

    def program(self, src, opts=""):
        err = ct.c_int32()
        s = src.encode() if isinstance(src, str) else src
        arr = (ct.c_char_p * 1)(s)
        p = self.L.clCreateProgramWithSource(self.ctx, 1, arr, None, ct.byref(err))
        self.chk("clCreateProgramWithSource", err.value)
        self.objs.append(("clReleaseProgram", p))
        r = self.L.clBuildProgram(p, 1, ptrs([self.L.device]), ct.c_char_p(opts.encode()), None, None)
        if r:
            raise CLError("clBuildProgram", r, self.buildlog(p))
        return p

    def buildlog(self, p):
        n = ct.c_size_t()
        self.L.clGetProgramBuildInfo(p, self.L.device, C["CL_PROGRAM_BUILD_LOG"], 0, None, ct.byref(n))
        b = ct.create_string_buffer(n.value + 1)
        self.L.clGetProgramBuildInfo(p, self.L.device, C["CL_PROGRAM_BUILD_LOG"], n.value, b, None)
        return b.value.decode(errors="replace")

    def kernel(self, prog, name):
        err = ct.c_int32()
        k = self.L.clCreateKernel(prog, ct.c_char_p(name.encode()), ct.byref(err))
        self.chk("clCreateKernel", err.value)
        self.objs.append(("clReleaseKernel", k))
        return k

    def args(self, k, *args):
        for i, a in enumerate(args):
            if isinstance(a, Local):
                r = self.L.clSetKernelArg(k, i, a.size, None)
            elif isinstance(a, int):  # mem object / sampler handle
                v = ct.c_void_p(a)
                r = self.L.clSetKernelArg(k, i, 8, ct.byref(v))
            elif a is None:
                r = self.L.clSetKernelArg(k, i, 8, None)
            else:
                raw = a if isinstance(a, bytes) else np.asarray(a).tobytes()
                r = self.L.clSetKernelArg(k, i, len(raw), ct.c_char_p(raw))
            self.chk("clSetKernelArg %d" % i, r)

    def launch(self, k, gsize, lsize=None, offset=None, finish=True, q=None):
        r = self.L.clEnqueueNDRangeKernel(q or self.q, k, len(gsize), sizes(offset) if offset else None, sizes(gsize),
                                          sizes(lsize) if lsize else None, 0, None, None)
        self.chk("clEnqueueNDRangeKernel", r)
        if finish:
            self.chk("clFinish", self.L.clFinish(q or self.q))

    def release(self):
        for f, o in reversed(self.objs):
            getattr(self.L, f)(o)
        self.objs = []
        self.L.clReleaseCommandQueue(self.q)
        self.L.clReleaseContext(self.ctx)


class Local:
    def __init__(self, size):
        self.size = size
