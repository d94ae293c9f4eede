"""C22: simulation files run by the standalone simulator against an independent model of the format."""
import ctypes as ct, os, random, re, struct, subprocess
import numpy as np
from ocl import Ctx, Lib, C

PROP = "C22"
VARIANT = "asan"
TARGETS = ("kernel",)
RULE = ("random simulation files (all element types, default and explicit types, vectors, structures, sizes, fills, ranges, hexadecimal data, null, noinit, ro, wo, constant, local and by-value arguments, comments, blank "
        "lines, CRLF, values spread over lines, missing final newline, bitcode programs, geometries) run by the real oclgrind-kernel; the kernel copies the bytes of every argument out, ids of every work-item are recorded, and "
        "stdout must equal the model's dump byte for byte; malformed files made by one of ~45 damages must be rejected with a printable message naming the place and a non-zero status; non-trivial = distinct file")
ASSUMPTIONS = ["ranges of floating-point values are sampled with exactly representable steps", "hexadecimal dumps of floating-point values and values of noinit buffers before they are written are not judged"]
CASE_TIMEOUT = 60
T = dict(char=("b", 1, -128, 127), uchar=("B", 1, 0, 255), short=("h", 2, -2**15, 2**15 - 1), ushort=("H", 2, 0, 2**16 - 1), int=("i", 4, -2**31, 2**31 - 1),
         uint=("I", 4, 0, 2**32 - 1), long=("q", 8, -2**63, 2**63 - 1), ulong=("Q", 8, 0, 2**64 - 1), float=("f", 4, 0, 0), double=("d", 8, 0, 0))
NAMES = list(T)


def cases(rng, tier):
    f = 1 if tier == "quick" else 40
    out = [dict(k="ok", seed=rng.randrange(1 << 30)) for _ in range(260 * f)]
    out += [dict(k="bad", seed=rng.randrange(1 << 30), d=d) for d in DAMAGES for _ in range(4 * f)]
    rng.shuffle(out)
    return out


class W:
    pass


def setup_worker(env):
    w = W()
    w.env, w.wd = env, env["wd"]
    w.exe = env["build"] + "/oclgrind-kernel"
    w.L = Lib(env["build"])
    return w


def run_case(w, c):
    return dict(ok=good, bad=bad)[c["k"]](w, c)


# ---- values

def value(r, t, mode):
    """-> (token, python value); mode: 'dec' | 'hex'"""
    code, n, lo, hi = T[t]
    if t in ("float", "double"):
        x = r.choice([0.0, -0.0, 1.0, -1.5, 3.25, 1e10, 1e-5, 123456.789, -7.0, 0.1, 1 / 3., 2.5e-3, r.uniform(-1e3, 1e3), r.uniform(-1, 1) * 10 ** r.randint(-20, 20)])
        s = r.choice(["%.17g", "%.9g", "%e", "%g", "%f"]) % x
        v = float(s)
        if t == "float":
            v = float(np.float32(s))
        return s, v
    x = r.choice([lo, hi, 0, 1, r.randint(lo, hi), r.randint(max(lo, -100), min(hi, 100)), r.randint(max(lo, -100), min(hi, 100))])
    if mode == "hex":
        s = ("-" if x < 0 else "") + r.choice(["", "0x", "0X"]) + r.choice(["%x", "%X"]) % abs(x)
    else:
        s = r.choice(["%d"] * 6 + (["+%d"] if x >= 0 else ["%d"])) % x
    return s, x


def pack(t, vals):
    return struct.pack("<%d%s" % (len(vals), T[t][0]), *vals)


LIBC = ct.CDLL(None)


def fmt6(x):
    b = ct.create_string_buffer(64)
    LIBC.snprintf(b, 64, b"%g", ct.c_double(x))
    return b.value.decode()


def show(t, raw, hexa):
    code, n, lo, hi = T[t]
    if t in ("float", "double"):
        x = struct.unpack("<" + code, raw)[0]
        if x != x:  # Python loses nothing but the sign of a NaN counts
            return "-nan" if raw[-1] & 0x80 else "nan"
        return fmt6(x)
    x = struct.unpack("<" + code, raw)[0]
    if hexa:
        return "0x%0*x" % (2 * n, x & ((1 << 8 * n) - 1))
    return str(x)


class Arg:
    """one kernel argument: its declaration, header tokens, data tokens, bytes given, flags"""


SPACES = ["global"] * 10 + ["constant"] * 2 + ["private"] * 5 + ["local"] * 2


def mkarg(r, i, forbid=()):
    a = Arg()
    a.i, a.name = i, r.choice(["a", "buf", "x", "data_", "Arg", "in"]) + str(i)
    a.space = r.choice(SPACES)
    a.el = r.choice(NAMES)
    a.vec = r.choice([1, 1, 1, 2, 3, 4, 8, 16])
    a.struct = r.random() < .12 and a.space != "local"
    a.dump = a.hex = a.noinit = a.null = False
    a.flags = ""
    a.init = "data"
    a.tokens = []
    a.raw = b""
    a.decl = "S%d" % i if a.struct else a.el + (str(a.vec) if a.vec > 1 else "")
    a.type = a.el       # type used for parsing and dumping
    a.typetok = None
    if a.struct:
        a.type = a.typetok = r.choice(["char", "uchar", "int", "uint", "short", "float", "ulong"])
        k = r.choice([1, 2, 3]) * 8
        a.sdef = "struct S%d { %s m[%d]; };\n" % (i, a.type, k // T[a.type][1])
        a.decl = "struct S%d" % i
        unit = k
    else:
        a.sdef = ""
        unit = T[a.el][1] * (4 if a.vec == 3 else a.vec)
    if a.space != "private" and r.random() < .08:
        a.void = a.space == "global"
        if a.void:
            a.decl, a.type, a.typetok, a.sdef, a.struct, unit = "void", "uchar", None, "", False, 1
    if r.random() < .3 or a.typetok:
        cand = [t for t in NAMES if unit % T[t][1] == 0 or a.space != "private"]
        a.type = a.typetok = a.typetok if a.struct and r.random() < .5 else r.choice(cand)
    n = T[a.type][1]
    if a.space == "private":
        a.size = unit
    elif a.space == "local":
        a.size = unit * r.randint(1, 6)
        a.size = -(-a.size // n) * n
    else:
        a.size = max(n, unit * r.choice([1, 1, 2, 3, 4, r.randint(1, 40)]))
        if r.random() < .15:
            a.size += r.randint(0, 5)       # part of an element at the end
        a.size = -(-a.size // n) * n
    a.unit = unit
    isf = a.type in ("float", "double")
    if a.space in ("global", "constant"):
        if r.random() < .07:
            a.null = True
            a.init, a.size = "null", 0
            return a
        a.dump = r.random() < .5
        if a.space == "global":
            a.flags = r.choice(["", "", "", "", "ro", "wo"])
        if r.random() < .08 and a.space == "global" and a.flags != "ro":
            a.noinit = True
    a.hex = r.random() < (.3 if not (isf and a.dump) else 0)
    if a.space == "local":
        a.init = "none"
        a.hex = False
        return a
    cnt = a.size // n
    mode = "hex" if a.hex and not isf else "dec"
    a.init = "noinit" if a.noinit else r.choice(["data", "data", "fill", "range"])
    if cnt > 60 and a.init == "data":
        a.init = r.choice(["fill", "range"])
    if a.init == "data":
        tv = [value(r, a.type, mode) for _ in range(cnt)]
        a.tokens = [t for t, _ in tv]
        a.raw = pack(a.type, [v for _, v in tv])
    elif a.init == "fill":
        t, v = value(r, a.type, mode)
        a.filltok = t
        a.raw = pack(a.type, [v] * cnt)
    elif a.init == "range":
        lo, hi = T[a.type][2:]
        for _ in range(50):
            if isf:
                q = r.choice([1, 2, 4, 8])
                s, d = r.randint(-64, 64) / q, r.choice([1, -1, 2, 3, -5, 7]) / q
                e = s + d * (cnt - 1)
                ok = True
            else:
                d = r.choice([1, 1, 2, 3, -1, -2, 7, r.randint(1, 1 << 30)])
                span = d * (cnt - 1)
                if lo == 0:
                    d = abs(d)
                    span = abs(span)
                a_, b_ = max(lo, lo - span), min(hi, hi - span)
                if a_ > b_:
                    continue
                s = r.choice([a_, b_, r.randint(a_, b_), max(a_, min(b_, 0)), max(a_, min(b_, 1))])
                if d > hi:
                    continue
                e = s + span
            break
        else:
            a.init = "fill"
            a.filltok, v = value(r, a.type, mode)
            a.raw = pack(a.type, [v] * cnt)
            return a
        if mode == "hex":
            a.rangetok = ":".join(("-" if x < 0 else "") + r.choice(["", "0x"]) + "%x" % abs(x) for x in (s, d, e))
        elif isf:
            a.rangetok = "%r:%r:%r" % (s, d, e)
        else:
            a.rangetok = "%d:%d:%d" % (s, d, e)
        a.raw = pack(a.type, [s + d * k for k in range(cnt)])
    return a


def header(r, a):
    t = []
    if a.null:
        t.append("null")
    else:
        t.append("size=%d" % a.size)
    if a.typetok:
        t.append(a.typetok)
    if a.dump:
        t.append("dump")
    if a.hex:
        t.append("hex")
    if a.noinit:
        t.append("noinit")
    if a.init == "fill":
        t.append("fill=" + a.filltok)
    if a.init == "range":
        t.append("range=" + a.rangetok)
    if a.flags:
        t.append(a.flags)
    r.shuffle(t)
    return t


class File:
    pass


def mkfile(r, nargs=None):
    """a valid simulation: arguments, kernel source, file lines, expected output"""
    f = File()
    f.cl2 = r.random() < .25
    f.args = [mkarg(r, i) for i in range(r.randint(0, 5) if nargs is None else nargs)]
    dims = r.choice([1, 1, 2, 3])
    f.wg = [r.randint(1, 4) if d < dims else 1 for d in range(3)]
    f.nd = [f.wg[d] * r.randint(1, 3) if d < dims else 1 for d in range(3)]
    if f.cl2 and r.random() < .5:
        f.nd = [max(1, x - r.randint(0, 1)) if d < dims else 1 for d, x in enumerate(f.nd)]
    f.kernel = r.choice(["k", "main_kernel", "Test1", "run"])
    f.clname = r.choice(["p.cl", "prog.cl", "dir_p.txt", "a-b.cl"])
    items = f.nd[0] * f.nd[1] * f.nd[2]
    # the kernel: argument bytes go to `bytes`, ids to `ids`, some buffers are changed
    body, total, f.change = [], 0, {}
    f.expect = []       # (offset, bytes)
    for a in f.args:
        if a.space in ("global", "constant"):
            if a.null:
                body.append("bytes[%d] = %s == 0;" % (total, a.name))
                f.expect.append((total, b"\1"))
                total += 1
            elif a.noinit or a.flags == "wo":
                v = r.randint(0, 255)
                body.append("for (int i = 0; i < %d; i++) ((global uchar *)%s)[i] = %d + i;" % (a.size, a.name, v))
                f.change[a.i] = bytes((v + k) & 255 for k in range(a.size))
            else:
                body.append("for (int i = 0; i < %d; i++) bytes[%d + i] = ((%s const uchar *)%s)[i];" % (a.size, total, a.space, a.name))
                f.expect.append((total, a.raw))
                total += a.size
                if a.space == "global" and a.flags == "" and r.random() < .5:
                    v = r.randint(0, 255)
                    body.append("for (int i = 0; i < %d; i++) ((global uchar *)%s)[i] ^= %d;" % (a.size, a.name, v))
                    f.change[a.i] = bytes(b ^ v for b in a.raw)
        elif a.space == "private":
            size = 12 if (a.vec == 3 and not a.struct and a.unit == 16) else a.unit
            if a.vec == 3 and not a.struct:
                size = a.unit * 3 // 4
            body.append("{ %s v = %s; for (int i = 0; i < %d; i++) bytes[%d + i] = ((private uchar *)&v)[i]; }" % (a.decl, a.name, size, total))
            f.expect.append((total, a.raw[:size]))
            total += size
        else:
            body.append("for (int i = 0; i < %d; i++) ((local uchar *)%s)[i] = i; bytes[%d] = ((local uchar *)%s)[%d];" % (a.size, a.name, total, a.name, a.size - 1))
            f.expect.append((total, bytes([(a.size - 1) & 255])))
            total += 1
    f.total = max(total, 1)
    decl = []
    for a in f.args:
        q = ""
        if a.space in ("global", "constant", "local"):
            q = a.space + " " + (r.choice(["", "const "]) if a.flags == "ro" else "")
        decl.append("%s%s %s%s" % (q, a.decl, "*" if a.space != "private" else "", a.name))
    decl += ["global uchar *bytes", "global uint *ids"]
    f.src = "".join(a.sdef for a in f.args) + ("kernel void %s(%s)\n{\n size_t x = get_global_id(0), y = get_global_id(1), z = get_global_id(2);\n"
            " size_t g = x + get_global_size(0) * (y + get_global_size(1) * z);\n ids[g * 4] += 1; ids[g * 4 + 1] = x * 10000 + y * 100 + z;\n"
            " ids[g * 4 + 2] = get_local_id(0) * 10000 + get_local_id(1) * 100 + get_local_id(2);\n ids[g * 4 + 3] = get_local_size(0) * 10000 + get_local_size(1) * 100 + get_local_size(2);\n"
            " if (g == 0) {\n  %s\n }\n}\n") % (f.kernel, ", ".join(decl), "\n  ".join(body))
    f.items = items
    ids = []
    for z in range(f.nd[2]):
        for y in range(f.nd[1]):
            for x in range(f.nd[0]):
                p = (x, y, z)
                l = [p[d] % f.wg[d] for d in range(3)]
                s = [min(f.wg[d], f.nd[d] - p[d] // f.wg[d] * f.wg[d]) for d in range(3)]
                ids += [1, x * 10000 + y * 100 + z, l[0] * 10000 + l[1] * 100 + l[2], s[0] * 10000 + s[1] * 100 + s[2]]
    by = bytearray(f.total)
    for o, b in f.expect:
        by[o:o + len(b)] = b
    f.bytes, f.ids = bytes(by), struct.pack("<%dI" % len(ids), *ids)
    # two more arguments
    f.all = f.args + [fixed(len(f.args), "bytes", "uchar", f.total, f.bytes), fixed(len(f.args) + 1, "ids", "uint", len(f.ids), f.ids)]
    f.layout = r.random() < .8
    return f


def fixed(i, name, t, size, final):
    a = Arg()
    a.i, a.name, a.space, a.type, a.typetok, a.size, a.final = i, name, "global", t, None, size, final
    a.dump, a.hex, a.noinit, a.null, a.flags, a.init, a.filltok, a.tokens, a.raw, a.struct, a.el, a.vec, a.unit = True, False, False, False, "", "fill", "0", [], bytes(size), False, t, 1, 1
    return a


def final(f, a):
    if hasattr(a, "final"):
        return a.final
    return f.change.get(a.i, a.raw)


def model(f):
    out = ""
    for a in f.all:
        if not a.dump:
            continue
        n = T[a.type][1]
        raw = final(f, a)
        out += "\nArgument '%s': %d bytes\n" % (a.name, a.size)
        for k in range(a.size // n):
            out += "  %s[%d] = %s\n" % (a.name, k, show(a.type, raw[k * n:k * n + n], a.hex))
        out += "\n"
    return out


def memdump(f):
    """text of -g: buffers in order of allocation"""
    out, b = "\nGlobal Memory:\n", 0
    for a in f.all:
        if a.space not in ("global", "constant") or a.null:
            continue
        b += 1
        raw = final(f, a)
        for k in range(a.size):
            if k % 4 == 0:
                out += "\n%16X:" % ((b << 48) | k)
            out += " %02X" % raw[k]
    return out + "\n"


def render(r, f, headers=None, tokens=None):
    """-> text; f.lineof[(i, k)] is the line on which token k of argument i stands (k = -1: header)"""
    lines, cur = [], []
    nl = lambda: (lines.append(" ".join(cur)), cur.clear())
    f.lineof = {}
    fancy = f.layout

    def sep(p=.5):
        if not fancy:
            return
        if r.random() < p:
            nl()
        while r.random() < .25:
            cur.clear() if not cur else None
            if cur:
                nl()
            lines.append(r.choice(["", "  ", "# comment", "# one # two", "   # <size=4> 1 2 3", "#", "\t"]))
    w = lambda t: cur.append(r.choice(["", "", " ", "\t"]) + t if fancy else t)
    sep(0)
    for t, grp in ((f.clname, 0), (f.kernel, 0)):
        w(t)
        nl() if not fancy or r.random() < .7 else None
        sep(.3)
    for grp in (f.nd, f.wg):
        for x in grp:
            w(str(x))
            sep(.2)
        nl()
    sep(0)
    for a in f.all:
        if cur:
            nl()
        h = (headers or {}).get(a.i)
        h = header(r, a) if h is None else h
        if h != "":
            txt = h if isinstance(h, str) else "<" + r.choice(["", " "]) * fancy + r.choice([" ", "  ", "\t"] if fancy else [" "]).join(h) + r.choice(["", " "]) * fancy + ">"
            w(txt)
        f.lineof[a.i, -1] = len(lines) + 1
        tk = (tokens or {}).get(a.i, a.tokens)
        if tk and (not fancy or r.random() < .7):
            nl()
        for k, t in enumerate(tk):
            if k == 0 and fancy and cur and h and r.random() < .3:
                cur[-1] += t        # directly behind the header
            else:
                w(t)
            f.lineof[a.i, k] = len(lines) + 1
            if fancy and r.random() < .1:
                w("# " + r.choice(["note", "7 8 9", "<size=1>", "8 # 9"]))
                nl()
            sep(.3 if fancy else 0)
        if cur:
            nl()
        sep(0)
    if cur:
        nl()
    return lines


def store(w, r, f, lines, src=None):
    eol = r.choice(["\n", "\n", "\n", "\r\n"]) if f.layout else "\n"
    text = eol.join(lines)
    if not f.layout or r.random() < .8:
        text += eol
    src = f.src if src is None else src
    open(w.wd + "/" + f.clname, "wb").write(src.encode() if isinstance(src, str) else src)
    open(w.wd + "/t.sim", "w", newline="").write(text)
    return text


def launch(w, opts, name="t.sim"):
    env = {k: v for k, v in os.environ.items() if not k.startswith("OCLGRIND")}
    p = subprocess.Popen([w.exe] + opts + [name], cwd=w.wd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try:
        o, e = p.communicate(timeout=50)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, "", "", []
    san = []
    sf = w.wd + "/san.%d" % p.pid
    if os.path.exists(sf):
        import harness
        t = open(sf, errors="replace").read()
        os.unlink(sf)
        san = harness.parse_san(t) or ([("sanitizer", t[:500])] if "ERROR" in t else [])
    return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace"), san


def with_bitcode(w, f):
    """replaces the program file by the bitcode the runtime gives for it"""
    x = Ctx(w.L, monitor=False)
    p = x.program(f.src, "-cl-kernel-arg-info" + (" -cl-std=CL2.0" if f.cl2 else ""))
    n = ct.c_size_t()
    w.L.clGetProgramInfo(p, C["CL_PROGRAM_BINARY_SIZES"], 8, ct.byref(n), None)
    b = ct.create_string_buffer(n.value)
    w.L.clGetProgramInfo(p, C["CL_PROGRAM_BINARIES"], 8, (ct.c_void_p * 1)(ct.addressof(b)), None)
    x.release()
    open(w.wd + "/" + f.clname, "wb").write(b.raw)


def first_diff(a, b):
    la, lb = a.split("\n"), b.split("\n")
    for i, (x, y) in enumerate(zip(la, lb)):
        if x != y:
            return "line %d: got %r, expected %r" % (i, x, y)
    return "%d lines, expected %d" % (len(la), len(lb))


def kind(f, a):
    return "%s %s %s" % (a.space, a.type, a.init)


def good(w, c):
    r = random.Random(c["seed"])
    f = mkfile(r)
    lines = render(r, f)
    text = store(w, r, f, lines)
    opts, quiet = [], True
    if f.cl2:
        opts += ["--build-options", "-cl-std=CL2.0"]
    g = r.random() < .35
    if g:
        opts.append(r.choice(["-g", "--global-mem"]))
    if r.random() < .3:
        opts.append("--uninitialized")
    if r.random() < .2:
        opts.append("--data-races")
    r.shuffle(opts) if not f.cl2 else None
    if r.random() < .3:
        opts += ["--num-threads", str(r.randint(1, 4))]
    rc, out, err, san = launch(w, opts)
    V = list(san)
    f.bc = r.random() < .12
    if f.bc:
        with_bitcode(w, f)
    show_ = lambda: " file:\n%s\nkernel:\n%s" % (text[:1500], f.src[:1500])
    if rc is None:
        V.append(("hang", "the simulator did not end" + show_()))
    elif rc != 0:
        V.append(("valid:status", "exit status %s, stderr %r" % (rc, err[:300]) + show_()))
    else:
        exp = model(f) + (memdump(f) if g else "")
        if out != exp:
            # which argument is wrong
            key = "output"
            for a in f.all:
                m = re.search(r"\nArgument '%s': .*?\n\n" % a.name, out, re.S)
                e = re.search(r"\nArgument '%s': .*?\n\n" % a.name, exp, re.S)
                if (m and m.group()) != (e and e.group()):
                    key = a.name if a.name in ("bytes", "ids") else "dump %s%s" % (a.type, " hex" if a.hex else "")
                    break
            V.append(("valid:" + key, first_diff(out, exp) + show_()))
        if err:
            V.append(("valid:messages", "stderr %r" % err[:400] + show_()))
    # one past the end of an argument must be reported
    probe = [a for a in f.args if a.space in ("global", "constant", "local") and not a.null]
    ev = 1
    if not V and probe and r.random() < .35:
        a = r.choice(probe)
        wr = a.space == "local" or a.flags == "wo"
        at = r.choice([0, a.size])
        acc = "((%s uchar *)%s)[%d] = 1;" % (a.space, a.name, at) if a.space != "constant" and (wr or (a.flags == "ro" and at == 0)) or a.flags == "ro" and at == 0 else \
              "bytes[0] = ((%s const uchar *)%s)[%d];" % (a.space, a.name, at)
        if a.flags == "wo" and at == 0:
            acc = "bytes[0] = ((global const uchar *)%s)[0];" % a.name
        src = f.src[:f.src.rindex("if (g == 0)")] + " if (g == 0) { %s }\n}\n" % acc
        open(w.wd + "/" + f.clname, "w").write(src)
        rc, out, err, san = launch(w, [o for o in opts if not o.startswith("--un")])
        V += san
        bad = "Invalid" in err
        want = at == a.size or a.flags != ""
        if rc != 0 or bad != want:
            V.append(("probe:%s %s" % (a.space, "end" if at else a.flags), "%s: %s: exit %s, stderr %r" % (acc, "expected a report" if want else "expected none", rc, err[:300]) + show_()))
        ev = 2
    return dict(violations=V, nontrivial=[hash(text) & 0xFFFFFFFFFFFF], evals=ev, stats=dict(files=1, dumped=sum(a.dump for a in f.all), arguments=len(f.all)),
                sample=dict(file=text[:400], stdout=out[:200]) if r.random() < .02 else None)


# ---- malformed files

DAMAGES = ["drop-value", "extra-value", "extra-last", "garbage", "suffix", "range-value", "no-header", "no-close", "token", "token-prefix", "no-size", "size-mult", "size-text", "size-neg", "size-huge", "size-noeq",
           "priv-small", "priv-large", "two-types", "two-inits", "null-priv", "null-size", "noinit-priv", "ro-wo", "wo-ro", "ro-const", "dump-priv", "dump-local", "fill-empty", "fill-bad", "fill-range",
           "range-form", "range-count", "range-zero", "wg-zero", "nd-neg", "nd-text", "wg-divide", "no-program", "no-kernel", "truncate", "extra-arg", "build", "half", "struct-type", "no-file", "image", "sampler", "fill-noeq", "bitcode", "empty"]


def bad(w, c):
    r = random.Random(c["seed"])
    d = c["d"]
    for _ in range(300):
        f = mkfile(r, r.randint(1, 4))
        x = damage(r, f, d)
        if x:
            break
    else:
        return dict(violations=[], nontrivial=False, stats=dict(not_applicable=1))
    text = store(w, r, f, x["lines"], x.get("src"))
    if x.get("unlink"):
        os.unlink(w.wd + "/" + f.clname)
    opts = ["--build-options", "-cl-std=CL2.0"] if f.cl2 else []
    rc, out, err, san = launch(w, opts, x.get("name", "t.sim"))
    V = [("%s:%s" % (k, d), s) for k, s in san]
    show_ = "\nfile:\n%s\nkernel:\n%s" % (text[:1500], f.src[:800])
    if rc is None:
        V.append(("bad:%s:hang" % d, "the simulator did not end" + show_))
    elif rc == 77 and san:
        pass
    elif rc < 0:
        V.append(("bad:%s:crash" % d, "signal %d, stderr %r" % (-rc, err[:300]) + show_))
    elif rc == 0:
        V.append(("bad:%s:accepted" % d, "exit status 0, stdout %r stderr %r" % (out[:200], err[:200]) + show_))
    else:
        if not err.strip() or not all(ch == "\n" or ch == "\t" or " " <= ch <= "~" for ch in err):
            V.append(("bad:%s:message" % d, "exit status %d, stderr %r" % (rc, err[:300]) + show_))
        if "Argument '" in out:
            V.append(("bad:%s:ran" % d, "the kernel was run: %r" % out[:200] + show_))
        if x.get("arg") is not None and not re.search(r"argument %d: %s\b" % (x["arg"], f.all[x["arg"]].name), err):
            V.append(("bad:%s:place" % d, "message %r does not name argument %d" % (err[:200], x["arg"]) + show_))
        if x.get("line") and not re.search(r"Line %d:" % x["line"], err):
            V.append(("bad:%s:line" % d, "message %r does not name line %d" % (err[:200], x["line"]) + show_))
        if x.get("says") and x["says"] not in err:
            V.append(("bad:%s:text" % d, "message %r does not say %r" % (err[:200], x["says"]) + show_))
    return dict(violations=V, nontrivial=[hash(text) & 0xFFFFFFFFFFFF], stats=dict(files=1, malformed=1), sample=dict(damage=d, stderr=err[:160]) if r.random() < .03 else None)


def pick(r, f, cond):
    l = [a for a in f.args if cond(a)]
    return r.choice(l) if l else None


def damage(r, f, d):
    buf = lambda a: a.space in ("global", "constant") and not a.null
    H = {}

    def hdr(a, add=(), drop=(), repl=None):
        t = [x for x in header(r, a) if not any(x == p or x.startswith(p + "=") for p in drop)]
        t = [repl(x) for x in t] if repl else t
        t += list(add)
        r.shuffle(t)
        return dict(lines=render(r, f, {a.i: t}), arg=a.i, line=f.lineof[a.i, -1])
    if d == "drop-value":
        a = pick(r, f, lambda a: len(a.tokens) > 0)
        if not a:
            return
        t = list(a.tokens)
        t.pop(r.randrange(len(t)))
        f.layout and 0
        return dict(lines=render(r, f, tokens={a.i: t}), arg=a.i)
    if d in ("extra-value", "garbage", "suffix", "range-value"):
        a = pick(r, f, lambda a: len(a.tokens) > 0)
        if not a:
            return
        isf = a.type in ("float", "double")
        t = list(a.tokens)
        k = r.randrange(len(t))
        if d == "extra-value":
            t.insert(k, t[k])
            return dict(lines=render(r, f, tokens={a.i: t}), arg=a.i + 1)
        if d == "garbage":
            t[k] = r.choice(["abc"[a.hex:] if not a.hex else "xyz", "--1", "$", "=", "q1"])
        elif d == "suffix":
            t[k] += r.choice(["x", "q", "!", ";", ","])
            return dict(lines=render(r, f, tokens={a.i: t}))
        else:
            if isf:
                return
            lo, hi = T[a.type][2:]
            v = r.choice([hi + 1, hi + r.randint(1, 1000), hi * 3] + ([lo - 1, lo - 5] if lo else []))
            t[k] = ("-" if v < 0 else "") + ("%x" if a.hex else "%d") % abs(v)
        x = dict(lines=render(r, f, tokens={a.i: t}), arg=a.i)
        x["line"] = f.lineof[a.i, k]
        return x
    if d == "extra-last":
        a = f.all[-1]
        return dict(lines=render(r, f, tokens={a.i: [r.choice(["1", "junk", "<size=4>", "0"])]}))
    if d == "extra-arg":
        lines = render(r, f)
        return dict(lines=lines + ["<size=4 fill=0>"])
    if d == "no-header":
        a = r.choice(f.args)
        return dict(lines=render(r, f, {a.i: r.choice(["size=4>", "1 2 3", "[size=4]"])}), arg=a.i)
    if d == "no-close":
        a = r.choice(f.all)
        h = "<" + " ".join(header(r, a))
        f.layout = False
        return dict(lines=render(r, f, {a.i: h}), arg=a.i, line=f.lineof[a.i, -1])
    if d == "token":
        return hdr(r.choice(f.args), [r.choice(["foo", "sise=4", "Dump", "INT", "half", "int4", "hexx", "nul", "read_only_buffer_flag", "unsigned_integer_elements"])])
    if d == "token-prefix":
        a = pick(r, f, lambda a: buf(a) and not a.dump)
        return a and hdr(a, ["dumped"])
    if d == "no-size":
        a = pick(r, f, lambda a: not a.null)
        return a and hdr(a, drop=["size"])
    if d == "size-mult":
        a = pick(r, f, lambda a: not a.null and T[a.type][1] > 1)
        return a and hdr(a, ["size=%d" % (a.size + r.randint(1, T[a.type][1] - 1))], ["size"])
    if d == "size-text":
        a = pick(r, f, lambda a: not a.null)
        return a and hdr(a, ["size=" + r.choice(["abc", "", "4x", "4.5", "0x10", "=4"])], ["size"])
    if d == "size-neg":
        a = pick(r, f, lambda a: not a.null and a.space != "local")
        return a and hdr(a, ["size=-%d" % (8 * r.randint(1, 5))], ["size"])
    if d == "size-huge":
        a = pick(r, f, lambda a: not a.null and a.space != "local" and a.init != "data")
        return a and hdr(a, ["size=%d" % r.choice([1 << 62, 1 << 50, 1 << 63])], ["size"])
    if d == "size-noeq":
        a = pick(r, f, lambda a: not a.null)
        return a and hdr(a, [r.choice(["size", "size:4", "size4", "sizes=8"])], ["size"])
    if d in ("priv-small", "priv-large"):
        a = pick(r, f, lambda a: a.space == "private")
        if not a:
            return
        n = T[a.type][1]
        cnt = a.size // n
        k = cnt - r.randint(1, cnt) if d == "priv-small" else cnt + r.randint(1, 40)
        if k < 1:
            return
        a.size = k * n
        if a.init == "data":
            a.tokens = (a.tokens * 50)[:k]
        elif a.init == "range":
            a.init, a.filltok = "fill", "1"
        return dict(lines=render(r, f), arg=a.i)
    if d == "two-types":
        a = pick(r, f, lambda a: not a.null)
        return a and hdr(a, ([] if a.typetok else [r.choice(NAMES)]) + [r.choice(NAMES)])
    if d == "two-inits":
        a = pick(r, f, lambda a: buf(a) and a.init in ("fill", "range", "noinit"))
        if not a:
            return
        add = {"fill": ["range=0:1:%d" % (a.size // T[a.type][1] - 1), "noinit"], "range": ["fill=0", "noinit"], "noinit": ["fill=0", "range=1:1:2"]}[a.init]
        return hdr(a, [r.choice(add)])
    if d in ("null-priv", "noinit-priv"):
        a = pick(r, f, lambda a: a.space in ("private", "local") and (d[0] == "n"))
        return a and hdr(a, [d[:-5]], ["size"] if d[1] == "u" and r.random() < .5 else [])
    if d == "null-size":
        a = pick(r, f, buf)
        return a and hdr(a, ["null"], r.choice([[], ["dump"]]) if a.init == "data" else [])
    if d in ("ro-wo", "wo-ro"):
        a = pick(r, f, lambda a: buf(a) and a.space == "global")
        if not a:
            return
        a.flags = ""
        t = header(r, a)
        i = r.randint(0, len(t))
        t[i:i] = d.split("-")
        return dict(lines=render(r, f, {a.i: t}), arg=a.i, line=f.lineof[a.i, -1])
    if d == "ro-const":
        a = pick(r, f, lambda a: a.space != "global")
        return a and hdr(a, [r.choice(["ro", "wo"])])
    if d in ("dump-priv", "dump-local"):
        a = pick(r, f, lambda a: a.space == ("private" if d[5] == "p" else "local"))
        return a and hdr(a, ["dump"])
    if d == "fill-empty":
        a = pick(r, f, lambda a: buf(a) and a.init == "fill")
        return a and hdr(a, ["fill="], ["fill"])
    if d == "fill-noeq":
        a = pick(r, f, lambda a: a.init == "fill")
        return a and hdr(a, [r.choice(["fill", "fill:1", "filled=1", "fills"])], ["fill"])
    if d == "fill-bad":
        a = pick(r, f, lambda a: a.init == "fill")
        return a and hdr(a, ["fill=" + r.choice(["zz", "1q", "1:2", "1,2", "--1"])], ["fill"])
    if d == "fill-range":
        a = pick(r, f, lambda a: a.init == "fill" and a.type not in ("float", "double"))
        if not a:
            return
        lo, hi = T[a.type][2:]
        v = r.choice([hi + 1, hi * 2, hi + 100] + ([lo - 1] if lo else []))
        return hdr(a, ["fill=" + ("-" if v < 0 else "") + ("%x" if a.hex else "%d") % abs(v)], ["fill"])
    if d in ("range-form", "range-count", "range-zero"):
        a = pick(r, f, lambda a: a.init in ("range", "fill") and a.size // T[a.type][1] > 1)
        if not a:
            return
        cnt = a.size // T[a.type][1]
        if cnt > 100:
            return
        hx = "%x" if a.hex and a.type not in ("float", "double") else "%d"
        e = hx % (cnt - 1)
        tok = {"range-form": r.choice(["0:1", "0:1:", "0", "0-1-" + e, "0:1:%s:1" % e, "0:1:%sq" % e, ":1:" + e, "0::" + e, "a b", "0:q:3"]),
               "range-count": "0:1:" + r.choice([hx % cnt, hx % (cnt - 2), hx % (cnt + 7)]), "range-zero": r.choice(["0:0:0", "0:0:" + e, "1:0:1"])}[d]
        return hdr(a, ["range=" + tok], ["range", "fill"])
    if d in ("wg-zero", "nd-neg", "nd-text", "wg-divide"):
        k = r.randrange(3)
        if d == "wg-zero":
            f.wg[k] = 0
        elif d == "nd-neg":
            r.choice([f.nd, f.wg])[k] = -r.randint(1, 3)
        elif d == "nd-text":
            r.choice([f.nd, f.wg])[k] = r.choice(["x", "1.5", "4k", ",", "<size=4>"])
        else:
            if f.cl2:
                return
            f.wg[k] = f.nd[k] + 1 if r.random() < .5 or f.nd[k] < 3 else f.nd[k] - 1
            if f.wg[k] < 1 or f.nd[k] % f.wg[k] == 0:
                return
        return dict(lines=render(r, f))
    if d == "no-program":
        return dict(lines=render(r, f), unlink=True)
    if d == "no-kernel":
        f.kernel = r.choice(["nothing", f.kernel + "x", f.kernel[:-1] or "q", "x"])
        return dict(lines=render(r, f))
    if d == "no-file":
        return dict(lines=render(r, f), name=r.choice(["missing.sim", "no/such/file.sim"]))
    if d == "build":
        return dict(lines=render(r, f), src=f.src + r.choice(["\nint x = ;\n", "\n#error stop\n", "\nvoid f() { undeclared(); }\n"]))
    if d == "bitcode":
        return dict(lines=render(r, f), src=b"BC" + r.choice([b"", b"\xc0\xde", b"garbage", bytes(r.randrange(256) for _ in range(400)), b"\xc0\xde" + bytes(r.randrange(256) for _ in range(400))]))
    if d == "empty":
        return dict(lines=r.choice([[], [""], ["#"], [f.clname], [f.clname, f.kernel], [f.clname, f.kernel, "1 1"]]), says="EOF")
    if d == "truncate":
        lines = render(r, f)
        # cut before a token of an argument that is needed: everything from its first line on is lost
        a = r.choice(f.all)
        keys = [k for (i, k) in f.lineof if i == a.i]
        k = r.choice(keys)
        return dict(lines=lines[:f.lineof[a.i, k] - 1] if f.lineof[a.i, k] > 1 else [], says="EOF")
    if d in ("half", "struct-type"):
        if f.cl2:
            return
        h = "half" if d == "half" else "struct Q"
        src = "struct Q { int x; };\n" + f.src.replace("kernel void %s(" % f.kernel, "kernel void %s(global %s *q, " % (f.kernel, h))
        lines = render(r, f, {f.all[0].i: "<size=16 fill=0>\n" + "<" + " ".join(header(r, f.all[0])) + ">"})
        return dict(lines=lines, src=src, line=f.lineof[f.all[0].i, -1])
    if d in ("image", "sampler"):
        if d == "image":
            arg, body = r.choice(["read_only image2d_t img", "write_only image3d_t img", "read_only image1d_t img"]), ""
            body = "write_imagei(img, (int4)(0), (int4)(1));" if "3d" in arg else "bytes[0] = read_imagei(img, %s).x;" % ("(int2)(0)" if "2d" in arg else "0")
        else:
            arg, body = "sampler_t smp, read_only image2d_t img", "bytes[0] = read_imagei(img, smp, (int2)(0)).x;"
        src = f.src.replace("kernel void %s(" % f.kernel, "#pragma OPENCL EXTENSION cl_khr_3d_image_writes : enable\nkernel void %s(%s, " % (f.kernel, arg)).replace("if (g == 0) {", "if (g == 0) { %s" % body)
        first = r.choice(["<size=8 int fill=0>", "<size=64 int fill=0>", "<size=4 int> 0", "<size=8 uchar fill=1>"])
        lines = render(r, f, {f.all[0].i: first + "\n" + (first + "\n" if d == "sampler" else "") + "<" + " ".join(header(r, f.all[0])) + ">"})
        return dict(lines=lines, src=src)
    raise Exception(d)
