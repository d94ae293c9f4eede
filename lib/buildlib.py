"""Builds /repo's current working tree into /verif/.build/<variant>/ (git-ignored).

Own ninja build files: every src/core, src/plugins source is globbed, so a
refactoring that adds or moves a source file is still built.  Incremental (ninja
dep files) and serialised by a lock, so concurrent checks can share a variant.
"""
import fcntl, glob, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
LLVM = "/usr/lib/llvm-20"
CXX = "/usr/bin/clang++-18"
SAN_LIB = "/usr/lib/llvm-18/lib/clang/18/lib/linux"

VARIANTS = {
    # name: (cxx flags, link flags)
    "rel": ("-O1", ""),
    "asan": ("-O1 -gline-tables-only -fno-omit-frame-pointer "
             "-fsanitize=address,undefined -fno-sanitize=vptr,function "
             "-fsanitize-recover=undefined -shared-libsan",
             "-fsanitize=address,undefined -shared-libsan"),
    "tsan": ("-O1 -gline-tables-only -fno-omit-frame-pointer -fsanitize=thread -shared-libsan",
             "-fsanitize=thread -shared-libsan"),
}


class BuildError(Exception):
    pass


def _defs():
    return ("-std=gnu++17 -fno-rtti -fPIC -w -DNDEBUG -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS "
            "-D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -Wno-ignored-attributes")


def _version():
    m = re.search(r"project\(Oclgrind VERSION ([0-9.]+)\)", open(REPO + "/CMakeLists.txt").read())
    return m.group(1) if m else "0"


def _write(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def gen(variant, outdir):
    cxxflags, ldflags = VARIANTS[variant]
    os.makedirs(outdir, exist_ok=True)
    cfg = open(REPO + "/config.h.in").read()
    for k, v in (("CMAKE_PROJECT_VERSION", _version()), ("HAVE_READLINE", "1"),
                 ("LLVM_VERSION", "201"), ("IS_BIG_ENDIAN", "0")):
        cfg = cfg.replace("@%s@" % k, v)
    _write(outdir + "/config.h", cfg)
    clh = LLVM + "/lib/clang/20/include/"
    inc = outdir + "/include/oclgrind"
    os.makedirs(inc, exist_ok=True)
    n = []
    n.append("ninja_required_version = 1.3")
    n.append("cxxflags = %s %s -I%s/src -I%s -I%s/include" % (cxxflags, _defs(), REPO, outdir, LLVM))
    n.append("ldflags = %s -fuse-ld=lld -Wl,-rpath,%s/lib -Wl,-rpath,%s" % (ldflags, LLVM, outdir))
    n.append("llvmlibs = %s/lib/libclang-cpp.so.20.1 %s/lib/libLLVM.so.20.1 -lreadline -ldl -lpthread" % (LLVM, LLVM))
    n.append("rule cxx\n  command = %s $cxxflags $extra -MMD -MF $out.d -c $in -o $out\n  deps = gcc\n  depfile = $out.d" % CXX)
    n.append("rule shlib\n  command = %s -shared $ldflags $in -o $out $libs" % CXX)
    n.append("rule exe\n  command = %s $ldflags $in -o $out $libs" % CXX)
    n.append("rule cp\n  command = cp $in $out")
    n.append("rule str\n  command = python3 %s/lib/gen_clh.py $in $out" % VERIF)
    n.append("rule pch\n  command = cd %s && %s/bin/clang -cc1 -x cl -cl-std=CL$std -O0 -fno-builtin "
             "-fgnu89-inline -emit-pch -triple spir64-unknown-unknown -relocatable-pch -isysroot "
             "%s/ include/oclgrind/opencl-c.h -o $out" % (outdir, LLVM, inc))
    n.append("build include/oclgrind/opencl-c.h: cp %sopencl-c.h" % clh)
    n.append("build include/oclgrind/opencl-c-base.h: cp %sopencl-c-base.h" % clh)
    for std in ("1.2", "2.0"):
        n.append("build include/oclgrind/opencl-c-%s-64.pch: pch include/oclgrind/opencl-c.h | "
                 "include/oclgrind/opencl-c-base.h\n  std = %s" % (std, std))
    n.append("build opencl-c.h.cpp: str %sopencl-c.h" % clh)
    objs = {}

    def obj(src, tag="", extra=""):
        o = "obj/" + os.path.relpath(src, REPO if src.startswith(REPO + "/") else VERIF).replace("/", "_") + tag + ".o"
        n.append("build %s: cxx %s%s" % (o, src, ("\n  extra = " + extra) if extra else ""))
        return o

    core = [f for d in ("core", "plugins") for f in sorted(glob.glob(REPO + "/src/%s/**/*.cpp" % d, recursive=True))]
    core.sort(key=lambda f: (not f.endswith("core/Program.cpp"), f))  # slowest first
    core = [f for f in core if not f.endswith("opencl-c.h.cpp")]
    fast = "-O0" if variant == "rel" else ""
    cobj = [obj(f, extra=fast if f.endswith("core/Program.cpp") else "") for f in core]
    n.append("build obj/clh.o: cxx opencl-c.h.cpp\n  extra = -O0")
    cobj.append("obj/clh.o")
    rt = sorted(f for f in glob.glob(REPO + "/src/runtime/**/*.cpp", recursive=True) if not f.endswith("/oclgrind.cpp"))
    robj = [obj(f) for f in rt]
    kobj = [obj(f) for f in sorted(glob.glob(REPO + "/src/kernel/**/*.cpp", recursive=True))]
    lobj = [obj(f, extra="-DLIBDIR_SUFFIX='\"\"'") for f in [REPO + "/src/runtime/oclgrind.cpp"]]
    n.append("build liboclgrind.so: shlib %s\n  libs = $llvmlibs -Wl,-soname,liboclgrind.so" % " ".join(cobj))
    n.append("build liboclgrind-rt.so: shlib %s liboclgrind.so\n  libs = $llvmlibs -Wl,-soname,libOpenCL.so" % " ".join(robj))
    n.append("build oclgrind-kernel: exe %s liboclgrind.so\n  libs = $llvmlibs" % " ".join(kobj))
    n.append("build oclgrind: exe %s\n  libs = -ldl" % " ".join(lobj))
    mon = obj(VERIF + "/monitor/vmon.cpp")
    n.append("build libvmon.so: shlib %s liboclgrind.so\n  libs = $llvmlibs" % mon)
    n.append("build rt: phony liboclgrind-rt.so libvmon.so include/oclgrind/opencl-c-1.2-64.pch include/oclgrind/opencl-c-2.0-64.pch")
    n.append("build kernel: phony oclgrind-kernel oclgrind rt")
    for src in sorted(glob.glob(VERIF + "/harness/*.cpp")):
        name = os.path.basename(src)[:-4]
        o = obj(src)
        n.append("build %s: exe %s liboclgrind-rt.so liboclgrind.so\n  libs = $llvmlibs" % (name, o))
    _write(outdir + "/build.ninja", "\n".join(n) + "\n")


def build(variant="rel", targets=("rt",)):
    """Returns the output directory; raises BuildError (never a violation)."""
    outdir = os.path.join(BUILD, variant)
    os.makedirs(outdir, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(BUILD, variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        gen(variant, outdir)
        env = dict(os.environ)
        for k in list(env):
            if k.startswith(("OCLGRIND", "LD_", "ASAN", "UBSAN", "TSAN")):
                del env[k]
        p = subprocess.run(["ninja", "-C", outdir, "-j", str(os.cpu_count() or 8)] + list(targets),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
        if p.returncode:
            raise BuildError("build of %s failed:\n%s" % (variant, p.stdout.decode(errors="replace")[-4000:]))
    build.last_s = time.time() - t0
    return outdir


if __name__ == "__main__":
    print(build(sys.argv[1] if len(sys.argv) > 1 else "rel", sys.argv[2:] or ("kernel",)), round(build.last_s, 1), "s")
