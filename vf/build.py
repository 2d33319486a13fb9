"""Builds of the tree under test.  Everything goes to <verif>/build/<variant>; /repo is
only read (the CMake build is out of tree)."""
import fcntl
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("L1C_REPO", "/repo")
BUILD = os.environ.get("L1C_VERIF_BUILD", os.path.join(VERIF, "build"))

BASE = "-march=x86-64-v3 -g -Wno-error"
PLANS = ["fftw_plan_r2r_1d", "fftw_plan_r2r_2d", "fftw_plan_r2r", "fftw_plan_many_r2r",
         "fftw_destroy_plan"]
WRAPS = ["malloc", "calloc", "realloc", "posix_memalign", "aligned_alloc", "memalign",
         "free", "reallocarray", "strdup", "strndup", "getdelim", "getline"] + PLANS
WRAPFLAGS = "-Wl," + ",".join("--wrap=" + w for w in WRAPS)
# not instrumented, so what they are handed is looked at before they get it
OPAQUE = ["cblas_" + w for w in ("dcopy", "daxpy", "daxpby", "dscal", "dswap", "ddot", "dnrm2",
                                 "dasum", "idamax", "dgemv")] + [
    "fftw_execute", "fftw_execute_r2r"]
ASANFLAGS = "-Wl," + ",".join("--wrap=" + w for w in PLANS + OPAQUE)

# variant -> (cc, cxx, cflags, shared linker flags, extra shim flags)
VARIANTS = {
    "plain": dict(cc="gcc", cxx="g++", cflags=BASE, ld="", shim=[]),
    "wrap": dict(cc="gcc", cxx="g++", cflags=BASE + " -fno-builtin-malloc", ld=WRAPFLAGS,
                 shim=["-Wl,--wrap=free,--wrap=calloc"], fault=["-O1"]),
    "asan": dict(cc="gcc", cxx="g++",
                 cflags=BASE + " -fno-omit-frame-pointer -fsanitize=address,undefined"
                 " -fno-sanitize=vptr -fno-sanitize-recover=undefined"
                 " -fsanitize-address-use-after-scope",
                 ld="-fsanitize=address,undefined " + ASANFLAGS, fault=["-DPLANONLY"],
                 shim=["-fsanitize=address,undefined", "-fno-sanitize=vptr"]),
}


class BuildError(Exception):
    pass


def _run(cmd, log, **kw):
    log.write("$ %s\n" % " ".join(cmd))
    log.flush()
    r = subprocess.run(cmd, stdout=log, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError("command failed (%d): %s; see %s"
                         % (r.returncode, " ".join(cmd), log.name))


def build(variant, targets=("l1c",), mex=False, internals=False):
    """Configure and build; returns a dict of paths."""
    v = VARIANTS[variant]
    d = os.path.join(BUILD, variant + ("-mex" if mex else ""))
    os.makedirs(d, exist_ok=True)
    lock = open(os.path.join(d, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        with open(os.path.join(d, "build.log"), "w") as log:
            cp = os.path.join(d, "conan_paths.cmake")
            txt = 'set(CMAKE_MODULE_PATH "%s" ${CMAKE_MODULE_PATH})\n' % os.path.join(
                VERIF, "cmake")
            if not os.path.exists(cp) or open(cp).read() != txt:
                open(cp, "w").write(txt)
            env = dict(os.environ, CC=v["cc"], CXX=v["cxx"])
            env.pop("LD_PRELOAD", None)
            args = ["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=",
                    "-DENABLE_MEX=" + ("ON" if mex else "OFF"),
                    "-DHAS_march_native=OFF", "-DHAS_mtune_native=OFF",
                    "-DCMAKE_C_FLAGS=" + v["cflags"], "-DCMAKE_CXX_FLAGS=" + v["cflags"],
                    "-DCMAKE_SHARED_LINKER_FLAGS=" + v["ld"],
                    "-DCMAKE_MODULE_LINKER_FLAGS=" + v["ld"],
                    "-DPython3_EXECUTABLE=/usr/bin/python3"]
            try:
                _run(args, log, env=env)
            except BuildError:
                # a stale cache (other generator, other source dir): start over
                for f in os.listdir(d):
                    if f in (".lock", "build.log"):
                        continue
                    p = os.path.join(d, f)
                    shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
                open(cp, "w").write(txt)
                _run(args, log, env=env)
            _run(["ninja", "-C", d] + list(targets), log, env=env)
            lib = os.path.join(d, "src", "libl1c.so")
            shim = os.path.join(d, "libshim.so")
            inc = ["-I", os.path.join(REPO, "include"), "-I", os.path.join(d, "include")]
            cblas_inc = _inc(d)
            tmp = shim + ".%d" % os.getpid()
            srcs = [os.path.join(VERIF, "c", "shim.c")]
            if internals:
                srcs.append(os.path.join(VERIF, "c", "shim_int.c"))
                shim = os.path.join(d, "libshim_int.so")
            _run([v["cc"], "-O1", "-g", "-fPIC", "-shared", "-std=gnu11", "-w"] + inc
                 + cblas_inc + v["shim"] + srcs + ["-o", tmp, lib,
                 "-Wl,-rpath," + os.path.dirname(lib), "-lcjson", "-lm"], log, env=env)
            os.replace(tmp, shim)
            out = dict(dir=d, lib=lib, shim=shim)
            if v.get("fault"):
                ft = os.path.join(d, "libfault.so")
                tmp = ft + ".%d" % os.getpid()
                _run([v["cc"], "-O1", "-g", "-fPIC", "-shared", "-w"] + v["fault"] + [
                      os.path.join(VERIF, "c", "fault.c"), "-o", tmp, "-lfftw3"] + (
                      ["-lopenblas"] if variant == "asan" else []),
                     log, env=env)
                os.replace(tmp, ft)
                out["fault"] = ft
                if mex:
                    _ftq(d, ft, log, env)
            return out
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def _ftq(d, ft, log, env):
    src, out = os.path.join(VERIF, "c", "ftq.c"), os.path.join(d, "ftq.mex")
    if os.path.exists(out) and os.path.getmtime(out) > os.path.getmtime(src):
        return
    inc = subprocess.run(["mkoctfile", "-p", "INCFLAGS"], capture_output=True,
                         text=True).stdout.split()
    tmp = out + ".%d" % os.getpid()
    _run(["gcc", "-O1", "-fPIC", "-shared", "-w"] + inc + [src, "-o", tmp, ft,
         "-Wl,-rpath," + d], log, env=env)
    os.replace(tmp, out)


def _inc(d):
    """Include dirs libl1c itself was compiled with (e.g. for cblas.h)."""
    import json
    out = []
    try:
        for e in json.load(open(os.path.join(d, "compile_commands.json"))):
            if e["file"].endswith("nesta.c"):
                toks = e["command"].split()
                for i, t in enumerate(toks):
                    if t.startswith("-I") and len(t) > 2:
                        out += ["-I", t[2:]]
                    elif t == "-isystem":
                        out += ["-isystem", toks[i + 1]]
                break
    except Exception:
        pass
    return out


if __name__ == "__main__":
    print(build(sys.argv[1] if len(sys.argv) > 1 else "plain"))
