"""Builds the real sources of /repo's working tree in several variants.

Objects are cached by a hash of (source, all headers that could be included, flags), so a check
rebuilds exactly when something it depends on changed.  Nothing is written in /repo.
"""
import concurrent.futures as cf
import glob
import hashlib
import os
import subprocess
import sys
import sysconfig
import time

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD_DIR", os.path.join(VERIF, ".build"))
LIBSRC = REPO + "/libsymmetrix/source"
BINDSRC = REPO + "/symmetrix/source/cpp"
PYPKG = REPO + "/symmetrix/source/symmetrix"
PAIRSRC = REPO + "/pair_symmetrix"
STANDINS = VERIF + "/standins"
HARNESS = VERIF + "/harness"

EXT = sysconfig.get_config_var("EXT_SUFFIX")


class BuildError(Exception):
    pass


def _pyinc():
    inc = [sysconfig.get_paths()["include"]]
    out = subprocess.run(["python3", "-c", "import pybind11;print(pybind11.get_include())"],
                         capture_output=True, text=True)
    if out.returncode == 0:
        inc.append(out.stdout.strip())
    return inc


# ---------------------------------------------------------------- flags
MARCH = "-march=x86-64-v3"
FLAVOURS = {
    # as the project builds it
    "rel": dict(lib=["-O3", "-DNDEBUG", MARCH, "-ffast-math"], bind=["-O1", "-DNDEBUG"], link=[], cblas=False),
    # strict arithmetic, no optimisation-dependent behaviour
    "asan": dict(lib=["-O1", "-g1", MARCH, "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                      "-fno-sanitize-recover=all", "-D_GLIBCXX_SANITIZE_VECTOR", "-D_GLIBCXX_ASSERTIONS"],
                 bind=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                       "-fno-sanitize-recover=all", "-fno-sanitize=vptr", "-D_GLIBCXX_SANITIZE_VECTOR", "-D_GLIBCXX_ASSERTIONS"],
                 link=["-fsanitize=address,undefined"], cblas=True),
    "tsan": dict(lib=["-O1", "-g1", MARCH, "-fno-omit-frame-pointer", "-fsanitize=thread"],
                 bind=["-O1", "-g1", "-fsanitize=thread"], link=["-fsanitize=thread"], cblas=True),
    # for valgrind: no AVX-512/AVX2 needed, no sanitizer
    "vg": dict(lib=["-O1", "-g1", "-march=x86-64-v2"], bind=["-O1", "-g1"], link=[], cblas=True),
}


def h(*parts):
    m = hashlib.sha256()
    for x in parts:
        m.update(x if isinstance(x, bytes) else str(x).encode())
        m.update(b"\0")
    return m.hexdigest()[:20]


def _read(f):
    with open(f, "rb") as fh:
        return fh.read()


def _header_digest(dirs):
    parts = []
    for d in dirs:
        for f in sorted(glob.glob(d + "/**/*.h", recursive=True) + glob.glob(d + "/**/*.hpp", recursive=True)):
            if "/external/" in f[len(d):] and d.startswith(REPO):
                continue
            parts.append(f)
            parts.append(_read(f))
    return h(*parts)


def _compile(job):
    src, flags, obj = job
    if os.path.exists(obj):
        return src, 0, "", 0.0
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".tmp%d" % os.getpid()
    t = time.time()
    r = subprocess.run(["g++", "-std=c++20", "-fPIC", "-w", *flags, "-c", src, "-o", tmp],
                       capture_output=True, text=True)
    if r.returncode == 0:
        os.replace(tmp, obj)
    return src, r.returncode, r.stderr, time.time() - t


def plan_objs(sources, flags, incs):
    """-> list of (source, flags, object path)"""
    hd = _header_digest(incs)
    todo = []
    for s in sources:
        key = h(s, _read(s), hd, flags)
        obj = f"{BUILD}/obj/{os.path.basename(s)}.{key}.o"
        todo.append((s, flags + ["-I" + i for i in incs], obj))
    return todo


def make_objs(todo, jobs=8):
    # biggest sources first
    order = sorted(todo, key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(jobs) as ex:
        for src, rc, err, dt in ex.map(_compile, order):
            if rc != 0:
                raise BuildError(f"compiling {src} failed:\n{err[:6000]}")
    return [j[2] for j in todo]


def compile_objs(sources, flags, incs):
    return make_objs(plan_objs(sources, flags, incs))


def link(objs, out, extra, shared):
    key = h(sorted(objs), extra, shared)
    stamp = out + ".key"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cmd = ["g++"] + (["-shared"] if shared else []) + objs + ["-o", out + ".tmp"] + extra
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError(f"linking {out} failed:\n{r.stderr[:6000]}")
    os.replace(out + ".tmp", out)
    with open(stamp, "w") as f:
        f.write(key)
    return out


def _base(f):
    return os.path.basename(f)


NOT_CORE = {"mace.cpp", "spherical_harmonic.cpp"}


def lib_sources(part):
    allf = sorted(glob.glob(LIBSRC + "/*.cpp"))
    serial = [f for f in allf if not f.endswith("_kokkos.cpp")]
    if part == "core":
        return [f for f in serial if _base(f) not in NOT_CORE]
    if part == "mace":
        return serial
    if part == "kokkos":
        return allf
    raise ValueError(part)


def bind_sources(part):
    allf = sorted(glob.glob(BINDSRC + "/*.cpp"))
    serial = [f for f in allf if not f.endswith("_kokkos.cpp")]
    if part == "core":
        return [f for f in serial if _base(f) not in NOT_CORE]
    if part == "mace":
        return serial
    return allf


def incs_for(part):
    inc = [LIBSRC, STANDINS + "/cblas/source"]
    if part != "core":
        inc.append(STANDINS + "/sphericart")
    if part == "kokkos":
        inc.append(STANDINS + "/kokkos")
    return inc


def lib_plan(part, flavour, extra_flags=()):
    fl = FLAVOURS[flavour]
    todo = plan_objs(lib_sources(part), fl["lib"] + list(extra_flags), incs_for(part))
    if fl["cblas"]:
        todo += plan_objs([STANDINS + "/cblas/minicblas.cpp"],
                          [f for f in fl["lib"] if f != "-ffast-math"], [STANDINS + "/cblas"])
    return todo


def blas_link(flavour):
    return ["-lopenblas"]


def module(part, flavour, vh=False):
    """Python package 'symmetrix' (the real Python files + the bindings built here).
    Returns the directory to put on PYTHONPATH."""
    fl = FLAVOURS[flavour]
    extra = ["-DSYMMETRIX_KOKKOS"] if part == "kokkos" else []
    inc = incs_for(part) + _pyinc()
    bsrc = bind_sources(part)
    if part == "core":
        bsrc = bsrc + [HARNESS + "/left_out.cpp"]
    lplan = lib_plan(part, flavour)
    bplan = plan_objs(bsrc, fl["bind"] + extra + ["-fvisibility=hidden"], inc)
    hplan = plan_objs([HARNESS + ("/vh_kokkos.cpp" if part == "kokkos" else "/vh_core.cpp")], fl["bind"] + ["-fvisibility=hidden"], inc) if vh else []
    make_objs(lplan + bplan + hplan)
    root = f"{BUILD}/pkg-{part}-{flavour}"
    out = f"{root}/symmetrix/symmetrix{EXT}"
    tail = fl["link"] + blas_link(flavour) + ["-lpthread"]
    link([j[2] for j in lplan + bplan], out, tail, True)
    if vh:  # harness module with the calls that have no binding
        link([j[2] for j in lplan + hplan], f"{root}/vh{EXT}", tail, True)
    # the package's own Python files, linked so that they are always the current ones
    for f in glob.glob(PYPKG + "/*"):
        if _base(f) == "__pycache__":
            continue
        dst = f"{root}/symmetrix/{_base(f)}"
        if not os.path.lexists(dst):
            os.symlink(f, dst)
    for dst in glob.glob(f"{root}/symmetrix/*"):
        if os.path.islink(dst) and not os.path.exists(dst):
            os.unlink(dst)
    return root


def lammps(part, flavour):
    """module 'vl': the real pair styles of the tree on the stand-in for LAMMPS, next to the package"""
    root = module(part, flavour)
    fl = FLAVOURS[flavour]
    extra = ["-DSYMMETRIX_KOKKOS"] if part == "kokkos" else []
    inc = [PAIRSRC, STANDINS + "/lammps"] + incs_for(part)
    src = [PAIRSRC + "/pair_symmetrix_mace.cpp"] + ([PAIRSRC + "/pair_symmetrix_mace_kokkos.cpp"] if part == "kokkos" else [])
    lplan = lib_plan(part, flavour)
    pplan = plan_objs(src, fl["lib"] + extra, inc)
    hplan = plan_objs([HARNESS + "/vh_lammps.cpp"], fl["bind"] + extra + ["-fvisibility=hidden"], inc + _pyinc())
    make_objs(lplan + pplan + hplan)
    link([j[2] for j in lplan + pplan + hplan], f"{root}/vl{EXT}", fl["link"] + blas_link(flavour) + ["-lpthread"], True)
    return root


def program(name, part, flavour, sources, extra_inc=(), extra_flags=(), libs=(), lib_flags=()):
    fl = FLAVOURS[flavour]
    inc = list(extra_inc) + incs_for(part)
    lplan = lib_plan(part, flavour, lib_flags)
    pplan = plan_objs([s if s.startswith("/") else HARNESS + "/" + s for s in sources],
                      fl["bind"] + list(extra_flags), inc)
    make_objs(lplan + pplan)
    return link([j[2] for j in lplan + pplan], f"{BUILD}/bin/{name}-{part}-{flavour}",
                fl["link"] + blas_link(flavour) + ["-lpthread"] + list(libs), False)


_lib_cache = {}


def sanlib(name):
    if name not in _lib_cache:
        p = subprocess.run(["g++", f"-print-file-name={name}"], capture_output=True, text=True).stdout.strip()
        _lib_cache[name] = os.path.realpath(p)
    return _lib_cache[name]


def env_for(flavour, pkgroot=None):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONHASHSEED="0",
             PYTHONWARNINGS="ignore")
    e["PYTHONPATH"] = os.pathsep.join(([pkgroot] if pkgroot else []) + [VERIF])
    if flavour == "asan":
        e["LD_PRELOAD"] = sanlib("libasan.so") + " " + sanlib("libstdc++.so")
        e["PYTHONMALLOC"] = "malloc"
        e["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0"
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
    if flavour == "tsan":
        e["LD_PRELOAD"] = sanlib("libtsan.so") + " " + sanlib("libstdc++.so")
        e["TSAN_OPTIONS"] = "halt_on_error=1:second_deadlock_stack=1:history_size=4"
    return e
