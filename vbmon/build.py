"""Compile /repo/VolterraBasis/fkernel.f90 (the current working tree) outside /repo.

Two variants: "normal" (-O2, what a user gets) and "san" (gfortran run-time
checks -fcheck=all, AddressSanitizer, UndefinedBehaviorSanitizer, signalling
NaN in every uninitialised local real).  Results are cached by the hash of the
source, so a changed fkernel.f90 is always recompiled.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig

REPO = os.environ.get("VB_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
BUILD_DIR = os.path.join(ROOT, ".build")
PY = "/opt/venv/bin/python"
VERSION = "3"


class BuildError(Exception):
    pass


def _run(cmd, cwd):
    res = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if res.returncode != 0:
        raise BuildError("command failed: {}\n{}".format(" ".join(cmd), res.stdout[-4000:]))
    return res.stdout


def flags(variant):
    if variant == "normal":
        return ["-O2", "-g"], ["-O2", "-g"]
    san = ["-fsanitize=address,undefined", "-fno-omit-frame-pointer", "-g", "-O1"]
    # array-temps only warns about temporaries, it is not an error check
    return san + ["-fcheck=all,no-array-temps", "-finit-real=snan", "-finit-integer=-99999999"], san


def build(variant="normal"):
    """Return the path of the compiled extension for the current tree."""
    src = os.path.join(REPO, "VolterraBasis", "fkernel.f90")
    with open(src, "rb") as f:
        code = f.read()
    key = hashlib.sha256(code + variant.encode() + VERSION.encode()).hexdigest()[:20]
    out = os.path.join(BUILD_DIR, "{}-{}".format(variant, key))
    ext = sysconfig.get_config_var("EXT_SUFFIX") or ".so"
    so = os.path.join(out, "fkernel" + ext)
    if os.path.exists(so):
        return so
    os.makedirs(BUILD_DIR, exist_ok=True)
    with open(os.path.join(BUILD_DIR, "lock-" + variant), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(so):
            return so
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        with open(os.path.join(tmp, "fkernel.f90"), "wb") as f:
            f.write(code)
        _run([PY, "-m", "numpy.f2py", "fkernel.f90", "-m", "fkernel", "--lower"], tmp)
        inc = subprocess.run(
            [PY, "-c", "import numpy, numpy.f2py, sysconfig; print(numpy.get_include()); print(numpy.f2py.get_include()); print(sysconfig.get_path('include'))"],
            stdout=subprocess.PIPE, text=True, check=True).stdout.split()
        fflags, cflags = flags(variant)
        fsrc = ["fkernel.f90"]
        for extra in ("fkernel-f2pywrappers.f", "fkernel-f2pywrappers2.f90"):
            if os.path.exists(os.path.join(tmp, extra)):
                fsrc.append(extra)
        objs, procs = [], []
        # the Fortran module must exist before its wrappers are compiled
        _run(["gfortran", "-fPIC", "-c"] + fflags + ["fkernel.f90", "-o", "fkernel.o"], tmp)
        objs.append("fkernel.o")
        for extra in fsrc[1:]:
            o = extra + ".o"
            _run(["gfortran", "-fPIC", "-c"] + fflags + [extra, "-o", o], tmp)
            objs.append(o)
        cinc = ["-I" + i for i in inc]
        for c in ("fkernelmodule.c", os.path.join(inc[1], "fortranobject.c")):
            o = os.path.basename(c) + ".o"
            _run(["gcc", "-fPIC", "-w", "-c"] + cflags + cinc + [c, "-o", o], tmp)
            objs.append(o)
        _run(["gfortran", "-shared"] + [f for f in cflags if f.startswith("-fsan")] + objs + ["-llapack", "-lblas", "-o", "fkernel" + ext], tmp)
        for name in os.listdir(tmp):
            if name.endswith(".o"):
                os.remove(os.path.join(tmp, name))
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
    return so


def san_env():
    lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
    ub = subprocess.run(["gcc", "-print-file-name=libubsan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
    std = subprocess.run(["gcc", "-print-file-name=libstdc++.so.6"], stdout=subprocess.PIPE, text=True).stdout.strip()
    return {
        "LD_PRELOAD": " ".join([os.path.realpath(lib), os.path.realpath(ub), os.path.realpath(std)]),
        "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:halt_on_error=1:allocator_may_return_null=1",
        "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=1:abort_on_error=1",
    }


if __name__ == "__main__":
    for v in sys.argv[1:] or ["normal", "san"]:
        print(build(v))
