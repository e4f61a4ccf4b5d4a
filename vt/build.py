"""Builds the native extension from /repo's working tree into a scratch
directory and returns that directory (which goes first on sys.path)."""
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get("VT_REPO", "/repo")
SRC = os.path.join(REPO, "src")
UNITS = ["csphi.c", "kiss_fft.c", "csphi_wrap.c"]


class BuildError(Exception):
    pass


def numpy_include():
    import numpy
    return numpy.get_include()


def _run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))


def c_sources():
    # every C file of src/, so that a file the build gains is found too
    names = sorted(f for f in os.listdir(SRC) if f.endswith(".c"))
    return [f for f in names if f != "csphi_wrap.c"] + ["csphi_wrap.c"]


def build(outdir, sanitize=False):
    """Compile in parallel, link to outdir/_csphi.so."""
    inc = ["-I" + SRC, "-I" + sysconfig.get_paths()["include"],
           "-I" + numpy_include()]
    if sanitize:
        flags = ["-O1", "-g", "-fno-omit-frame-pointer",
                 "-fsanitize=address,undefined",
                 "-fno-sanitize-recover=undefined",
                 "-fno-sanitize=function"]
        # 'function' is clang only; drop it for gcc
        flags = [f for f in flags if f != "-fno-sanitize=function"]
        link = ["-fsanitize=address,undefined"]
    else:
        flags = ["-O2", "-fno-strict-aliasing"]
        link = []
    os.makedirs(outdir, exist_ok=True)
    objs, procs = [], []
    for f in c_sources():
        o = os.path.join(outdir, f[:-2] + ".o")
        objs.append(o)
        fl = list(flags)
        if sanitize and f == "csphi_wrap.c":
            fl = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address"]
        cmd = ["gcc", "-fPIC", "-w", "-DNDEBUG"] + fl + inc + \
              ["-c", os.path.join(SRC, f), "-o", o]
        procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE,
                                            stderr=subprocess.STDOUT,
                                            text=True)))
    for cmd, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            raise BuildError("%s\n%s" % (" ".join(cmd), out[-4000:]))
    so = os.path.join(outdir, "_csphi.so")
    _run(["gcc", "-shared"] + link + objs + ["-o", so, "-lm"], outdir)
    for o in objs:
        os.unlink(o)
    return outdir


def asan_runtime():
    p = subprocess.run(["gcc", "-print-file-name=libasan.so"],
                       stdout=subprocess.PIPE, text=True)
    a = os.path.realpath(p.stdout.strip())
    p = subprocess.run(["gcc", "-print-file-name=libubsan.so"],
                       stdout=subprocess.PIPE, text=True)
    u = os.path.realpath(p.stdout.strip())
    return a, u


if __name__ == "__main__":
    d = tempfile.mkdtemp(prefix="vt_build_")
    try:
        build(d, sanitize="asan" in sys.argv)
        print("built", os.listdir(d))
    finally:
        shutil.rmtree(d)
