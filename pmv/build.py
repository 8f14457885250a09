"""Scratch copy of /repo's working tree and compilation of the extensions a check needs."""
import os, shutil, subprocess, tempfile, atexit, sys

REPO = os.environ.get("PMV_REPO", "/repo")
VENV_PY = "/opt/venv/bin/python"

def clean_env():
    e = dict(os.environ)
    e.update(HOME="/root", LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONNOUSERSITE="1",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")
    e["PATH"] = "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    for k in ("CFLAGS", "LDFLAGS", "CC", "PYTHONPATH"):
        e.pop(k, None)
    return e

_scratch = None
def scratch():
    """A private copy of the package sources (no build products)."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="pmv-")
        atexit.register(shutil.rmtree, _scratch, True)
        src = os.path.join(REPO, "pmesh")
        dst = os.path.join(_scratch, "pmesh")
        gen = {"_domain.c", "_window.c", "_whitenoise.c", "_invariant.c"}
        def ignore(d, names):
            return [n for n in names if n == "__pycache__" or n == "tests" or n.endswith((".so", ".pyc", ".o")) or n in gen]
        shutil.copytree(src, dst, ignore=ignore)
    return _scratch

_BUILD = r"""
import sys, os, numpy
from setuptools import setup, Extension
names = sys.argv[1].split(','); del sys.argv[1]
inc = numpy.get_include()
gsl = ["pmesh/gsl/ranlxd.c", "pmesh/gsl/missing.c", "pmesh/gsl/rng.c"]
X = dict(
 domain=Extension("pmesh._domain", ["pmesh/_domain.pyx"], include_dirs=["./", inc]),
 window=Extension("pmesh._window", ["pmesh/_window.pyx", "pmesh/_window_imp.c"], libraries=["m"], include_dirs=["./", inc]),
 invariant=Extension("pmesh._invariant", ["pmesh/_invariant.pyx"], libraries=["m"], include_dirs=["pmesh", inc]),
 whitenoise=Extension("pmesh._whitenoise", gsl + ["pmesh/_whitenoise_imp.c", "pmesh/_whitenoise.pyx"], libraries=["m"], include_dirs=["pmesh/gsl", "pmesh", inc]),
)
ext = [X[n] for n in names]
for e in ext: e.extra_compile_args = ["-O1", "-w"]
from Cython.Build import cythonize
ext = cythonize(ext, quiet=True)
setup(name="pmesh-scratch", version="0", packages=[], ext_modules=ext, script_args=["-q", "build_ext", "--inplace", "-j", "4"])
"""

class BuildError(Exception):
    pass

def build(exts):
    """Compile the named extensions in the scratch copy; returns the scratch path."""
    d = scratch()
    exts = [x for x in exts if not any(f.startswith("_%s." % x) and f.endswith(".so") for f in os.listdir(os.path.join(d, "pmesh")))]
    if exts:
        with open(os.path.join(d, "pmv_build.py"), "w") as f:
            f.write(_BUILD)
        r = subprocess.run([VENV_PY, "pmv_build.py", ",".join(exts)], cwd=d, env=clean_env(), capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError(r.stdout[-2000:] + r.stderr[-4000:])
    return d
