"""Process set-up shared by the parent and the workers of a check.

Makes Hypothesis importable in the interpreter that has algotom (it is not
installed there) without letting anything else of the tooling venv shadow the
packages algotom uses, and points every cache at the run's scratch directory.
"""
import glob
import os
import sys
import zipfile

TOOL_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"
NEEDED = ["hypothesis", "_hypothesis_globals.py", "_hypothesis_ftz_detector.py",
          "sortedcontainers", "attr", "attrs"]
REPO = "/repo"


def install_hypothesis(scratch):
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    dest = os.path.join(scratch, "deps")
    if not os.path.isdir(dest):
        tmp = dest + ".%d" % os.getpid()
        os.makedirs(tmp)
        if os.path.isdir(os.path.join(TOOL_SITE, "hypothesis")):
            for name in NEEDED:
                src = os.path.join(TOOL_SITE, name)
                if os.path.exists(src):
                    os.symlink(src, os.path.join(tmp, name))
        else:
            for pat in ("hypothesis-*cp312*", "sortedcontainers-*", "attrs-*"):
                for whl in glob.glob(os.path.join(WHEELS, pat + ".whl")):
                    with zipfile.ZipFile(whl) as z:
                        z.extractall(tmp)
        try:
            os.rename(tmp, dest)
        except OSError:
            pass
    sys.path.append(dest)
    import hypothesis  # noqa: F401


def prepare(scratch):
    """Call before numpy/numba/algotom are imported."""
    os.environ["NUMBA_CACHE_DIR"] = os.path.join(scratch, "numba")
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(scratch, "hyp")
    os.environ["TMPDIR"] = scratch
    os.environ.setdefault("NUMBA_NUM_THREADS", "4")
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ.setdefault(k, "1")
    os.environ["JOBLIB_TEMP_FOLDER"] = scratch
    sys.dont_write_bytecode = True
    install_hypothesis(scratch)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
