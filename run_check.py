#!/usr/bin/env python3
"""Usage: run_check.py <PROPERTY-ID> [--thorough] [--sub=NAME] [--replay FILE]"""
import glob
import importlib
import os
import sys
import tempfile
import zipfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"

ENV = {
    "MPLBACKEND": "Agg",
    "JAX_PLATFORMS": "cpu",
    "CUDA_VISIBLE_DEVICES": "",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "2",
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "TF_CPP_MIN_LOG_LEVEL": "3",
}


def reexec():
    if os.environ.get("VERIF_REEXEC") == "1":
        return
    env = dict(os.environ)
    env.update(ENV)
    env["VERIF_REEXEC"] = "1"
    env["PYTHONPATH"] = env.get("VERIF_REPO", "/repo")
    exe = PY if os.path.exists(PY) else sys.executable
    os.execve(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:], env)


def find_hypothesis():
    for cand in (os.path.join(HERE, ".deps"),):
        if os.path.isdir(os.path.join(cand, "hypothesis")):
            sys.path.append(cand)
            try:
                import hypothesis  # noqa: F401

                return None
            except ImportError:
                sys.path.remove(cand)
    tmp = tempfile.mkdtemp(prefix="verif_deps_")
    for w in glob.glob(os.path.join(HERE, "vendor", "*.whl")):
        zipfile.ZipFile(w).extractall(tmp)
    sys.path.append(tmp)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        sys.path[-1] = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
        import hypothesis  # noqa: F401
    return tmp


def main():
    reexec()
    mpl = tempfile.mkdtemp(prefix="verif_mpl_")
    os.environ["MPLCONFIGDIR"] = mpl
    sys.path.insert(0, HERE)
    deps = None
    try:
        deps = find_hypothesis()
        import warnings

        warnings.simplefilter("ignore")
        import torch

        torch.set_num_threads(1)
        import drdmannturb

        repo = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
        if not os.path.realpath(drdmannturb.__file__).startswith(repo + os.sep):
            print("package does not come from " + repo, file=sys.stderr)
            return 2
        from vlib import harness

        mod = importlib.import_module("checks." + sys.argv[1].lower())
        return harness.main(mod, sys.argv[2:])
    finally:
        import shutil

        shutil.rmtree(mpl, ignore_errors=True)
        if deps:
            shutil.rmtree(deps, ignore_errors=True)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
