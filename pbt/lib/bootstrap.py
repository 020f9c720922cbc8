"""Interpreter set-up shared by every entry point: environment, import paths, scratch directories."""
import importlib.abc
import importlib.machinery
import os
import sys
import tempfile

REPO = os.environ.get("PBT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
PYTHON = "/opt/venv/bin/python"
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
EXPOSED = {"hypothesis", "_hypothesis_globals", "_hypothesis_ftz_detector", "sortedcontainers", "attr", "attrs"}


class _Finder(importlib.abc.MetaPathFinder):
    """Exposes only the generator library of the verification venv (numpy etc. stay those of /opt/venv)."""

    def find_spec(self, name, path=None, target=None):
        if path is None and name in EXPOSED:
            return importlib.machinery.PathFinder.find_spec(name, [VT_SITE])
        return None


def reexec():
    """Re-executes the program with the project's interpreter and a clean, fixed environment."""
    if os.environ.get("PBT_READY") == "1":
        return
    scratch = tempfile.mkdtemp(prefix="pbt.")
    os.chmod(scratch, 0o755)
    home = os.path.join(scratch, "home")
    os.mkdir(home)
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "LANG", "VERIF_SEED", "VERIF_TIER") or k.startswith("PBT_")}
    env.update(PBT_READY="1", PBT_SCRATCH=scratch, HOME=home, TMPDIR=scratch, PYTHONDONTWRITEBYTECODE="1",
               PYTHONPATH=REPO, PYTHONHASHSEED="0", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
               MKL_NUM_THREADS="1", PYTHONUTF8="1", LC_ALL="C.UTF-8", HYPOTHESIS_NO_PLUGINS="1", PYTHONWARNINGS="ignore", TQDM_DISABLE="1")
    os.execve(PYTHON, [PYTHON] + sys.argv, env)


def install():
    sys.meta_path.append(_Finder())
    sys.dont_write_bytecode = True
