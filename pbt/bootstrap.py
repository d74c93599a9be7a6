"""Make Hypothesis importable next to /repo's own interpreter, and spgrep importable from /repo/src.

The package under test runs in /opt/venv (numpy 1.26, spglib 2.4).  Hypothesis lives in the
verification tooling venv, built for the same Python 3.12; only Hypothesis and its pure
dependencies are taken from there, so that numpy and spglib stay the ones of /opt/venv.
"""

import importlib.machinery
import sys
import warnings

TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
ALLOWED = {"hypothesis", "sortedcontainers", "_hypothesis_ftz_detector", "_hypothesis_globals", "attr", "attrs"}
REPO_SRC = "/repo/src"


class _ToolFinder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name.split(".")[0] not in ALLOWED:
            return None
        return importlib.machinery.PathFinder.find_spec(name, path if path is not None else [TOOLS], target)


def setup():
    sys.meta_path.append(_ToolFinder)
    if REPO_SRC in sys.path:
        sys.path.remove(REPO_SRC)
    sys.path.insert(0, REPO_SRC)
    warnings.filterwarnings("ignore")
    import spgrep

    if not spgrep.__file__.startswith(REPO_SRC):
        raise RuntimeError(f"spgrep imported from {spgrep.__file__}")
