"""Process set-up shared by every check: import the code under test from the
current /repo working tree, keep every side effect in a private scratch folder."""
import atexit
import logging
import os
import shutil
import sys
import tempfile
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.pop("TTP_TEMPLATES_DIR", None)

SCRATCH = tempfile.mkdtemp(prefix="ttpmc.")
_owner = os.getpid()
os.environ["TTPCACHEFOLDER"] = os.path.join(SCRATCH, "cache")
os.makedirs(os.environ["TTPCACHEFOLDER"], exist_ok=True)


def _cleanup():
    if os.getpid() == _owner:
        shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_cleanup)


def import_ttp():
    """import ttp from the working tree, whatever else is installed"""
    for name in [m for m in sys.modules if m == "ttp" or m.startswith("ttp.")]:
        del sys.modules[name]
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    # scratch stays the working directory so that nothing relative escapes
    os.chdir(SCRATCH)
    import ttp as mod

    path = os.path.realpath(mod.__file__)
    assert path.startswith(os.path.realpath(REPO) + os.sep), path
    logging.disable(logging.CRITICAL)
    return mod
