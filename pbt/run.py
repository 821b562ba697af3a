"""Entry point: run.py <PROPERTY> [--tier quick|thorough] [--seed N] [--only CHECK] [--replay FILE] [--scale X].

Exit 0: the property held on everything explored.
Exit 1: a line `VIOLATION property=<id> replay=<path>` was printed.
Exit 2: the check itself could not give an answer.
"""
import glob
import os
import sys
import tempfile
import atexit
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")

# A scratch directory of our own: byte code (so a stale .pyc can never hide an edit), matplotlib's
# configuration, every file a case writes.
SCRATCH = tempfile.mkdtemp(prefix="verif-pbt-")
_OWNER = os.getpid()


def _cleanup():
    if os.getpid() == _OWNER:
        os.chdir("/")
        shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_cleanup)
sys.dont_write_bytecode = True
os.environ["MPLCONFIGDIR"] = os.path.join(SCRATCH, "mpl")
os.makedirs(os.environ["MPLCONFIGDIR"])
for _f in glob.glob(os.path.expanduser("~/.cache/matplotlib/fontlist*.json")):   # saves rebuilding the font list
    shutil.copy(_f, os.environ["MPLCONFIGDIR"])
os.environ["VERIF_SCRATCH"] = SCRATCH
os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(SCRATCH, "hyp")
os.environ.setdefault("MPLBACKEND", "Agg")


def _find_hypothesis():
    """Hypothesis is not in the project's interpreter: link it in from the tooling venv, or unpack the wheels."""
    dest = os.path.join(SCRATCH, "deps")
    os.makedirs(dest)
    src = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    names = ["hypothesis", "_hypothesis_globals.py", "_hypothesis_ftz_detector.py", "sortedcontainers", "attr", "attrs"]
    if os.path.isdir(os.path.join(src, "hypothesis")):
        for n in names:
            if os.path.exists(os.path.join(src, n)):
                os.symlink(os.path.join(src, n), os.path.join(dest, n))
    else:
        import zipfile
        for pat in ("hypothesis-*.whl", "sortedcontainers-*.whl", "attrs-*.whl"):
            for whl in glob.glob("/opt/veriftools/wheels/" + pat):
                with zipfile.ZipFile(whl) as z:
                    z.extractall(dest)
    sys.path.append(dest)


_find_hypothesis()
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

if __name__ == "__main__":
    import harness
    sys.exit(harness.main(sys.argv[1:], ROOT, REPO, SCRATCH))
