"""Process set-up shared by every check.

* the code under test is imported from REPO/src (REPO = $VERIF_REPO or /repo);
* a private, empty TMPDIR is used, so that the derivative cache that the code
  keeps under the temporary directory can never hide a change of the code;
* no byte code is written, numeric libraries use one thread per process.
"""
import atexit
import os
import shutil
import sys
import tempfile
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
SRC = os.path.join(REPO, "src")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ["PYTHONPATH"] = SRC
sys.dont_write_bytecode = True

_owner = os.getpid()
SCRATCH = tempfile.mkdtemp(prefix="vf-")
os.environ["TMPDIR"] = SCRATCH
os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(SCRATCH, "hypothesis")
tempfile.tempdir = SCRATCH


def _cleanup():
    if os.getpid() == _owner:
        shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_cleanup)

if SRC not in sys.path:
    sys.path.insert(0, SRC)
for _d in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    # appended last: only used for hypothesis (and its pure-python dependencies)
    if os.path.isdir(_d) and _d not in sys.path:
        sys.path.append(_d)

warnings.filterwarnings("ignore")


class quiet:
    """Silences prints of the code under test."""

    def __enter__(self):
        self._o, self._e = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = open(os.devnull, "w")
        return self

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout, sys.stderr = self._o, self._e
        return False
