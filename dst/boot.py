"""Import this first: installs the simulated ray, then imports verse from /repo."""
import builtins
import io
import os
import sys
import warnings

REPO = os.environ.get("VERSE_REPO", "/repo")
for k, v in dict(MPLBACKEND="Agg", PLOTLY_RENDERER="json", QT_QPA_PLATFORM="offscreen", PYVISTA_OFF_SCREEN="true",
                 RAY_USAGE_STATS_ENABLED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", BROWSER="/bin/true").items():
    os.environ.setdefault(k, v)
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
from . import fakeray

RAY = fakeray.install()


class Null(io.TextIOBase):
    def write(self, s):
        return len(s)


_out = sys.stdout
_err = sys.stderr
sys.stdout = Null()
try:
    import verse
finally:
    sys.stdout = _out
assert os.path.realpath(verse.__file__).startswith(os.path.realpath(REPO) + os.sep), verse.__file__
warnings.simplefilter("ignore")
