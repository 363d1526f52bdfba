"""Makes Hypothesis importable next to the repository's own interpreter and
numpy.  The interpreter that has the code's dependencies (/opt/venv) has no
Hypothesis; the tooling venv has it for the same Python version, so its
site-packages go to the END of sys.path: every other package still comes
from /opt/venv."""
import sys

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
import hypothesis  # noqa: E402
from hypothesis import strategies as st  # noqa: E402,F401
from hypothesis.configuration import set_hypothesis_home_dir  # noqa: E402
