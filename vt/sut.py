"""Imports the code under test from /repo with the freshly built extension."""
import os
import sys
import warnings

REPO = os.environ.get("VT_REPO", "/repo")
EXT = os.environ["VT_EXT"]

sys.dont_write_bytecode = True
for p in (EXT, REPO):
    if p in sys.path:
        sys.path.remove(p)
# the repository root holds an in-place build of the extension; EXT goes first
sys.path[:0] = [EXT, REPO]
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if TOOLS not in sys.path:
    sys.path.append(TOOLS)

warnings.simplefilter("ignore")

import numpy as np                                            # noqa: E402
np.seterr(all="ignore")


def load():
    import spherepy as sp
    import _csphi
    got = os.path.dirname(os.path.realpath(_csphi.__file__))
    want = os.path.realpath(EXT)
    used = getattr(sp.csphi, "_csphi", _csphi)
    used = os.path.dirname(os.path.realpath(used.__file__))
    if got != want or used != want:
        raise SystemExit("HARNESS: extension from %s / %s, wanted %s"
                         % (got, used, want))
    base = os.path.realpath(os.path.join(REPO, "spherepy"))
    if not os.path.realpath(sp.__file__).startswith(base):
        raise SystemExit("HARNESS: spherepy from %s" % sp.__file__)
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    return sp
