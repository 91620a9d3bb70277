"""Import pycaption from /repo's working tree into this process.

PYCAPTION_REPO names another tree; only the tools that mutate scratch copies set it, never a registered check."""
import os
import sys
sys.dont_write_bytecode = True
REPO = os.environ.get("PYCAPTION_REPO", "/repo")
if REPO not in sys.path[:1]:
    sys.path.insert(0, REPO)
_site = "/opt/venv/lib/python3.12/site-packages"
if _site not in sys.path:
    sys.path.append(_site)
import pycaption                                        # noqa: E402
assert os.path.realpath(pycaption.__file__).startswith(os.path.realpath(REPO) + "/pycaption/"), pycaption.__file__
