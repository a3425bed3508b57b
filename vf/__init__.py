import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import stochopy  # noqa: E402

if not os.path.realpath(stochopy.__file__).startswith(os.path.realpath(REPO) + os.sep):
    raise SystemExit("stochopy imported from %s, not from %s" % (stochopy.__file__, REPO))
