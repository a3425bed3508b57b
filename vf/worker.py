"""Fresh-interpreter executor: reads configurations (JSON list) on stdin, writes their digests on stdout."""
import json
import sys
import warnings

import numpy as np

from . import digest

if __name__ == "__main__":
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    out = []
    for cfg in json.load(sys.stdin):
        try:
            out.append(digest.run_digests(cfg)[0])
        except Exception as e:
            out.append({"exception": type(e).__name__ + ": " + str(e)})
    json.dump(out, sys.stdout)
