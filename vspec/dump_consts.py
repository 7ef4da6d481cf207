"""Constants of the installed scipy, as exact decimal texts."""
import json
import sys
import scipy.constants as sc

out = {k: [repr(float(v[0])), v[1], repr(float(v[2]))] for k, v in sc.physical_constants.items()}
for n in dir(sc):
    v = getattr(sc, n)
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        out["." + n] = repr(float(v))
json.dump(out, open(sys.argv[1], "w"))
