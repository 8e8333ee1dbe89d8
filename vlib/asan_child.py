"""Runs the sanitised extension on cases read from stdin (one JSON per line)."""
import json
import sys

sys.path.insert(0, sys.argv[1])
import numpy as np                                                   # noqa: E402
from violations import compute_all_violations                        # noqa: E402

out = sys.stdout
out.write("ready\n")
out.flush()
for line in sys.stdin:
    c = json.loads(line)
    A = np.ascontiguousarray(np.array(c["A"], dtype=float).reshape(c["k"], c["m"], c["n"]) / 10)
    b = np.ascontiguousarray(np.array(c["b"], dtype=float).reshape(c["k"], c["m"]) / 10)
    A0, b0 = A.copy(), b.copy()
    v = np.array(compute_all_violations(A, b))
    out.write(json.dumps(dict(inputs_unchanged=bool(np.array_equal(A, A0)
                              and np.array_equal(b, b0)), n=int(v.size))) + "\n")
    out.flush()
