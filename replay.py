#!/usr/bin/env python3
"""Re-run the counterexample of a replay file against the natively compiled code of /repo."""
import concurrent.futures as cf, shutil, sys, tempfile
import run
path = sys.argv[1]
h = None
for l in open(path):
    if "harness " in l and l.startswith("#"):
        h = l.rsplit("harness ", 1)[1].strip()
d = tempfile.mkdtemp()
try:
    B = run.Build(d, "all", cf.ThreadPoolExecutor(8))
    res, err = run.run_native(B.native(h, "asan"), "".join(l for l in open(path) if not l.startswith("#")), d)
    print(res, err)
    sys.exit(0 if res and res[0][0] == "ok" else 1)
finally:
    shutil.rmtree(d, ignore_errors=True)
