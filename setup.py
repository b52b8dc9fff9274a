#!/usr/bin/env python3
"""setup: warm the Go build cache by building the harness once, and make sure
every specification module parses."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from check import goenv, HARN, SPEC, TLAJAR, ROOT
work = os.path.join(ROOT, ".work")
os.makedirs(work, exist_ok=True)
r = subprocess.run(["go", "build", "-o", os.path.join(work, "setup-vh"), "."], cwd=HARN, env=goenv())
if r.returncode:
    sys.exit(r.returncode)
os.remove(os.path.join(work, "setup-vh"))
for f in sorted(glob.glob(os.path.join(SPEC, "*.tla"))):
    r = subprocess.run(["java", "-cp", TLAJAR, "tla2sany.SANY", f], cwd=SPEC, capture_output=True, text=True)
    if r.returncode:
        print(r.stdout, r.stderr)
        sys.exit(1)
print("setup ok")
