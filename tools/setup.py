#!/usr/bin/env python3
"""Setup: nothing is built ahead of time; check that the toolchain is there."""
import os
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness'))
sys.dont_write_bytecode = True
import common  # noqa: E402

for m in sorted(f for f in os.listdir(common.SPEC) if f.endswith('.tla')):
    p = subprocess.run(['java', '-cp', common.TLA_CP, 'tla2sany.SANY', m], cwd=common.SPEC,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or 'Error' in p.stdout and 'Errors: 0' not in p.stdout:
        print(p.stdout[-2000:])
        sys.exit(1)
print('specifications parsed')
subprocess.run([common.PY, '-c', 'import numpy, sqlite3, simplekml'], check=True)
