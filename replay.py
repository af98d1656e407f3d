#!/usr/bin/env python3
"""Re-run a counterexample file written by check.py against /repo's current tree."""
import json, os, shutil, sys, tempfile
import check
r = json.load(open(sys.argv[1]))
work = tempfile.mkdtemp()
try:
    check.build(work)
    for prof in ('dev', 'rel'):
        print(prof, check.native(work, prof, r['entry'], r['args'], [x[1] for x in r['inputs']]))
finally:
    shutil.rmtree(work)
