#!/usr/bin/env python3
"""Prepares what all checks share (they do it themselves if it is missing)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from suites import CHECKS, CORE, SUITES
from concurrent.futures import ThreadPoolExecutor
names = []
for c in CHECKS.values():
    for r in c['runs']:
        for s in r['suites']:
            if s not in names: names.append(s)
with ThreadPoolExecutor(9) as ex:
    fs = [ex.submit(check.suite, n) for n in names]
    bs = [ex.submit(check.build, b) for b in CORE]
    ms = [ex.submit(check.model, m, {}) for m in sorted({m for c in CHECKS.values() for m in c.get('models', [])})]
    for f in fs + ms: f.result()
    for f in bs:
        try: f.result()
        except check.BuildFailure as e: print(e)
print('ready: %d state graphs, %d programs' % (len(fs), len(bs)))
