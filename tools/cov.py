#!/usr/bin/env python3-vt
"""tools/cov.py ID N FILE...: line coverage of sippy files by N generated cases of check ID (one process)."""
import os, sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'; os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, '/verif/lib'); sys.path.insert(0, '/verif/checks')
import coverage, io, contextlib
ID, N, files = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
cov = coverage.Coverage(source = ['/repo/sippy'], data_file = None, branch = False)
cov.start()
import boot
boot.boot(True)
import importlib, core
m = importlib.import_module(ID.lower())
from hypothesis import given, settings, HealthCheck, seed
for p in m.CHECK.parts:
    @seed(7)
    @settings(max_examples = N, deadline = None, database = None, suppress_health_check = list(HealthCheck))
    @given(p.strategy())
    def t(case):
        try:
            with contextlib.redirect_stdout(io.StringIO()): p.fn(case, core.Rec())
        except (core.Violation, core.Inconclusive): pass
    t()
cov.stop()
for f in files:
    a = cov.analysis2('/repo/sippy/' + f)
    print('%-34s %3d%% missing: %s' % (f, 100 - 100 * len(a[3]) // max(1, len(a[1])), a[4]))
