#!/usr/bin/env python3-vt
"""tools/uatrace.py CHECK REPLAY: every datagram of a one-leg scenario (checks built on lib/uah.py)."""
import os, sys, json
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'; os.execvp('python3-vt', ['python3-vt'] + sys.argv)
sys.path[:0] = ['/verif/lib', '/verif/checks']
import boot; boot.boot(True)
import importlib, uah
mod = importlib.import_module(sys.argv[1])
case = json.load(open(sys.argv[2])); case = case.get('case', case)
class R(object):
    def cls(self, *a): pass
    nt = cls
    def __getattr__(self, n): return self.cls
last = []
g = uah.Harness.go
def go(self, *a, **k): last.append(self); return g(self, *a, **k)
uah.Harness.go = go
import core
try: mod.CHECK.parts[0].fn(case, R()) if len(sys.argv) < 4 else [p for p in mod.CHECK.parts if p.name == sys.argv[3]][0].fn(case, R())
except BaseException as e: print('=>', type(e).__name__, str(e)[:400])
h = last[0]
ev = [(d.t, '%s %s | %s' % ('  S->' if d.src == uah.STACK else 'P->  ', d.m.start, d.m.get('cseq'))) for d in h.w.log] + [(t, 'P->   %s' % x.split('\r\n')[0]) for t, x in h.ep.tx_log]
ev += [(o[0], '       . %s' % ([x for x in o[1:] if not hasattr(x, 'rtime')],)) for o in h.out] + [(o[0], '       L %s' % (o[1:],)) for o in h.local]
for t, s in sorted(ev, key = lambda e: e[0]): print('%9.4f %s' % (t, s))
