#!/usr/bin/env python3-vt
"""tools/trace.py REPLAY: every datagram of a call scenario."""
import os, sys, json, io, contextlib
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'; os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, '/verif/lib')
import boot; boot.boot(True)
import scen
c = json.load(open(sys.argv[1])); c = c.get('case', c)
with contextlib.redirect_stdout(io.StringIO()): r = scen.Run(c)
base = boot.clock.BASE
ev = []
for ep in r.callers + r.callees:
    for t, m in ep.rx_log: ev.append((t, '   -> %-4s %s | %s | %s' % (ep.name, m.start, m.get('cseq'), (m.body or '')[:0])))
    for t, m in ep.tx_log: ev.append((t, '%-4s -> %s | %s' % (ep.name, m.split('\r\n')[0], [l for l in m.split('\r\n') if l.startswith('CSeq')])))
for cl in r.calls:
    for l in [cl.leg] + [l for n, l in cl.outs]:
        for e in (l.ev if l else []): ev.append((e[0], '     . %s %s' % (l.ep.name, [x for x in e[1:] if not hasattr(x, 'start')])))
for x in r.rig.acct: ev.append((x['t'], '     ACCT %s' % [v for a, v in x['attrs'] if a in ('Acct-Status-Type', 'Acct-Session-Time', 'h323-call-origin', 'Cisco-AVPair', 'h323-disconnect-cause')]))
for x in r.rig.auth: ev.append((x['t'], '     AUTH'))
t0 = min(e[0] for e in ev)
for t, s in sorted(ev, key = lambda e: e[0]): print('%9.4f %s' % (t - t0, s))
print(r.rig.leftovers())
