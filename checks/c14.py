"""C14: accounting records against what happened on the wire."""
import calendar, time as _time
from core import Check, Part, Violation
from hypothesis import strategies as st
import scen, model
from boot import clock
from sim import STACK
from c12 import V, ends, up_at, vanished

L = model.L
# ITU-T Q.850 cause (hex) for a SIP failure code, RFC 3398 as tabulated by the billing documentation
CAUSE = {400: '7f', 401: '39', 402: '15', 403: '39', 404: '1', 405: '7f', 406: '7f', 407: '15', 408: '66', 410: '1', 480: '12', 481: '7f', 482: '7f', 483: '7f', 484: '1c', 485: '1', 486: '11', 487: '12', 488: '7f',
  500: '29', 501: '4f', 502: '26', 503: '3f', 504: '66', 505: '7f', 600: '11', 603: '15', 604: '1', 606: '3a'}
DAYS = ('Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun')
MON = ('Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec')

class Bad(Exception): pass

def h323(s):
    """Independent reader of 'HH:MM:SS.mmm GMT Day Mon D YYYY'."""
    p = s.split()
    if len(p) != 6 or p[1] != 'GMT' or p[0][8] != '.' or len(p[0]) != 12: V('format', 'time %r', s)
    d = (int(p[5]), MON.index(p[3]) + 1, int(p[4]), int(p[0][:2]), int(p[0][3:5]), int(p[0][6:8]))
    if str(int(p[4])) != p[4]: V('format', 'day of month in %r', s)
    t = calendar.timegm(d + (0, 0, 0))
    if DAYS[_time.gmtime(t).tm_wday] != p[2]: V('format', 'day of week in %r', s)
    return t + int(p[0][9:]) / 1000.0

class Rec(object):
    def __init__(self, r, x):
        a = self.a = {}
        for k, v in x['attrs']:
            if k == 'Cisco-AVPair' and '=' in v:
                k, v = v.split('=', 1)
            elif k.startswith('h323-') and v.startswith(k + '='): v = v[len(k) + 1:]
            if k in a and k != 'h323-ivr-out': V('dup-attr', 'attribute %s twice', k)
            a[k] = v
        self.t = x['t']
        self.type, self.side, self.cid = a['Acct-Status-Type'], a['h323-call-origin'], a['call-id']
        base = clock.REAL + r.w.t0
        f = lambda k: h323(a[k]) - base if k in a else None
        self.setup, self.conn, self.disc = f('h323-setup-time'), f('h323-connect-time'), f('h323-disconnect-time')
        self.dur = int(a['Acct-Session-Time']) if 'Acct-Session-Time' in a else None
        self.cause, self.rel = a.get('h323-disconnect-cause'), a.get('release-source')

def near(a, b, tol): return abs(a - b) <= tol

def run(case, rec):
    r = scen.Run(case)
    r.w.check_exceptions()
    cf = case['conf']
    tol = 0.006 if cf['precise'] else 1.0      # whole seconds: each figure is rounded on its own
    recs = [Rec(r, x) for x in r.rig.acct]
    if cf['acct'] == 0 and recs: V('off', 'accounting record although accounting is off')
    if cf['acct'] == 0: return
    loss = r.lossy
    known = set(c.cid for c in r.calls)
    for x in recs:
        if x.cid not in known: V('callid', 'record for unknown call %r', x.cid)
        if x.type not in ('Start', 'Stop', 'Alive'): V('type', 'record type %r', x.type)
        if x.type == 'Start' and cf['acct'] != 2: V('start', 'Start although not enabled')
    for cl in r.calls:
        if cl.leg is None: continue
        mine = [x for x in recs if x.cid == cl.cid]
        A = cl.leg.ev[0][0] if cl.leg.ev else cl.c['start'] + L
        ans = [x for x in mine if x.side == 'answer']
        org = [x for x in mine if x.side == 'originate']
        if len(ans) + len(org) != len(mine): V('side', 'record of neither leg')
        check_answer(r, cl, ans, tol, loss, rec)
        check_orig(r, cl, org, tol, loss, rec)
        if cl.outs: rec.nt()

def order(recs, what, alive):
    """Start, Alive ..., Stop of one leg."""
    ty = [x.type for x in recs]
    if ty.count('Stop') > 1: V('stop-twice', '%d Stop records for one %s leg', ty.count('Stop'), what)
    if ty.count('Start') > 1: V('start-twice', '%d Start records for one %s leg', ty.count('Start'), what)
    if 'Stop' in ty and ty[-1] != 'Stop': V('after-stop', '%s record after Stop', ty[-1])
    if 'Start' in ty and ty[0] != 'Start': V('start-late', 'Start is not the first record')
    if alive is None and 'Alive' in ty: V('alive', 'Alive record although not enabled')

def times(x, setup, conn, disc, tol, what):
    if not near(x.setup, setup, tol): V('setup-time', '%s: setup time %.3f instead of %.3f', what, x.setup, setup)
    if conn is not None and not near(x.conn, conn, tol if tol < 1 else 1.51): V('connect-time', '%s %s: connect time %.3f instead of %.3f', what, x.type, x.conn, conn)
    if x.type == 'Stop' and disc is not None:
        if not near(x.disc, disc, tol if tol < 1 else 2.02): V('disc-time', '%s: disconnect time %.3f instead of %.3f', what, x.disc, disc)
        want = 0 if conn is None else disc - conn
        if abs(x.dur - want) > 0.52: V('duration', '%s: session time %d, call lasted %.3f', what, x.dur, want)

def released(cl):
    """(time at the b2bua, by whom) of the end of the answered call as the wire shows it; None where it does not."""
    L_ = cl.leg
    c = []
    legs = [('2', L_)] + [('4', answered(cl)[1])]
    for who, l in legs:
        c += [(e[0] - L, who) for e in l.got('refer-final') if e[2] == 202]       # a transfer ends the leg as well
        c += [(e[0] + L, 'x') for e in l.got('reinv-answer-tx') if e[2] in (408, 481)]
        c += [(e[0] + L, who) for e in l.got('bye-tx') if not l.got('noack')] + [(e[0] - L, None) for e in l.got('bye')]
    byes = [x[0] for x in c if x[1] != 'x']
    odd = [x for x in c if x[1] == 'x' and any(near(x[0], b, 0.0015) for b in byes)]
    c = odd + [x for x in c if x[1] != 'x']
    if not c: return None
    t = min(x[0] for x in c)
    who = [w for x, w in c if near(x, t, 0.0015)]
    w = [x for x in who if x is not None]
    for x, l in legs:                       # a re-INVITE left without an answer: whose fault is a matter of taste
        if any(t - q[0] > 30 and not any(q[0] <= z[0] < q[0] + 30 for z in l.got('reinv-answer-tx')) for q in l.got('reinv')): return t, None
    if len(set(w)) > 1 or 'x' in w: return t, None
    return t, w[0] if w else '8'

def answered(cl):
    """The callee leg the caller was connected to."""
    f = cl.leg.got('final')
    if not f or f[0][2] >= 300: return None
    p = [(n, l) for n, l in cl.outs if any(x[2] == f[0][2] and x[3] == f[0][3] for x in l.got('answer-tx'))]
    return p[0] if len(p) == 1 else None

def refused(r, cl):
    return r.conf['mode'] == 'radius' and not cl.c['aaa']['ok']

def late(cl): return cl.leg.inv.body == ''

def check_answer(r, cl, recs, tol, loss, rec):
    order(recs, 'incoming', r.conf['alive'])
    stops = [x for x in recs if x.type == 'Stop']
    starts = [x for x in recs if x.type == 'Start']
    lg = cl.leg
    f = lg.got('final')
    if refused(r, cl):
        if recs: V('refused', 'accounting record for a refused call')
        return
    if loss: return
    A = cl.c['start'] + L
    x = cl.c['aaa']
    early = r.conf['mode'] == 'radius' and f and f[0][0] - L < A + x['d'] - 0.0001
    if not early and len(stops) != 1: V('stop-missing', '%d Stop records for the incoming leg', len(stops))
    if early:
        rec.cls('ended before authorisation')
        return
    s = stops[0]
    ab = answered(cl)
    if vanished(lg) is not None and not f: return
    if f and f[0][2] < 300 and f[0][4] is not None:
        if ab is None: return
        rl = released(cl)
        up = f[0][0] - L
        if late(cl):
            if vanished(lg) is not None and vanished(lg) < f[0][0] + 0.001: return
            up = f[0][0] + L if f[0][3] else up     # counted from the ACK that completes the offer/answer
        if rl is None or (rl[0] < up): return
        if vanished(lg) is not None and vanished(ab[1]) is not None: return
        if not starts and r.conf['acct'] == 2: V('start-missing', 'no Start for an answered incoming leg')
        for z in starts + [s]: times(z, A, up, rl[0], tol, 'incoming')
        if s.cause not in ('10', '0') : V('cause', 'answered call ended with cause %r', s.cause)
        if not (vanished(lg) is not None or vanished(ab[1]) is not None) and rl[1] is not None and not any(near(rl[0], t, 0.02) for t, o in cl.op) and s.rel != rl[1]:
            V('release', 'incoming: released by %r, %s did it', s.rel, {'2': 'the caller', '4': 'the callee', '8': 'neither party'}[rl[1]])
        rec.cls('incoming answered')
        alive(r, [z for z in recs if z.type == 'Alive'], up, rl[0], A, tol, rec)
        return
    if starts: V('start-unanswered', 'Start for an unanswered incoming leg')
    if s.dur != 0: V('duration', 'unanswered incoming leg with session time %d', s.dur)
    if r.conf['mode'] != 'radius': return
    p = model.predict(r.case, cl)
    if p['tie']: return
    t, how, code = p['final']
    if how == 'answer' or (how == 'end' and lg.ep.dead): return
    times(s, A, None, t, tol, 'incoming unanswered')
    if how in ('fail', 'refused', 'noroute', 'hops'):
        want = CAUSE.get(code, '7f')
        if s.cause != want: V('cause', 'call failed with %r, cause is %r instead of %r', code, s.cause, want)
    if how == 'redirect':
        if s.cause not in ('0', '10'): V('cause', 'redirected call has cause %r', s.cause)
    rels = {'cancel': '2', 'expire': '28', 'op': '8', 'end': '28', 'refused': '8', 'noroute': '8', 'hops': '8', 'fail': '4' if code != 408 else '48', 'redirect': '4', 'timer': '8', 'group': '8'}[how]
    if s.rel not in rels: V('release', 'incoming unanswered (%s %r): released by %r', how, code, s.rel)
    rec.cls('incoming:' + how)

def alive(r, al, up, down, setup, tol, rec):
    iv = r.conf['alive']
    if iv is None or iv <= 0: return
    want = int((down - up) / iv)
    if abs((down - up) / iv - round((down - up) / iv)) < 0.01: return
    if len(al) != want: V('alive', '%d Alive records in a call of %.3f s, interval %d', len(al), down - up, iv)
    for k, z in enumerate(al):
        if not near(z.t, up + (k + 1) * iv, 0.01): V('alive-time', 'Alive record %d sent %.3f after the answer', k + 1, z.t - up)
        if abs(z.dur - (k + 1) * iv) > 0.52: V('alive-dur', 'Alive record after %d s has session time %d', (k + 1) * iv, z.dur)
        times(z, setup, up, None, tol, 'alive')
    if al: rec.cls('alive records')

def check_orig(r, cl, recs, tol, loss, rec):
    # records of one attempt are told apart by their setup time
    stops = [x for x in recs if x.type == 'Stop']
    if loss:
        if len(stops) > len(set(n for n, l in cl.outs)) and not any(l.ep.dead for n, l in cl.outs):
            sent = set(n for c2, n, rt in [r.outmap[g.m.callid] for g in r.w.log if g.text.startswith('INVITE ') and g.m.callid in r.outmap] if c2 is cl)
            if len(stops) > len(sent): V('stop-twice', '%d Stop records for %d attempts', len(stops), len(sent))
        return
    order_by = {}
    first = {}                              # attempt -> time its INVITE was sent
    for g in r.w.log:
        if g.src == STACK and g.text.startswith('INVITE ') and g.m.to.tag is None and r.outmap.get(g.m.callid, (None,))[0] is cl:
            first.setdefault(r.outmap[g.m.callid][1], g.t)
    fof = {n: r.routes(cl)[n - 1]['fof'] for n in first}
    want = [n for n in first if not fof[n]]
    if len(stops) != len(want): V('stop-count', '%d Stop records for attempts %r', len(stops), want)
    ab = answered(cl)
    nstart = sum(1 for x in recs if x.type == 'Start')
    p = model.predict(r.case, cl) if r.conf['mode'] == 'radius' else None
    if p is not None and p['tie']: return
    left = list(recs)
    for n in want:
        t0 = first[n]
        own = [x for x in left if near(x.setup, t0, tol)]
        if tol >= 1 and len([m for m in want if near(first[m], t0, 2.1)]) > 1: continue
        if not own: V('setup-time', 'no record with the setup time %.3f of attempt %d', t0, n)
        order(own, 'outgoing', r.conf['alive'])
        left = [x for x in left if x not in own]
        s = [x for x in own if x.type == 'Stop'][0]
        st_ = [x for x in own if x.type == 'Start']
        if ab is not None and ab[0] == n:
            l = ab[1]
            rl = released(cl)
            up = l.got('answer-tx')[-1][0] + L
            if late(cl) and l.got('answer-tx')[-1][3]: up = cl.leg.got('final')[0][0] + L
            if rl is None or rl[0] < up + 0.001: continue
            if vanished(cl.leg) is not None and (vanished(l) is not None or vanished(cl.leg) < up + 0.1): continue
            if not st_ and r.conf['acct'] == 2: V('start-missing', 'no Start for an answered outgoing leg')
            for z in st_ + [s]: times(z, t0, up, rl[0], tol, 'outgoing')
            if s.cause not in ('10', '0'): V('cause', 'answered outgoing leg ended with cause %r', s.cause)
            if not (vanished(cl.leg) is not None or vanished(l) is not None) and rl[1] is not None and not any(near(rl[0], t, 0.02) for t, o in cl.op) and s.rel != rl[1]:
                V('release', 'outgoing: released by %r, should be %r', s.rel, rl[1])
            alive(r, [z for z in own if z.type == 'Alive'], up, rl[0], t0, tol, rec)
            rec.cls('outgoing answered')
            continue
        if any(up_at(l) is not None for m, l in cl.outs if m == n): continue    # answered while being given up
        if st_: V('start-unanswered', 'Start for an unanswered outgoing leg')
        if s.dur != 0: V('duration', 'unanswered outgoing leg with session time %d', s.dur)
        if p is None: continue
        a = [z for z in p['attempts'] if z.rnum == n][0]
        te, why, code = a.end
        if why == 'end' and cl.leg.ep.dead: continue
        times(s, t0, None, te, tol, 'outgoing unanswered')
        if why == 'fail':
            w = CAUSE.get(code, '7f')
            if s.cause != w: V('cause', 'attempt failed with %d, cause is %r instead of %r', code, s.cause, w)
        elif s.cause not in ('0', '10'): V('cause', 'attempt given up (%s) has cause %r', why, s.cause)
        rels = {'cancel': '2', 'expire': '28', 'op': '8', 'end': '28', 'fail': '4' if code != 408 else '48', 'redirect': '4', 'timer': '8', 'group': '8'}[why]
        if s.rel not in rels: V('release', 'outgoing unanswered (%s %r): released by %r', why, code, s.rel)
        rec.cls('outgoing:' + why)

def acc(c): return dict(c, conf = dict(c['conf'], acct = c['conf']['acct'] or 1))

import c13
CHECK = Check('C14', 'exploration', [
  Part('calls', lambda: scen.scenario(loss = False).map(acc), run, quick = 500, thorough = 8000, shards = 8, rule = 'a call reached a callee'),
  Part('incall', lambda: scen.incall(loss = False).map(acc), run, quick = 500, thorough = 8000, shards = 8, rule = 'a call reached a callee'),
  Part('hunt', lambda: c13.hunts().map(acc), run, quick = 300, thorough = 6000, shards = 8, rule = 'a call reached a callee'),
  Part('lossy', lambda: scen.scenario().map(acc), run, quick = 200, thorough = 4000, shards = 8, rule = 'a call reached a callee')])
