"""C16: management commands and signals against the real b2bua with calls in every state."""
import re
from signal import SIGHUP, SIGTERM, SIGPROF, SIGUSR2
from core import Check, Part, Violation
from hypothesis import strategies as st
import wire, scen
from sim import STACK
from c12 import V

DEST = '198.51.100.10'
SIG = {'HUP': SIGHUP, 'TERM': SIGTERM, 'PROF': SIGPROF, 'USR2': SIGUSR2}
L = 0.01
BAD = ('d', 'd a b', 'D', 'r', 'r x', 'r 1 2 3', 'r 1 x', 'r -', 'foo', 'dd *', 'd* ', 'list', 'r 1.5', 'ltt', '*')

def case():
    t = lambda lo, hi, f: st.one_of(scen.T(lo, 3, f), scen.T(lo, hi, f))
    call = st.fixed_dictionaries({'start': scen.T(0, 6, 0.0019), 'cid': st.sampled_from((0, 1, 2, 3, 4, 4)), 'aaa': st.sampled_from((0.0113, 0.0113, 2.0113)), 'ring': st.one_of(st.none(), t(0, 5, 0.0137)), 'early': st.booleans(),
      'final': st.one_of(st.none(), st.tuples(t(0, 12, 0.0337), st.sampled_from((200, 200, 200, 486)))), 'hang': st.one_of(st.none(), t(0, 20, 0.0531)), 'who': st.integers(0, 1)})
    op = st.one_of(st.tuples(st.just('l'), st.just(0)), st.tuples(st.just('d'), st.integers(0, 6)), st.tuples(st.just('r'), st.integers(0, 6)), st.tuples(st.just('r'), st.integers(0, 6)), st.tuples(st.just('bad'), st.integers(0, len(BAD) - 1)),
      st.tuples(st.just('misc'), st.sampled_from(('lt', 'llt', 'LLT', 'q', 'L'))), st.tuples(st.just('all'), st.sampled_from(('d *', 'HUP', 'D  *'))), st.tuples(st.just('sig'), st.sampled_from(('USR2', 'USR2', 'TERM', 'PROF'))),
      st.tuples(st.just('l'), st.just(0)), st.tuples(st.just('dx'), st.sampled_from(('nobody@x', 'c', 'c0', 'c0@y ', 'C4@Y', 'c4@'))))
    return st.fixed_dictionaries({'rtpp': st.booleans(), 'calls': st.lists(call, min_size = 1, max_size = 4), 'ops': st.lists(st.tuples(st.one_of(scen.T(0, 8, 0.0771), scen.T(0, 8, 0.0771), scen.T(0, 40, 0.0771), scen.T(0, 130, 0.0771)), op), min_size = 1, max_size = 6)})

class OS(object):
    """os without the calls that would replace this process."""
    def __init__(self, real, rig): self.real, self.rig = real, rig
    def chdir(self, d): pass
    def execv(self, *a):
        self.rig.exec_t = self.rig.w.now
        raise SystemExit(0)
    def __getattr__(self, n): return getattr(self.real, n)

class C(object): pass

def run(case, rec):
    import os, b2b, relay, gc
    gc.collect()                # media sessions of the previous case
    from ep import EP
    relay.patch()
    calls = []
    for i, c in enumerate(case['calls']):
        x = C()
        x.i, x.c, x.cid, x.leg, x.out, x.kill = i, c, 'c%d@y' % c['cid'], None, None, None
        x.frm, x.to, x.dest = '10%d' % i, '20%d' % i, (DEST, 6100 + i)
        x.aaa_t = None
        calls.append(x)
    def aaa(kind, attrs):
        if kind == 'ACCT': return (0.0057, [], 0)
        d = dict(attrs)
        x = [y for y in calls if y.frm == d['Calling-Station-Id']][0]
        return (x.c['aaa'], [('h323-ivr-in', 'Routing:%s:%d' % x.dest)], 0)
    r = b2b.Rig(['-D', '-A', '2', '-c', '/nonexistent/b2bua.sock'] + (['-r', 'udp:%s:%d' % relay.ADDR] if case['rtpp'] else []), aaa)
    w = r.w
    r.exec_t = None
    b2b.bb.os = OS(os, r)
    w.out_hook = lambda dg: [L]
    rl = relay.Relay(w)
    for c in r.gc.getdefault('_rtp_proxy_clients', ()): c.hrtb_ival = 15.0
    try:
        go(case, rec, r, w, rl, calls, EP)
    finally:
        b2b.bb.os = os

def go(case, rec, r, w, rl, calls, EP):
    base = 3.0
    for x in calls:
        x.ep = EP(w, ('192.0.2.%d' % (100 + x.i), 5060), 'a%d' % x.i)
        x.cep = EP(w, x.dest, 'b%d' % x.i)
        x.cep.on_call = (lambda x: lambda leg: incoming(w, x, leg))(x)
        w.at(base + x.c['start'], start, w, x)
    hist = []
    for t, (k, a) in case['ops']:
        w.at(base + t, op, r, w, rl, calls, base + t, k, a, hist)
    # nothing goes on after the process has stopped or replaced itself
    end = base + 330.0
    t = 0.0
    while t < end and r.stopped is None and r.exec_t is None:
        t = min(t + 1.0, end)
        try: w.run_until(t)
        except SystemExit: break
    stop = min([z for z in (r.stopped, r.exec_t) if z is not None] or [None], key = lambda z: z or 0)
    w.check_exceptions()
    judge(case, rec, r, w, rl, calls, hist, stop, base)

def start(w, x):
    x.leg = x.ep.call(x.cid, 'sip:%s@192.0.2.1' % x.to, '<sip:%s@%s>' % (x.frm, x.ep.addr[0]), '<sip:%s@192.0.2.1>' % x.to, body = scen.sdp(x.i), ctype = 'application/sdp')
    c = x.c
    if c['hang'] is not None and c['who'] == 0:
        w.after(c['hang'], lambda: hang(x.leg))

def hang(leg):
    if leg.state == 'up': leg.ep.bye(leg)
    elif leg.role == 'caller' and leg.state in ('calling', 'early') and not leg.got('cancel-tx'): leg.ep.cancel(leg)

def incoming(w, x, leg):
    x.out = leg
    leg.ep.answer(leg, 100, 'Trying')
    c = x.c
    if c['ring'] is not None and (c['final'] is None or c['ring'] < c['final'][0]): w.after(c['ring'], lambda: leg.state == 'early' and leg.ep.answer(leg, 183 if c['early'] else 180, 'Ring', body = scen.sdp(20 + x.i) if c['early'] else ''))
    if c['final'] is not None: w.after(c['final'][0], lambda: leg.state == 'early' and leg.ep.answer(leg, c['final'][1], 'F', body = scen.sdp(20 + x.i) if c['final'][1] == 200 else ''))
    if c['hang'] is not None and c['who'] == 1: w.after(c['hang'], lambda: hang(leg))

def over(x):
    """Time the call ended as far as the wire shows (first sign), or None."""
    ts = []
    if x.leg is None: return None
    for l in (x.leg, x.out):
        if l is None: continue
        for e in l.ev:
            if e[1] in ('bye', 'bye-tx', 'cancel', 'cancel-tx'): ts.append(e[0])
    for e in x.leg.got('final'):
        if e[2] >= 300: ts.append(e[0])
    if x.out is not None and x.out.inv_final is not None and x.out.inv_final >= 300:
        ts.append([e[0] for e in x.out.got('answer-tx') if e[2] >= 300][0])
    return min(ts) if ts else None

def live(x, t):
    """'yes' in memory for sure / 'no' / '?'"""
    if x.leg is None: return 'no'
    a = x.leg.ev[0][0] if x.leg.ev else None
    t0 = x.t0 if hasattr(x, 't0') else None
    A = 3.0 + x.c['start'] + L
    if t < A: return 'no'
    o = over(x)
    if o is None or t < o: return 'yes'
    if t > o + 75.0: return 'no'
    return '?'

def op(r, w, rl, calls, t, k, a, hist):
    if r.stopped is not None or r.exec_t is not None: return
    h = {'t': t, 'k': k, 'a': a, 'live': [live(x, t) for x in calls], 'over': [over(x) for x in calls]}
    hist.append(h)
    if k == 'sig' or a == 'HUP':
        r.signal(SIG[a])
        return
    if k in ('l', 'misc'):
        line = 'l' if k == 'l' else a
        h['tx'] = (len(r.tm.tserver), len(r.tm.tclient))
    elif k == 'd': line = 'd c%d@y' % a
    elif k == 'dx': line = 'd ' + a
    elif k == 'bad': line = BAD[a].strip()
    elif k == 'all': line = a
    elif k == 'r':
        h['x'] = None
        line = 'r 99999999'
        if a < len(calls):
            x = calls[a]
            tag = ntag(rl, x, calls)
            if tag is not None:
                line = tag
                h['x'] = x
                h['ans'] = x.leg.got('final') and x.leg.got('final')[0][2] == 200
    h['line'] = line
    import b2b
    cl = b2b.Clim()
    r.api.recvCommand(cl, line)
    h['out'], h['closed'] = cl.out, cl.closed

def ntag(rl, x, calls):
    """What the relay was told to report for this call (first media stream)."""
    from urllib.parse import unquote
    same = [y for y in calls if y.cid == x.cid]
    for c in rl.cmds:
        if c.type == 'U' and c.ntag is not None and c.cid == x.cid + '-0':
            # several calls may share a Call-ID: the relay knows them by the media address it was given
            for y in same:
                if c.port == 20000 + 2 * y.i and y is x: return unquote(c.ntag)
    return None

def judge(case, rec, r, w, rl, calls, hist, stop, base):
    T_end = stop if stop is not None else 1e9
    # 1. replies
    killers = []                        # (t, predicate over calls)
    refuse = None
    for h in hist:
        t, k, a = h['t'], h['k'], h['a']
        out = h.get('out')
        if k == 'sig':
            if a in ('TERM', 'PROF') and refuse is None: refuse = t
            if a == 'TERM': killers.append((t, lambda x: True, 'TERM'))
            continue
        if k == 'all':
            killers.append((t, lambda x: True, 'all'))
            if a != 'HUP' and out != 'OK\n': V('reply', '%r answered %r', h['line'], out)
            continue
        if k == 'd' or k == 'dx':
            cid = h['line'].split()[1]
            lv = [v for x, v in zip(calls, h['live']) if x.cid == cid]
            killers.append((t, (lambda cid: lambda x: x.cid == cid)(cid), h['line']))
            if 'yes' in lv: want = ('OK\n',)
            elif '?' in lv: want = ('OK\n', 'ERROR: no call with id of %s has been found\n' % cid)
            else: want = ('ERROR: no call with id of %s has been found\n' % cid,)
            if out not in want: V('reply', '%r answered %r instead of %r', h['line'], out, want[0])
            rec.cls('d-' + ('live' if 'yes' in lv else 'gone' if '?' in lv else 'unknown'))
        elif k == 'r':
            x = h['x']
            if x is None:
                if not out.startswith('ERROR'): V('reply', '%r answered %r', h['line'], out)
                continue
            lv = h['live'][x.i]
            if lv == 'yes':
                if out != 'OK\n': V('reply', 'media timeout of a live call answered %r', out)
                killers.append((t, (lambda x: lambda y: y is x)(x), 'media timeout of call %d' % x.i))
                rec.cls('media-timeout')
            elif lv == 'no' and not out.startswith('ERROR'): V('reply', 'media timeout of a call long gone answered %r', out)
        elif k == 'bad':
            if not out.startswith('ERROR'): V('reply', 'malformed command %r answered %r', h['line'], out)
        elif k == 'misc' and a.lower() == 'q':
            if not h['closed'] or out: V('reply', 'q: closed %r output %r', h['closed'], out)
        elif k == 'misc' and a.lower() in ('lt', 'llt'):
            m = re.match(r'In-memory server transactions:\n((?:.*\n)*?)In-memory client transactions:\n((?:.*\n)*)$', out)
            if m is None: V('lt', 'transaction list looks like %r', out)
            n = (m.group(1).count('\n'), m.group(2).count('\n'))
            if a == 'lt' and n != h['tx']: V('lt', 'transaction list has %r entries, %r are in memory', n, h['tx'])
            if a != 'lt' and (n[0] > h['tx'][0] or n[1] > h['tx'][1]): V('lt', 'list of long transactions has %r entries, %r are in memory', n, h['tx'])
        else: listing(h, t, out, calls, rec)
        if out and not out.endswith('\n'): V('reply', 'reply without end of line: %r', out)
    # 2. what happened to the calls
    for x in calls:
        A = base + x.c['start'] + L
        if A > T_end: continue
        if refuse is not None and refuse < A:
            f = x.leg.got('final')
            if not f or f[0][2] != 503: V('refuse', 'call %d arriving after the stop request got %r', x.i, f and f[0][2])
            if x.out is not None: V('refuse', 'call %d placed although a stop was requested', x.i)
            rec.cls('refused')
            continue
        kill = min([t for t, p, n in killers if t > A and p(x)] or [None], key = lambda z: z or 0)
        o = over(x)
        nat = natural(x, A)
        if kill is not None and (nat is None or kill < nat - 0.03):
            rec.nt()
            rec.cls('killed')
            who = [n for t, p, n in killers if t == kill and p(x)][0]
            if kill + 0.1 < T_end:
                if o is None or o > kill + 0.05: V('survived', 'call %d lives on after %s at %.3f (sign of its end: %s)', x.i, who, kill, o)
                if o < kill - 0.001: V('early', 'call %d ended at %.3f although told to only at %.3f', x.i, o, kill)
                for l in (x.leg, x.out):
                    if l is not None and l.state not in ('ended', 'failed'): V('halfdead', 'after %s one side of call %d is still %s', who, x.i, l.state)
        elif kill is None or kill > nat + 0.03:
            # never disturbed: must live exactly as scripted
            if nat is None:
                if o is not None and o < min(T_end, A + 299): V('disturbed', 'call %d ended at %.3f, nobody asked for it; %r', x.i, o, [h['line'] if 'line' in h else h['a'] for h in hist])
            elif nat < T_end - 0.1:
                if o is None or abs(o - nat) > 0.025: V('disturbed', 'call %d ended at %s instead of %.3f; %r', x.i, o, nat, [h['line'] if 'line' in h else h['a'] for h in hist])
            if [1 for t, p, n in killers]: rec.cls('bystander')
    # 3. stopping
    term = [h['t'] for h in hist if h['a'] == 'TERM']
    if term:
        if r.stopped is None and r.exec_t is None: V('stop', 'still running after the stop request at %.3f', term[0])
        if r.stopped is not None and r.stopped > term[0] + 2.6: V('stop', 'stopped only %.3f s after the request', r.stopped - term[0])
        rec.cls('stop')
    elif r.stopped is not None: V('stop', 'stopped without being asked to')
    prof = [h['t'] for h in hist if h['a'] == 'PROF']
    busy = lambda t: [x.i for x in calls if x.leg is not None and x.out is not None and live(x, t) == 'yes' and t > x.out.ev[0][0]]
    if r.exec_t is not None:
        if not prof: V('restart', 'restarted without being asked to')
        if busy(r.exec_t): V('restart', 'restarted with calls %r still up', busy(r.exec_t))
        rec.cls('restart')
    elif prof and not term:
        last = max([prof[0]] + [over(x) or (1e9 if x.leg is not None and x.out is not None else 0) for x in calls])
        if last + 62 < base + 330: V('restart', 'idle since %.3f but never restarted', last)

def natural(x, A):
    """When the script ends the call: first sign on the wire, or None."""
    c = x.c
    P = A + c['aaa'] + L                       # INVITE reaches the callee
    if x.ep is None: return None
    ts = []
    if x.rt: P += x.rt
    hang = None
    fin = None
    if c['final'] is not None: fin = P + c['final'][0]
    if c['hang'] is not None:
        hang = A - L + c['hang'] if c['who'] == 0 else P + c['hang']
    if c['who'] == 0:
        if hang is not None and (fin is None or hang < fin): return hang
        if fin is not None and c['final'][1] != 200: return fin
        if hang is not None: return hang
    else:
        if fin is not None and c['final'][1] != 200: return fin
        if hang is not None and fin is not None and hang > fin: return hang
    return A + 300.0 if fin is None else None

C.rt = 0.0

LINE = re.compile(r'^(\S+): (\w+) \((N/A|(\S+) (\w+):([\d.]+):(\d+) (\S+) (\S+)) -> (N/A|(\S+) (\w+):([\d.]+):(\d+) (\S+) (\S+))\)$')

def listing(h, t, out, calls, rec):
    ls = out.split('\n')
    if ls[0] != 'In-memory calls:' or ls[-1] != '': V('list', 'unexpected listing %r', out)
    total = ls[-2]
    rows = ls[1:-2]
    if total != 'Total: %d' % len(rows): V('list', '%r below %d calls', total, len(rows))
    parsed = []
    for l in rows:
        m = LINE.match(l)
        if m is None: V('list', 'unexpected line %r', l)
        parsed.append(m)
    for cid in set(x.cid for x in calls) | set(m.group(1) for m in parsed):
        lv = [v for x, v in zip(calls, h['live']) if x.cid == cid]
        n = len([m for m in parsed if m.group(1) == cid])
        if not lv.count('yes') <= n <= len(lv) - lv.count('no'): V('list', '%d entries for %s, %d calls with this id are in memory\n%s', n, cid, lv.count('yes'), out)
    for x, v in zip(calls, h['live']):
        if v != 'yes' or [y for y in calls if y is not x and y.cid == x.cid]: continue
        m = [m for m in parsed if m.group(1) == x.cid][0]
        A = 3.0 + x.c['start'] + L
        ev = [e[0] for l in (x.leg, x.out) if l is not None for e in l.ev] + [A, A + x.c['aaa']]
        if [e for e in ev if abs(e - t) < 0.06]: continue
        fin = x.leg.got('final')
        st = 'Connected' if fin and fin[0][0] < t else 'WaitRoute' if t < A + x.c['aaa'] else 'ARComplete'
        if m.group(2) != st: V('list', '%s is listed as %s, it is %s', x.cid, m.group(2), st)
        ring = x.leg.got('prov') and [e for e in x.leg.got('prov') if e[2] > 100 and e[0] < t]
        sa = 'Connected' if st == 'Connected' else 'Ringing(UAS)' if ring else 'Trying(UAS)'
        if m.group(4) != sa: V('list', 'caller of %s is listed as %s, it is %s', x.cid, m.group(4), sa)
        if (m.group(6), int(m.group(7))) != x.ep.addr or m.group(5).lower() != 'udp' or set(m.group(8, 9)) != {x.frm, x.to}: V('list', 'caller side of %s is listed as %r', x.cid, m.group(3))
        if st == 'WaitRoute':
            if m.group(10) != 'N/A': V('list', 'outgoing side listed before there is any: %r', m.group(0))
        else:
            so = 'Connected' if st == 'Connected' else 'Ringing(UAC)' if ring else 'Trying(UAC)'
            if m.group(11) != so: V('list', 'callee of %s is listed as %s, it is %s', x.cid, m.group(11), so)
            if (m.group(13), int(m.group(14))) != x.dest or set(m.group(15, 16)) != {x.frm, x.to}: V('list', 'callee side of %s is listed as %r, it is at %r', x.cid, m.group(10), x.dest)
        rec.cls('listed-' + st)
        rec.nt()

CHECK = Check('C16', 'exploration', [Part('ops', lambda: case(), run, quick = 400, thorough = 6000, shards = 8, rule = 'a call was ended by a command or its listing was compared')])
