"""C15: what gets in. Requests of every kind against every admission setting of the real b2bua."""
from signal import SIGTERM
from core import Check, Part, Violation
from hypothesis import strategies as st
import wire, scen
from sim import STACK
from c12 import V

SRC = ['192.0.2.%d' % (100 + i) for i in range(4)]
DEST = ('198.51.100.10', 6100)
METHODS = ('OPTIONS', 'MESSAGE', 'REGISTER', 'SUBSCRIBE', 'NOTIFY', 'PING', 'INFO', 'BYE', 'UPDATE', 'PRACK', 'REFER', 'PUBLISH', 'FOO', 'CANCEL', 'ACK')
AUTHS = ('Digest username="joe", realm="sip.example", nonce="abc", uri="sip:200@192.0.2.1", response="0123456789abcdef0123456789abcdef"',
  'Digest username="", realm="r", nonce="n", uri="sip:x", response="f"')

def case():
    inv = st.fixed_dictionaries({'m': st.just('INVITE'), 't': scen.T(0, 12, 0.0019), 'src': st.integers(0, 3), 'tag': st.sampled_from((0,) * 7 + (1,)), 'mf': st.sampled_from((70, 70, 70, 70, None, 2, 1, 0)), 'auth': st.sampled_from((None, None, 0, 1)),
      'aaa': st.sampled_from(('ok', 'ok', 'ok', 'ok', 'no', 'no', 'err', 'noroute', 'zero', 'never')), 'd': st.sampled_from((0.0113, 0.5113, 5.0113)), 'via2': st.sampled_from((False, False, False, True)), 'sdp': st.sampled_from((0, None)),
      'dup': st.lists(scen.T(0, 8, 0.0057), max_size = 2), 'cancel': st.sampled_from((None,) * 6 + (0.0831, 0.3031)), 'user': st.sampled_from(('200', '200', '200', None, 'nat-5'))})
    oth = st.fixed_dictionaries({'m': st.sampled_from(METHODS), 't': scen.T(0, 12, 0.0019), 'src': st.integers(0, 3), 'tag': st.sampled_from((0, 0, 1)), 'auth': st.sampled_from((None, 0)), 'dup': st.lists(scen.T(0, 8, 0.0057), max_size = 2), 'mf': st.sampled_from((70, 0, None))})
    return st.fixed_dictionaries({'auth': st.sampled_from(('radius', 'radius', 'both', 'static')), 'digest': st.sampled_from(('off', 'on', 'on', 'only')), 'ips': st.one_of(st.none(), st.none(), st.lists(st.integers(0, 3), min_size = 1, max_size = 3, unique = True)),
      'acct': st.sampled_from((0, 1, 2)), 'stop': st.one_of(st.none(), st.none(), st.none(), scen.T(1, 10, 0.0407)), 'reqs': st.lists(st.one_of(inv, inv, inv, oth), min_size = 1, max_size = 6), 'callee': st.sampled_from((486, 486, 200, None)),
      'ua': st.sampled_from(('', '', 'W'))})

class Req(object):
    pass

def run(case, rec):
    import b2b
    from ep import EP
    a = []
    if case['auth'] == 'static': a.append('-u')
    if case['auth'] != 'radius': a += ['-s', '%s:%d' % DEST]
    if case['digest'] == 'off': a.append('-D')
    if case['digest'] == 'only': a.append('--digest_auth_only=1')
    if case['ips'] is not None: a += ['-a', ','.join(SRC[i] for i in case['ips'])]
    a += ['-A', str(case['acct'])]
    reqs = []
    for i, q in enumerate(case['reqs']):
        x = Req()
        x.q, x.i, x.cid = q, i, 'r%d@x' % i
        x.resp, x.leg = [], None
        reqs.append(x)
    bycid = {x.cid: x for x in reqs}
    queries = {}
    def aaa(kind, attrs):
        if kind == 'ACCT': return (0.0057, [], 0)
        cid = [v[8:] for k, v in attrs if k == 'Cisco-AVPair' and v.startswith('call-id=')][0]
        queries.setdefault(cid, []).append((r.w.now, attrs))
        x = bycid[cid]
        how = x.q['aaa']
        if how == 'never': return None
        if how == 'no': return (x.q['d'], [('h323-return-code', 'h323-return-code=1')], 1)
        if how == 'err': return (x.q['d'], [], 2)
        if how == 'noroute': return (x.q['d'], [('h323-credit-time', 'h323-credit-time=100')], 0)
        return (x.q['d'], [('h323-ivr-in', 'Routing:%s:%d%s' % (DEST + (';credit-time=0' if how == 'zero' else '',)))], 0)
    r = b2b.Rig(a, aaa)
    w = r.w
    w.out_hook = lambda dg: [0.01]
    eps = {}
    for i, ip in enumerate(SRC):
        e = eps[i] = EP(w, (ip, 5060), 'a%d' % i)
        w.peer(e.addr, (lambda e: lambda dg: got(e, dg))(e))
    def got(e, dg):
        if not dg.m.is_req and dg.m.callid in bycid: bycid[dg.m.callid].resp.append((w.now, dg.m, dg.text))
        e.rx(dg)
    callee = EP(w, DEST, 'b')
    placed = []
    def on_call(leg):
        placed.append(leg)
        if case['callee'] is None: w.after(20.0, leg.ep.answer, leg, 480, 'F')
        else:
            leg.ep.answer(leg, case['callee'], 'F', body = scen.sdp(11) if case['callee'] == 200 else '')
            if case['callee'] == 200: w.after(30.0, lambda: leg.state == 'up' and leg.ep.bye(leg))
    callee.on_call = on_call
    for x in reqs: w.at(x.q['t'], send, w, eps[x.q['src']], x)
    stop = case['stop']
    if stop is not None: w.at(stop, r.signal, SIGTERM)
    w.run_until(600.0)
    w.check_exceptions()
    for e in list(eps.values()) + [callee]:
        if e.problems: V('protocol', '%s: %s', e.name, e.problems[0])
    pl = {}
    for l in placed: pl.setdefault(l.callid.rsplit('-b2b_', 1)[0], []).append(l)
    for x in reqs: judge(case, x, queries.get(x.cid, []), pl.pop(x.cid, []), stop, r, rec)
    if pl: V('stranger', 'INVITE to the callee for %r', list(pl))
    never = any(x.q.get('aaa') == 'never' for x in reqs)
    left = r.leftovers()
    if left: V('left', 'still held: %s', left[0])

def send(w, e, x):
    q = x.q
    extra = [('Authorization', AUTHS[q['auth']])] if q['auth'] is not None else []
    if q['m'] == 'INVITE':
        user = '' if q['user'] is None else q['user'] + '@'
        if q['via2']: extra.append(('Via', 'SIP/2.0/UDP 203.0.113.9:5060;branch=z9hG4bKup%d' % x.i))
        to = '<sip:%s192.0.2.1>' % user + (';tag=zz' if q['tag'] else '')
        leg = x.leg = e.call(x.cid, 'sip:%s192.0.2.1' % user, '<sip:100@%s>' % e.addr[0], to, body = '' if q['sdp'] is None else scen.sdp(0), extra = extra, maxf = q['mf'], ctype = 'application/sdp')
        x.text = leg.inv_tx['text']
        if q['cancel'] is not None: w.after(q['cancel'], lambda: leg.state in ('calling', 'early') and e.cancel(leg))
    else:
        br = e.branch()
        to = '<sip:200@192.0.2.1>' + (';tag=zz' if q['tag'] else '')
        x.text = wire.request(q['m'], 'sip:200@192.0.2.1', 'SIP/2.0/UDP %s:%d;branch=%s' % (e.addr + (br,)), '<sip:100@%s>;tag=f%d' % (e.addr[0], x.i), to, x.cid, 5, extra = extra, maxf = q['mf'], contact = e.contact)
        e.send(x.text)
    for d in q['dup']: w.after(d, e.send, x.text)

def expected(case, x, stop):
    """-> (set of acceptable final codes, admitted?, AAA asked?, challenge required?)"""
    q = x.q
    t = q['t'] + 0.01
    if q['m'] == 'ACK': return None, False, False, False
    if q['m'] == 'CANCEL' or q['tag']: return {481}, False, False, False
    if q['m'] in ('NOTIFY', 'PING'): return {200}, False, False, False
    if q['m'] != 'INVITE': return {501}, False, False, False
    if stop is not None and t > stop: return {503}, False, False, False
    if case['ips'] is not None and q['src'] not in case['ips']: return {403}, False, False, False
    radius = case['auth'] != 'static'
    if radius and case['digest'] == 'only' and q['auth'] is None: return {401}, False, False, True
    if q['user'] is None: return {500}, False, False, False
    if radius and q['aaa'] == 'never': return {487}, False, True, False
    if radius and q['aaa'] in ('no', 'err'):
        ch = case['digest'] != 'off' and q['auth'] is None
        return {401 if ch else 403}, False, True, ch
    if case['auth'] == 'radius' and q['aaa'] in ('noroute', 'zero'): return {500}, False, True, False
    if q['mf'] is not None and q['mf'] <= 1: return {483}, False, radius, False
    return {case['callee'] or 480}, True, radius, False

def judge(case, x, queries, legs, stop, r, rec):
    q = x.q
    codes, admitted, asked, ch = expected(case, x, stop)
    fin = [m for t, m, tx in x.resp if m.code >= 200 and m.cseq[1] == q['m']]
    tags = set((m.code, m.to.tag) for m in fin)
    what = '%s from %s' % (q['m'], SRC[q['src']])
    if codes is None:
        if x.resp: V('ack', 'ACK answered with %d', x.resp[0][1].code)
        if legs: V('admitted', 'ACK made a call')
        return
    # an interruption may overtake the decision
    t0 = q['t'] + 0.01
    cut = None
    if q['m'] == 'INVITE':
        if x.leg.got('cancel-tx'): cut = x.leg.got('cancel-tx')[0][0] + 0.01
        if stop is not None and stop > t0 and (cut is None or stop < cut): cut = stop
        if cut is None and asked and q['aaa'] == 'never': cut = t0 + 300.0
    if not fin: V('none', '%s: no final response', what)
    if len(tags) > 1: V('twice', '%s: several final responses %r', what, sorted(tags, key = str))
    code = fin[0].code
    ft = [t for t, m, tx in x.resp if m.code >= 200 and m.cseq[1] == q['m']][0] - 0.01
    if cut is not None and abs(ft - cut) < 0.002:
        if code not in (487, 500): V('code', '%s interrupted: answered %d', what, code)
        rec.cls('interrupted')
    elif code not in codes:
        V('code', '%s: answered %d instead of %s', what, code, sorted(codes))
    rec.cls('%s %d' % ('INVITE' if q['m'] == 'INVITE' else 'other', code))
    if ch and code == 401:
        h = fin[0].get('www-authenticate')
        if h is None: V('challenge', '%s: 401 without a challenge', what)
        if not h.startswith('Digest ') or 'realm="192.0.2.1"' not in h or 'nonce="' not in h: V('challenge', '%s: challenge %r', what, h)
    elif fin[0].get('www-authenticate') is not None: V('challenge', '%s: challenge in %d', what, code)
    if not admitted:
        if legs: V('admitted', '%s: refused with %d but a call was placed', what, code)
    else:
        if not (cut is not None and cut <= t0 + q['d'] + 0.02):
            rec.nt()
            if len(legs) != 1: V('notplaced', '%s: admitted but %d calls were placed', what, len(legs))
        elif len(legs) > 1: V('admitted', '%s: %d calls placed', what, len(legs))
    if not asked and queries: V('asked', '%s: authorisation asked for although refused with %d', what, code)
    if asked and len(queries) != 1: V('asked', '%s: authorisation asked for %d times', what, len(queries))
    for t, attrs in queries:
        d = dict((k, v) for k, v in attrs)
        ip = '203.0.113.9' if q['via2'] else SRC[q['src']]
        want = {'Called-Station-Id': q['user'][4:] if q['user'].startswith('nat-') else q['user'], 'Calling-Station-Id': '100', 'h323-remote-address': 'h323-remote-address=' + ip}
        if q['auth'] == 0:
            want.update({'User-Name': 'joe', 'Digest-User-Name': 'joe', 'Digest-Realm': 'sip.example', 'Digest-Nonce': 'abc', 'Digest-URI': 'sip:200@192.0.2.1', 'Digest-Response': '0123456789abcdef0123456789abcdef', 'Digest-Method': 'INVITE'})
        else: want.update({'User-Name': ip})
        for k, v in want.items():
            if d.get(k) != v: V('aaa', 'AAA attribute %s is %r instead of %r', k, d.get(k), v)
        if q['auth'] != 0 and any(k.startswith('Digest-') for k in d): V('aaa', 'digest attributes without credentials')

CHECK = Check('C15', 'exploration', [Part('admit', lambda: case(), run, quick = 1200, thorough = 15000, shards = 8, rule = 'a call was admitted and placed')])
