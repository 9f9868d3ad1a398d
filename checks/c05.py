"""C05: client transactions against scripted servers, judged by an independent model of RFC 3261 17.1."""
from hypothesis import strategies as st
from core import Check, Part, Violation
import wire

# --- generators -----------------------------------------------------------
_URIS = ('sip:bob@198.51.100.7:5070', 'sip:198.51.100.8', 'sip:bob@198.51.100.9;transport=udp', 'sip:1234@198.51.100.10:6000')
_RRS = ('<sip:203.0.113.1;lr>', '<sip:p2@203.0.113.2:5062;lr>', '<sip:203.0.113.3:5063>', '<sip:203.0.113.4;lr=on>')
_TIMES = st.one_of(st.integers(0, 40).map(lambda x: x / 10.0 + 0.013), st.integers(0, 330).map(lambda x: x / 10.0 + 0.017),
  st.integers(0, 400).map(lambda x: x + 0.319))

def _resp():
    return st.fixed_dictionaries({
        't': _TIMES,
        'code': st.sampled_from((100, 180, 183, 183, 199, 200, 200, 202, 302, 401, 404, 486, 487, 500, 503, 600, 699)),
        'mark': st.integers(0, 2),
        'tag': st.sampled_from((None, 'tt1', 'tt2')),
        'contact': st.sampled_from((None,) + _URIS),
        'rr': st.lists(st.sampled_from(_RRS), max_size = 3),
        'body': st.booleans(),
        'reps': st.lists(st.one_of(st.integers(1, 30).map(lambda x: x / 10.0), st.integers(1, 31).map(float)), max_size = 3),
        'foreign': st.sampled_from((None,) * 8 + ('branch', 'cseq', 'method', 'callid', 'ftag')),
    })

def _tr():
    return st.fixed_dictionaries({
        'method': st.sampled_from(('INVITE', 'INVITE', 'INVITE', 'BYE', 'OPTIONS', 'REGISTER', 'INFO')),
        'start': st.sampled_from((0.0, 0.0, 0.25, 3.1, 30.7)),
        'callid': st.integers(0, 1),
        'routes': st.lists(st.sampled_from(('<sip:203.0.113.9;lr>', '<sip:203.0.113.10:5099;lr>')), max_size = 2),
        'dlg': st.sampled_from((None, None, 'loose', 'strict')),
        'expires': st.sampled_from((None, 5, 60, 0)),
        'compact': st.booleans(),
        'nocb': st.sampled_from((False, False, False, True)),
        'ver': st.sampled_from((1, 2)),
        'uack': st.sampled_from((None, None, None, 0.0, 0.7, 12.0)),
        'resps': st.lists(_resp(), max_size = 6),
    })

def strategy():
    return st.fixed_dictionaries({'trs': st.lists(_tr(), min_size = 1, max_size = 3)})

# --- one case -------------------------------------------------------------
def hostport(uri):
    u = uri.strip('<>')
    hp = u.split(':', 1)[1].split(';')[0].split('@')[-1]
    h, _, p = hp.partition(':')
    return (h, int(p) if p else 5060)

def run(case, rec):
    import sim
    from sippy.SipRequest import SipRequest
    from sippy.SipURL import SipURL
    from sippy.SipTo import SipTo
    from sippy.SipFrom import SipFrom
    from sippy.SipCallId import SipCallId
    from sippy.SipRoute import SipRoute
    from sippy.SipContact import SipContact
    w = sim.World()
    tm, gc = sim.make_tm(lambda *a: None)
    st_ = []
    horizon = 0.0
    for i, c in enumerate(case['trs']):
        s = {'c': c, 'deliv': [], 'i': i, 'start': c['start'] + i * 0.001, 'tobj': None}
        st_.append(s)
        w.at(s['start'], start, w, tm, s)
        for r in c['resps']:
            for rep in [0.0] + sorted(r['reps']):
                t = s['start'] + r['t'] + rep
                w.at(t, respond, w, s, r)
                horizon = max(horizon, t)
    w.run_until(horizon + 32 + 330 + 70)
    w.check_exceptions()
    claimed = set()
    for s in st_:
        judge(w, s, rec, claimed)
    for d in w.log:
        if d.seq not in claimed:
            raise Violation('unexpected datagram from the stack at +%.3f to %s: %r' % (d.t, d.dst, d.data[:300]))
    if tm.tclient:
        raise Violation('client transactions left behind: %r' % (list(tm.tclient),))

def start(w, tm, s):
    from sippy.SipRequest import SipRequest
    from sippy.SipURL import SipURL
    from sippy.SipTo import SipTo
    from sippy.SipFrom import SipFrom
    from sippy.SipCallId import SipCallId
    from sippy.SipRoute import SipRoute
    from sippy.SipContact import SipContact
    from sippy.SipExpires import SipExpires
    from sippy.MsgBody import MsgBody
    c, i = s['c'], s['i']
    rts = [SipRoute(x) for x in c['routes']]
    for r in rts:
        r.parse()
    target = None if not rts else (hostport(c['routes'][0]), 'udp')
    s['strict'] = c['dlg'] == 'strict' and len(rts) > 0
    if s['strict']:
        target = (hostport('sip:callee@192.0.2.%d:5080' % (10 + i)), 'udp')
    kw = {}
    if c['expires'] is not None:
        kw['expires'] = SipExpires(number = c['expires'])
    s['ruri'] = 'sip:callee%d@192.0.2.%d:5080' % (i, 10 + i)
    s['dst'] = hostport(c['routes'][0]) if rts and not s['strict'] else ('192.0.2.%d' % (10 + i), 5080)
    req = SipRequest(method = c['method'], ruri = SipURL(s['ruri']),
      to = SipTo('<sip:callee%d@192.0.2.%d>%s' % (i, 10 + i, ';tag=dlg%d' % i if c['dlg'] else '')), fr0m = SipFrom('"A" <sip:a@192.0.2.1>;tag=ft%d' % i),
      callid = SipCallId('cid-%d@x' % c['callid']), cseq = 100 + i,
      contact = SipContact('<sip:a@192.0.2.1:5060>'), routes = tuple(rts), target = target, user_agent = 'verif', **kw)
    def cb(*a):
        if c['ver'] != 1 and (len(a) != 2 or a[1] is not s['tobj']):
            raise Violation('response callback of transaction %d got transaction %r' % (i, a[1:]))
        r = a[0]
        m = r.getHFs('x-mark')
        s['deliv'].append((w.now, r.getSCode()[0], str(m[0].body) if m else None, r.getHFBody('to').getTag(), str(r.body) if r.body is not None else ''))
        if r.getSCode()[0] >= 200 and s['uackable'] and c['method'] == 'INVITE' and m:
            w.after(c['uack'], ack, w, tm, s)
    s['uackable'] = False
    t = None
    if c['uack'] is not None and not c['nocb']:
        from sippy.SipTransactionManager import SipTransaction
        t = SipTransaction()
        t.uack = True
        s['uackable'] = True
    n0 = len(w.log)
    s['tobj'] = tm.newTransaction(req, resp_cb = None if c['nocb'] else cb, cb_ifver = c['ver'], compact = c['compact'], t = t)
    if len(w.log) != n0 + 1:
        raise Violation('newTransaction sent %d datagrams' % (len(w.log) - n0))
    s['req'] = w.log[n0]

def ack(w, tm, s):
    s['acked_at'] = w.now
    tm.sendACK(s['tobj'])

def resp_text(s, r):
    m = s['req'].m
    code = r['code']
    txt = wire.response(m, code, 'R%d' % code, to_tag = r['tag'],
      extra = [('Record-Route', x) for x in r['rr']] + [('X-Mark', 'm%d' % r['mark'])],
      contact = '<%s>' % r['contact'] if r['contact'] else None,
      body = 'v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=-\r\nt=0 0\r\n' if r['body'] and 100 < code < 300 else '')
    f = r['foreign']
    if f == 'branch': txt = txt.replace(m.via.branch, m.via.branch + 'X', 1)
    elif f == 'cseq': txt = txt.replace('CSeq: %d ' % m.cseq[0], 'CSeq: %d ' % (m.cseq[0] + 500))
    elif f == 'method': txt = txt.replace('CSeq: %d %s' % m.cseq, 'CSeq: %d %s' % (m.cseq[0], 'UPDATE'))
    elif f == 'callid': txt = txt.replace('Call-ID: ' + m.callid, 'Call-ID: other' + m.callid)
    elif f == 'ftag': txt = txt.replace(';tag=' + m.frm.tag, ';tag=zz' + m.frm.tag)
    return txt

def respond(w, s, r):
    txt = resp_text(s, r)
    s.setdefault('arr', []).append((w.now, r, txt))
    w._inject(txt.encode(), s['dst'], ('192.0.2.1', 5060))

def judge(w, s, rec, claimed):
    c, start = s['c'], s['start']
    inv = c['method'] == 'INVITE'
    expires = (c['expires'] or 300) if inv else 32.0
    if inv and c['expires'] is None:
        expires = 300
    arr = [a for a in s.get('arr', []) if a[1]['foreign'] is None]
    seen = {}            # text -> time first accepted
    deliv, final, deadline = [], None, start + 32.0
    ringing = False
    optional = []
    last_prov = None
    for t, r, txt in arr:
        if final is not None:
            break
        if t >= deadline:
            break
        if r['code'] < 200:
            ringing = True
            if txt in seen and t - seen[txt] < 32.0:
                continue
            if txt in seen and t - seen[txt] < 64.5:
                # may or may not be remembered: the rest of this history is ambiguous
                optional.append((t, txt))
                seen[txt] = t
                return claim_loose(w, s, claimed)
            seen[txt] = t
            deliv.append((t, r, txt))
            deadline = t + expires
        else:
            final = (t, r, txt)
    first = arr[0][0] if arr else None
    stop = start + 32.0 if first is None else min(first, start + 32.0)
    # 1. request transmissions
    exp, t, d = [start], start, 0.5
    while t + d < stop:
        t += d
        d *= 2
        exp.append(t)
    got = [x for x in w.log if x.data == s['req'].data]
    for x in got:
        claimed.add(x.seq)
        if x.dst != s['dst']:
            raise Violation('transaction %d: request sent to %s, expected %s' % (s['i'], x.dst, s['dst']))
    if len(got) != len(exp) or any(abs(a.t - b) > 0.01 for a, b in zip(got, exp)):
        raise Violation('transaction %d: request transmitted at %s, expected %s' % (s['i'], [round(x.t - start, 3) for x in got], [round(x - start, 3) for x in exp]))
    # 2. what the originator was told
    want = [(t, r['code'], 'm%d' % r['mark'], wire.Msg(txt).to.tag, wire.Msg(txt).body) for t, r, txt in deliv]
    if final is not None:
        t, r, txt = final
        want.append((t, r['code'], 'm%d' % r['mark'], wire.Msg(txt).to.tag, wire.Msg(txt).body))
    else:
        want.append((deadline, 408, None, s['req'].m.to.tag, ''))
    if not c['nocb']:
        if [x[1:] for x in s['deliv']] != [x[1:] for x in want]:
            raise Violation('transaction %d: originator was given %s, expected %s' % (s['i'], [x[:4] for x in s['deliv']], [x[:4] for x in want]))
        for a, b in zip(s['deliv'], want):
            if abs(a[0] - b[0]) > 0.01:
                raise Violation('transaction %d: response %s delivered at +%.3f, expected +%.3f' % (s['i'], a[1:4], a[0] - start, b[0] - start))
    # 3. ACKs
    acks = [x for x in w.log if x.data[:4] == b'ACK ' and x.m.frm.tag == 'ft%d' % s['i']]
    for x in acks:
        claimed.add(x.seq)
    if not inv or final is None:
        if acks:
            raise Violation('transaction %d: unexpected ACK %r' % (s['i'], acks[0].data[:200]))
    else:
        t, r, txt = final
        times = [a[0] for a in arr if a[2] == txt and a[0] >= t and a[0] - t < 31.9]
        late = [a[0] for a in arr if a[2] == txt and a[0] - t >= 31.9]
        if s['uackable']:
            ta = s.get('acked_at')
            if ta is None:
                raise Violation('harness: no sendACK')
            times = [ta] + [x for x in times[1:] if x > ta]
        gt = [x.t for x in acks if not any(abs(x.t - l) < 1e-6 for l in late) or any(abs(x.t - y) < 1e-6 for y in times)]
        if len(gt) != len(times) or any(abs(a - b) > 0.01 for a, b in zip(gt, times)):
            raise Violation('transaction %d: final %d arrived at %s but ACKs were sent at %s' % (s['i'], r['code'], [round(x, 3) for x in times], [round(x, 3) for x in gt]))
        check_ack(s, r, txt, acks)
        rec.cls('acked-2xx' if r['code'] < 300 else 'acked-non2xx')
        if len(times) > 1: rec.cls('ack-repeated')
    rec.nt(len(arr) > 1 or len(exp) > 2)
    rec.cls('final' if final else 'timeout')
    if ringing: rec.cls('provisional')
    if len(s.get('arr', [])) != len(arr): rec.cls('foreign-response')

def claim_loose(w, s, claimed):
    for x in w.log:
        if x.data == s['req'].data or (x.data[:4] == b'ACK ' and x.m.frm.tag == 'ft%d' % s['i']):
            claimed.add(x.seq)

def check_ack(s, r, txt, acks):
    m, q = wire.Msg(txt), s['req'].m
    if any(a.data != acks[0].data for a in acks):
        raise Violation('transaction %d: repeated ACK differs from the first' % s['i'])
    for a in acks:
        k = a.m
        if k.cseq != (q.cseq[0], 'ACK') or k.callid != q.callid or k.frm.tag != q.frm.tag or k.frm.uri != q.frm.uri:
            raise Violation('ACK identity wrong: %r for request %r' % (k.hdrs, q.hdrs))
        if k.to.tag != (m.to.tag):
            raise Violation('ACK To tag %r, response had %r' % (k.to.tag, m.to.tag))
        if k.body:
            raise Violation('ACK carries a body')
        if len(k.all('via')) != 1:
            raise Violation('ACK has %d Via' % len(k.all('via')))
        routes = [wire.Addr(x).uri for x in k.all('route')]
        if r['code'] >= 300:
            if k.ruri != q.ruri or k.via.branch != q.via.branch or a.dst != s['dst']:
                raise Violation('ACK for %d: uri %s branch %s to %s; INVITE was uri %s branch %s to %s' % (r['code'], k.ruri, k.via.branch, a.dst, q.ruri, q.via.branch, s['dst']))
            want = [wire.Addr(x).uri for x in q.all('route')]
            if routes != want:
                raise Violation('ACK for %d has Route %s, INVITE had %s' % (r['code'], routes, want))
        else:
            if k.via.branch == q.via.branch or not (k.via.branch or '').startswith('z9hG4bK'):
                raise Violation('ACK for 2xx must use its own branch: %r' % k.via.branch)
            rr = [wire.Addr(x).uri for x in m.all('record-route')][::-1]
            tgt = m.contact.uri if m.contact is not None else None
            norm = lambda u: u.replace(';lr=on', ';lr')
            if rr and ';lr' not in rr[0]:
                euri, eroutes, edst = rr[0], rr[1:] + ([tgt] if tgt else []), hostport(rr[0])
            elif rr:
                euri, eroutes, edst = tgt or q.ruri, rr, hostport(rr[0])
            elif q.to.tag is not None and q.all('route'):
                # in-dialog: the dialog's route set applies
                qr = [wire.Addr(x).uri for x in q.all('route')]
                if s['strict']:
                    euri, eroutes, edst = q.ruri, qr[:-1] + [tgt or qr[-1]], s['dst']
                else:
                    euri, eroutes, edst = tgt or q.ruri, qr, s['dst']
            elif tgt:
                euri, eroutes, edst = tgt, [], hostport(tgt)
            else:
                euri, eroutes, edst = q.ruri, [], s['dst']
            if k.ruri != euri or [norm(x) for x in routes] != [norm(x) for x in eroutes] or a.dst != edst:
                raise Violation('ACK for 2xx: uri %s routes %s to %s; expected uri %s routes %s to %s' % (k.ruri, routes, a.dst, euri, eroutes, edst))

CHECK = Check('C05', 'exploration', [
    Part('client', strategy, run, quick = 1500, thorough = 20000, shards = 8,
      rule = '>=2 matching responses or >=2 retransmissions of the request'),
], ['virtual clock replaces clock_gettime; UDP sockets replaced below Udp_server.send_to'])
