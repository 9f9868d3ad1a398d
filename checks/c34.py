"""C34: NAT handling. Messages with every mix of Via, Contact and source through the real transaction manager, and whole calls."""
import ipaddress
from core import Check, Part, Violation
from hypothesis import strategies as st
import wire
from sim import STACK
from c12 import V

NETS = [ipaddress.ip_network(n) for n in ('10.0.0.0/8', '172.16.0.0/12', '192.168.0.0/16')]

def private(h):
    try: a = ipaddress.IPv4Address(h)
    except ValueError: return False
    return any(a in n for n in NETS)

EDGES = ('9.255.255.255', '10.0.0.0', '10.255.255.255', '11.0.0.0', '172.15.255.255', '172.16.0.0', '172.31.255.255', '172.32.0.0', '192.167.255.255', '192.168.0.0', '192.168.255.255', '192.169.0.0',
  '127.0.0.1', '169.254.1.1', '100.64.0.1', '0.0.0.0', '224.0.0.1', '255.255.255.254', '198.18.0.1', '10.10.10.10', '192.168.1.1', '172.20.0.9')
ip = st.one_of(st.sampled_from(EDGES), st.sampled_from(EDGES), st.integers(0, 2 ** 32 - 1).map(lambda n: str(ipaddress.IPv4Address(n))),
  st.tuples(st.sampled_from((10, 172, 192)), st.sampled_from((0, 15, 16, 31, 32, 167, 168, 169)), st.integers(0, 255), st.integers(0, 255)).map(lambda t: '.'.join(map(str, t))))
name = st.sampled_from(('ua.example.com', '10.example.com', 'h1.invalid', 'df7jal23ls0d.invalid', 'invalid.example.com', '192-168-0-1.example.org'))
SRC = ('198.51.100.20', '203.0.113.77', '10.9.8.7', '192.168.5.5')
port = st.sampled_from((None, None, 5060, 5062, 1024, 65535))

def contact():
    host = st.one_of(ip, ip, ip, name, st.just('255.255.255.255'), st.sampled_from(SRC), st.just('[fd00::1]'))
    return st.fixed_dictionaries({'h': host, 'p': st.one_of(port, port, st.just(0)), 'u': st.sampled_from((None, 'bob', '+100', 'a%40b')), 'dn': st.sampled_from((None, None, '"B, 10.0.0.1"', 'Bob')),
      'up': st.sampled_from(('', '', ';transport=udp', ';ob;x=10.0.0.1')), 'hp': st.sampled_from(('', '', ';expires=60', ';q=0.5;+sip.instance="<urn:x:1>"'))})

def ctext(c, host = None, prt = False):
    h, p = (c['h'], c['p']) if host is None else (host, prt)
    u = 'sip:%s%s%s%s' % ('' if c['u'] is None else c['u'] + '@', h, '' if p is None else ':%d' % p, c['up'])
    return '%s<%s>%s' % ('' if c['dn'] is None else c['dn'] + ' ', u, c['hp'])

def norm(t):
    """Contact text -> comparable structure."""
    a = wire.Addr(t)
    u = a.uri
    if not u.startswith('sip:'): V('contact', 'Contact %r is no sip: URI', t)
    rest = t[t.index(u) + len(u) + 1:]
    u = u[4:]
    ub, at, hp = u.rpartition('@')
    hp, _, up = hp.partition(';')
    if hp.startswith('['): h, _, p = hp.partition(']')[0] + ']', 0, hp.partition(']')[2][1:]
    else: h, _, p = hp.partition(':')
    return (a.name, ub if at else None, h, int(p) if p else None, sorted(x for x in up.split(';') if x), sorted(rest.split(';')))

def request():
    return st.fixed_dictionaries({'m': st.sampled_from(('INVITE', 'INVITE', 'REGISTER', 'OPTIONS', 'SUBSCRIBE')), 'src': st.tuples(st.sampled_from(SRC), st.sampled_from((5060, 5062, 1024, 40001))).map(list),
      'vh': st.one_of(st.none(), st.none(), ip, name, st.sampled_from(SRC)), 'vp': st.one_of(port, st.just('src')), 'rport': st.sampled_from((None, None, '', '5060', '0', '9')),
      'recv': st.sampled_from((None, None, None, '192.0.2.66', '10.66.66.66')), 'up': st.sampled_from((0, 0, 0, 1, 2)), 'one': st.booleans(), 'c': st.one_of(st.lists(contact(), min_size = 1, max_size = 3), st.lists(contact(), min_size = 1, max_size = 1), st.just([]), st.just('*')),
      'code': st.sampled_from((200, 404, 302))})

def reqs():
    return st.fixed_dictionaries({'nat': st.sampled_from((True, True, False)), 'rs': st.lists(request(), min_size = 1, max_size = 6)})

def run_req(case, rec):
    import sim
    w = sim.World()
    seen, out = {}, {}
    def on_req(req, t):
        cid = str(req.getHFBody('call-id'))
        seen.setdefault(cid, []).append(wire.Msg(str(req)))
        resp = req.genResponse(case['rs'][int(cid[1:])]['code'], 'X')
        return (resp, None, None)
    tm, gc = sim.make_tm(on_req)
    tm.nat_traversal = case['nat']
    w.out_hook = lambda dg: (out.setdefault(dg.m.callid, []).append(dg), [])[1]
    for i, q in enumerate(case['rs']):
        src = tuple(q['src'])
        vh = src[0] if q['vh'] is None else q['vh']
        vp = src[1] if q['vp'] == 'src' else q['vp']
        via = 'SIP/2.0/UDP %s%s;branch=z9hG4bKx%d' % (vh, '' if vp is None else ':%d' % vp, i)
        if q['rport'] is not None: via += ';rport' + ('=' + q['rport'] if q['rport'] else '')
        if q['recv'] is not None: via += ';received=' + q['recv']
        ups = ['SIP/2.0/UDP 10.3.%d.4:5099;branch=z9hG4bKup%d;received=10.1.1.1;rport=7' % (k, k) for k in range(q['up'])]
        extra = [('Via', v) for v in ups] + [('Subject', 'x 10.0.0.1'), ('Record-Route', '<sip:10.4.4.4;lr>')]
        if q['c'] == '*': cs = ['*']
        else: cs = [ctext(c) for c in q['c']]
        if cs: extra += [('Contact', ', '.join(cs))] if q['one'] else [('Contact', x) for x in cs]
        body = 'v=0\r\no=- 1 1 IN IP4 10.0.0.5\r\ns=-\r\nc=IN IP4 10.0.0.5\r\nt=0 0\r\nm=audio 4000 RTP/AVP 0\r\n'
        text = wire.request(q['m'], 'sip:200@10.0.0.1', via, '<sip:a@10.0.0.2>;tag=f', '<sip:b@192.168.0.3>', 'r%d' % i, 7, extra = extra, body = body)
        w.inject(text, src, STACK, 0.001)
        w.run(0.05)
        cid = 'r%d' % i
        got = seen.get(cid, [])
        if len(got) != 1: V('deliver', 'request %r delivered %d times', text, len(got))
        m = got[0]
        # Contacts
        want = []
        for c in (q['c'] if q['c'] != '*' else []):
            hit = case['nat'] and q['up'] == 0 and (private(c['h']) or c['p'] == 0 or c['h'] == '255.255.255.255')
            want.append(norm(ctext(c, src[0], src[1]) if hit else ctext(c)))
            rec.cls('replaced' if hit else 'kept')
            if hit: rec.nt(True)
        have = [x for h in m.all('contact') for x in wire.split_q(h, ',')]
        if q['c'] == '*':
            if [x.strip() for x in have] != ['*']: V('star', 'Contact: * became %r', have)
        else:
            have = [norm(x.strip()) for x in have]
            if have != want: V('contact', 'nat %s, from %r, Contact %r, %d Vias: delivered as %r, expected %r', case['nat'], src, cs, 1 + q['up'], have, want)
        for h in ('subject', 'record-route', 'from', 'to', 'call-id'):
            if m.get(h) != wire.Msg(text).get(h): V('other', '%s changed to %r', h, m.get(h))
        if m.body != body: V('body', 'body changed to %r', m.body)
        if m.all('via')[1:] != ups and [x.strip() for v in m.all('via') for x in wire.split_q(v, ',')][1:] != ups: V('vias', 'lower Via fields changed: %r', m.all('via'))
        # response
        rs = out.get(cid, [])
        if not rs: V('noresp', 'no response')
        d = rs[0]
        behind = case['nat'] and (private(vh) or vh.endswith('.invalid'))
        rp = src[1] if behind or q['rport'] is not None else (5060 if vp is None else vp)
        rec.cls('nated' if behind else 'asked' if q['rport'] is not None else 'plain')
        if behind or (q['rport'] is not None and vp != src[1]): rec.nt(True)
        if tuple(d.dst) != (src[0], rp): V('dest', 'nat %s: response to Via %r from %r went to %r, expected %r', case['nat'], via, src, d.dst, (src[0], rp))
        v = d.m.vias[0]
        if vh != src[0] and v.params.get('received') != src[0]: V('received', 'Via %r from %r comes back as %r', via, src, d.m.all('via')[0])
        if vh == src[0] and v.params.get('received', src[0]) != src[0]: V('received', 'Via %r from %r comes back as %r', via, src, d.m.all('via')[0])
        if q['rport'] is not None and v.params.get('rport') != str(src[1]): V('rport', 'Via %r from %r comes back as %r', via, src, d.m.all('via')[0])
    w.check_exceptions()

# ---- responses -------------------------------------------------------------
def resps():
    one = st.fixed_dictionaries({'dst': st.sampled_from(('198.51.100.9', '198.51.100.9', '10.2.2.2', '172.31.0.1', '172.32.0.1')), 'from': st.sampled_from((None, None, None, ['198.51.100.99', 5090], ['198.51.100.9', 5093])), 'code': st.sampled_from((180, 183, 200, 200)),
      'c': contact().filter(lambda c: c['p'] != 0 and c['h'] != '255.255.255.255' and not c['h'].startswith('[')), 'rr': st.sampled_from((0, 0, 1))})
    return st.fixed_dictionaries({'nat': st.sampled_from((True, True, False)), 'ts': st.lists(one, min_size = 1, max_size = 4)})

def run_resp(case, rec):
    import sim
    from sippy.SipRequest import SipRequest
    from sippy.SipURL import SipURL
    w = sim.World()
    out = []
    w.out_hook = lambda dg: (out.append(dg), [])[1]
    tm, gc = sim.make_tm(lambda req, t: None)
    tm.nat_traversal = case['nat']
    from sippy.SipConf import SipConf
    for i, q in enumerate(case['ts']):
        got = []
        del out[:]
        dst = (q['dst'], 5080)
        text = wire.request('INVITE', 'sip:b@%s:%d' % dst, 'SIP/2.0/UDP %s:%d;branch=z9hG4bKc%d' % (STACK + (i,)), '<sip:a@x>;tag=q', '<sip:b@y>', 'c%d' % i, 5, contact = '<sip:a@%s>' % STACK[0])
        req = SipRequest(text)
        req.setTarget((dst, 'udp'))
        tm.newTransaction(req, lambda resp: got.append(wire.Msg(str(resp))))
        w.run(0.01)
        if not out: V('send', 'request not sent')
        inv = out[0].m
        src = dst if q['from'] is None else tuple(q['from'])
        extra = [('Record-Route', '<sip:10.5.5.5;lr>')] * q['rr']
        del out[:]
        w.inject(wire.response(inv, q['code'], 'OK', to_tag = 'z', extra = extra, contact = ctext(q['c'])), src, STACK, 0.001)
        w.run(0.05)
        if len(got) != 1: V('deliver', 'response delivered %d times', len(got))
        hit = case['nat'] and not private(dst[0]) and private(q['c']['h'])
        want = norm(ctext(q['c'], src[0], src[1]) if hit else ctext(q['c']))
        have = [norm(x) for x in got[0].all('contact')]
        rec.nt(private(q['c']['h']))
        rec.cls('replaced' if hit else 'kept')
        if have != [want]: V('contact', 'nat %s, request to %r, response from %r, Contact %r delivered as %r', case['nat'], dst, src, ctext(q['c']), got[0].all('contact'))
        if got[0].all('record-route') != ['<sip:10.5.5.5;lr>'] * q['rr']: V('rr', 'Record-Route changed: %r', got[0].all('record-route'))
        w.run(100)
    w.check_exceptions()

# ---- whole calls -----------------------------------------------------------
DEST = ('198.51.100.10', 6100)
CALLER = ('203.0.113.100', 5070)

def call():
    c = st.sampled_from((None, None, '10.0.0.9:5060', '192.168.1.2', '172.16.5.5:5999'))
    return st.fixed_dictionaries({'nat': st.sampled_from((True, True, False)), 'ac': c, 'bc': c, 'reinv': st.sampled_from((None, None, 'a', 'b')), 'rc': c, 'via2': st.sampled_from((False, False, True)), 'av': st.sampled_from((None, '10.0.0.9:5060'))})

def run_call(case, rec):
    import b2b, scen
    from ep import EP
    r = b2b.Rig(['-u', '-s', '%s:%d' % DEST, '-D', '-A', '0'] + (['--nat_traversal=1'] if case['nat'] else []))
    w = r.w
    sent = []
    w.out_hook = lambda dg: (sent.append(dg), [0.01])[1]
    A, B = EP(w, CALLER, 'a'), EP(w, DEST, 'b')
    if case['bc']: B.contact = '<sip:b@%s>' % case['bc']
    if case['ac']: A.contact = '<sip:a@%s>' % case['ac']
    bl = []
    def on_call(leg):
        bl.append(leg)
        B.answer(leg, 200, 'OK', body = scen.sdp(1))
    B.on_call = on_call
    extra = [('Via', 'SIP/2.0/UDP 10.7.7.7;branch=z9hG4bKold')] if case['via2'] else []
    al = A.call('c@x', 'sip:200@192.0.2.1', '<sip:100@192.0.2.100>', '<sip:200@192.0.2.1>', body = scen.sdp(0), extra = extra)
    w.run_until(2.0)
    aT, bT = tgt(case, 'a', case['ac'], CALLER, case['via2']), tgt(case, 'b', case['bc'], DEST, False)
    acks = [d for d in sent if d.m.is_req and d.m.method == 'ACK' and d.m.callid != 'c@x']
    if not acks or tuple(acks[0].dst) != bT: V('ack', 'nat %s: ACK for an answer with Contact %r from %r went to %r', case['nat'], B.contact, DEST, acks and acks[0].dst)
    if bT == DEST and aT == CALLER and case['reinv']:
        X, leg = (A, al) if case['reinv'] == 'a' else (B, bl[0])
        if al.state != 'up' or bl[0].state != 'up': V('up', 'call is not up: %s/%s', al.state, bl[0].state)
        home = X.addr
        X.contact = '<sip:n@%s>' % (case['rc'] or '%s:%d' % home)
        X.indialog(leg, 'INVITE', body = scen.sdp(4, 3))
        w.run_until(4.0)
        t = tgt(case, case['reinv'], case['rc'], home, False)
        if case['reinv'] == 'a': aT = t
        else: bT = t
        rec.cls('reinv')
    rec.nt(bool(case['ac'] or case['bc']))
    n = len(sent)
    r.cmd('d *')
    w.run_until(6.0)
    for nm, cid, t in (('caller', 'c@x', aT), ('callee', bl[0].callid, bT)):
        b = [d for d in sent[n:] if d.m.is_req and d.m.method == 'BYE' and d.m.callid == cid]
        if not b: V('bye', 'no BYE to the %s', nm)
        if tuple(b[0].dst) != t: V('target', 'nat %s: BYE to the %s went to %r instead of %r', case['nat'], nm, b[0].dst, t)
        rec.cls('public' if t in (CALLER, DEST) else 'private')
    w.run_until(200.0)
    w.check_exceptions()

def tgt(case, side, c, addr, far):
    """Where requests to that party must go."""
    if c is None: return addr
    if case['nat'] and not far: return addr
    h, _, p = c.partition(':')
    return (h, int(p or 5060))

CHECK = Check('C34', 'exploration', [
    Part('request', reqs, run_req, quick = 1500, thorough = 60000, shards = 4, rule = 'a Contact had to be replaced, or the response had to go to the source port'),
    Part('response', resps, run_resp, quick = 1200, thorough = 50000, shards = 3, rule = 'a Contact named a private address'),
    Part('call', call, run_call, quick = 400, thorough = 15000, shards = 1, rule = 'a party gave a private Contact'),
])
