"""C06: server transactions driven by scripted clients (retransmissions, ACKs, loops), judged by an independent model."""
from hypothesis import strategies as st
from core import Check, Part, Violation
import wire

SRC = (('198.51.100.20', 5060), ('198.51.100.21', 5072), ('10.0.0.5', 6001))
VIAS = ('198.51.100.20:5060', '198.51.100.20', '198.51.100.21:5072', '198.51.100.99:5099', '10.0.0.5:5061', 'proxy.example.com:5077', '10.0.0.5')

_t = st.one_of(st.integers(0, 50).map(lambda x: x / 10.0), st.integers(0, 310).map(lambda x: x / 10.0))

def _req():
    return st.fixed_dictionaries({
        'method': st.sampled_from(('INVITE', 'INVITE', 'INVITE', 'BYE', 'OPTIONS', 'INFO', 'REGISTER')),
        'at': st.sampled_from((0.0, 0.0, 0.4, 5.0, 29.0)),
        'src': st.integers(0, len(SRC) - 1), 'via': st.integers(0, len(VIAS) - 1),
        'rport': st.booleans(), 'vias': st.integers(0, 2), 'rr': st.integers(0, 2),
        'cid': st.integers(0, 1), 'expires': st.sampled_from((None, None, 200)),
        'rets': st.lists(_t, max_size = 6),
        'prov': st.lists(st.tuples(_t, st.sampled_from((100, 180, 183))), max_size = 3),
        'inret': st.booleans(),              # first response handed back as return value
        'final': st.tuples(_t, st.sampled_from((200, 200, 200, 202, 302, 404, 486, 500, 603))),
        'body': st.booleans(),
        'ack': st.one_of(st.none(), _t), 'ackrep': st.lists(st.integers(1, 40).map(lambda x: x / 10.0), max_size = 2),
        'badack': st.lists(st.tuples(_t, st.sampled_from(('tag', 'cseq', 'callid', 'ftag'))), max_size = 1),
        'cbs': st.sampled_from(('both', 'both', 'none', 'ack', 'noack')),
    })

def strategy():
    return st.fixed_dictionaries({'reqs': st.lists(_req(), min_size = 1, max_size = 3), 'pr': st.sampled_from((0, 0, 0, 3.0)),
      'loops': st.lists(st.fixed_dictionaries({'at': st.sampled_from((0.2, 1.0, 6.0)), 'depth': st.integers(1, 2),
        'mut': st.sampled_from((None, None, 'cseq', 'branch', 'callid'))}), max_size = 2)})

class App(object):
    pass

def run(case, rec):
    import sim
    w = sim.World()
    states = {}
    calls = []
    def on_req(req, t):
        m = req.getMethod()
        key = (str(req.getHFBody('call-id')), req.getHFBody('cseq').getCSeq()[0])
        calls.append((w.now, m, key))
        s = states.get(key)
        if s is None:
            if key[0].startswith('loop'):
                return (req.genResponse(200, 'OK'), None, None)
            raise Violation('application was handed a request nobody sent: %s %s' % (m, key))
        s['seen'].append(w.now)
        if m != s['c']['method']:
            raise Violation('application saw method %s for a %s' % (m, s['c']['method']))
        if len(s['seen']) > 1:
            return None
        s['t'], s['sreq'] = t, req
        evs = s['evs']
        first = 0
        rval = (None, None, s['noack'])
        if s['c']['inret'] and evs[0][0] == 0.0:
            rval = (mkresp(s, 0), None, s['noack'])
            s['sent'].append((w.now, evs[0][1]))
            first = 1
            if len(evs) == 1:
                s['final_ret'] = True
        for i in range(first, len(evs)):
            w.after(evs[i][0], send, i, s)
        return rval
    def mkresp(s, i):
        code = s['evs'][i][1]
        from sippy.MsgBody import MsgBody
        body = MsgBody('v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=-\r\nt=0 0\r\n') if s['c']['body'] and code > 100 and code < 300 else None
        r = s['sreq'].genResponse(code, 'Code%d' % code, body = body)
        if code > 100:
            r.getHFBody('to').setTag(s['tag'])
        return r
    def send(i, s):
        r = mkresp(s, i)
        s['sent'].append((w.now, s['evs'][i][1]))
        kw = {}
        if s['evs'][i][1] >= 200 and s['ackcb'] is not None:
            kw['ack_cb'] = s['ackcb']
        tm.sendResponse(r, s['t'] if i % 2 else None, **kw)
    tm, gc = sim.make_tm(on_req, provisional_retr = case['pr'])
    horizon = 10.0
    for i, c in enumerate(case['reqs']):
        key = ('cid%d@h' % c['cid'], 10 + i)
        s = {'c': c, 'i': i, 'seen': [], 'sent': [], 'acks': [], 'noacks': [], 'tag': 'srvtag%d' % i, 'final_ret': False}
        states[key] = s
        prov = sorted(c['prov'])
        prov = [(t, code) for j, (t, code) in enumerate(prov) if code != 100 or j == 0]
        prov = [(t + 0.0007 * j, code) for j, (t, code) in enumerate(prov)]
        fin = (c['final'][0] if not prov else prov[-1][0] + 0.0011 + c['final'][0], c['final'][1])
        if fin[0] < 0.05 and not prov:
            fin = (0.0, fin[1])
        s['evs'] = prov + [fin]
        s['noack'] = (lambda s = s: s['noacks'].append(w.now)) if c['cbs'] in ('both', 'noack') else None
        s['ackcb'] = (lambda req, s = s: s['acks'].append(w.now)) if c['cbs'] in ('both', 'ack') else None
        s['text'] = reqtext(c, i)
        at = c['at'] + 0.003 * i
        s['at'] = at
        s['arr'] = [at] + sorted(at + 0.0213 + x for x in c['rets'])
        for t in s['arr']:
            w.at(t, arrive, w, s)
        s['f'] = at + fin[0]
        if c['method'] == 'INVITE':
            if c['ack'] is not None:
                s['ackat'] = s['f'] + 0.0471 + c['ack']
                for t in [0.0] + sorted(c['ackrep']):
                    w.at(s['ackat'] + t, ackin, w, s, None)
            else:
                s['ackat'] = None
            for t, how in c['badack']:
                w.at(s['f'] + 0.0333 + t, ackin, w, s, how)
        horizon = max(horizon, s['f'] + 70.0, max(s['arr']) + 1.0)
    loops = [dict(l) for l in case['loops']]
    for j, l in enumerate(loops):
        w.at(0.05 + j * 0.01, mkloop, w, tm, l, j)
    w.run_until(horizon)
    w.check_exceptions()
    for s in states.values():
        judge(w, s, rec, case)
    for l in loops:
        judge_loop(w, l, rec, calls)
    if tm.tserver:
        raise Violation('server transactions left behind: %r' % list(tm.tserver))
    rec.nt(any(len(s['arr']) > 1 for s in states.values()))

def reqtext(c, i):
    src = SRC[c['src']]
    via = 'SIP/2.0/UDP %s;branch=z9hG4bKsrv%d%s' % (VIAS[c['via']], i, ';rport' if c['rport'] else '')
    vias = [via] + ['SIP/2.0/UDP 203.0.113.%d:5060;branch=z9hG4bKlow%d' % (7 + k, k) for k in range(c['vias'])]
    extra = [('Record-Route', '<sip:203.0.113.%d;lr>' % (30 + k)) for k in range(c['rr'])]
    if c['expires'] is not None:
        extra.append(('Expires', str(c['expires'])))
    return wire.request(c['method'], 'sip:me@192.0.2.1', vias, '"C" <sip:c@198.51.100.20>;tag=cft%d' % i, '<sip:me@192.0.2.1>',
      'cid%d@h' % c['cid'], 10 + i, extra = extra, contact = '<sip:c@198.51.100.20:5060>')

def arrive(w, s):
    w._inject(s['text'].encode(), SRC[s['c']['src']], ('192.0.2.1', 5060))

def ackin(w, s, how):
    m = wire.Msg(s['text'])
    code = s['c']['final'][1]
    branch = m.via.branch if code >= 300 else m.via.branch + 'ack'
    tag, cs, cid, ft = s['tag'], m.cseq[0], m.callid, 'cft%d' % s['i']
    if how == 'tag': tag = 'wrong'
    elif how == 'cseq': cs += 100
    elif how == 'callid': cid = 'x' + cid
    elif how == 'ftag': ft = 'x' + ft
    txt = wire.request('ACK', 'sip:me@192.0.2.1', 'SIP/2.0/UDP 198.51.100.20:5060;branch=%s' % branch, '"C" <sip:c@198.51.100.20>;tag=%s' % ft,
      '<sip:me@192.0.2.1>;tag=%s' % tag, cid, cs)
    w._inject(txt.encode(), SRC[s['c']['src']], ('192.0.2.1', 5060))

def mine(s, d):
    return d.data[:8] == b'SIP/2.0 ' and d.m.callid == 'cid%d@h' % s['c']['cid'] and d.m.cseq[0] == 10 + s['i']

def judge(w, s, rec, case):
    c = s['c']
    i = s['i']
    if s['seen'] != [s['at']] and (len(s['seen']) != 1 or abs(s['seen'][0] - s['at']) > 0.01):
        raise Violation('request %d (%s) delivered to the application at %s, expected once at %.3f' % (i, c['method'], s['seen'], s['at']))
    # response destination
    q = wire.Msg(s['text'])
    src = SRC[c['src']]
    host, port = q.via.host, q.via.port or 5060
    dst = (src[0] if host != src[0] else host, src[1] if c['rport'] else port)
    # expected transmissions
    sends = [(s['at'] + t, code) for t, code in s['evs']]
    f = s['f']
    exp = [(t, code) for t, code in sends]
    end = f + 32.0
    if c['method'] == 'INVITE':
        if s['ackat'] is not None:
            end = min(end, s['ackat'])
        t, d = f, 0.5
        while t + d < end:
            t += d
            d *= 2
            exp.append((t, sends[-1][1]))
    if case['pr'] > 0:
        for k in range(len(sends) - 1):
            t, code = sends[k]
            if code <= 100:
                continue
            n = t + case['pr']
            while n < sends[k + 1][0] - 1e-6:
                exp.append((n, code))
                n += case['pr']
    # retransmitted requests
    for t in s['arr'][1:]:
        prev = [x for x in sends if x[0] < t - 1e-9]
        if t > f + 31.5:
            return rec.cls('late-retransmission')
        if prev:
            exp.append((t, prev[-1][1]))
            rec.cls('replayed-final' if prev[-1][1] >= 200 else 'replayed-provisional')
        else:
            rec.cls('absorbed')
    got = [d for d in w.log if mine(s, d)]
    exp.sort()
    a, b = [(round(d.t, 2), d.m.code) for d in got], [(round(t, 2), code) for t, code in exp]
    if len(a) != len(b) or any(x[1] != y[1] or abs(x[0] - y[0]) > 0.015 for x, y in zip(a, b)):
        raise Violation('%s %d: responses transmitted %s, expected %s' % (c['method'], i, a, b))
    first = {}
    for d in got:
        if d.dst != dst:
            raise Violation('%s %d: response sent to %s, top Via %r from %s determines %s' % (c['method'], i, d.dst, q.get('via'), src, dst))
    # identical repetitions: latest response byte for byte
    cur = None
    k = 0
    starts = sorted(sends)
    for d in got:
        while k < len(starts) and abs(d.t - starts[k][0]) < 0.0005 and d.m.code == starts[k][1]:
            cur = d
            k += 1
            break
        else:
            if cur is not None and d.data != cur.data:
                raise Violation('%s %d: response repeated at +%.3f differs from the latest one sent:\n%r\n%r' % (c['method'], i, d.t, d.data, cur.data))
    for d in got:
        m = d.m
        hv = lambda x: [(v.host, v.port, v.branch) for v in x.vias]
        if hv(m) != hv(q) or (m.frm.name, m.frm.uri, m.frm.params) != (q.frm.name, q.frm.uri, q.frm.params) or m.to.uri != q.to.uri or m.callid != q.callid or m.cseq != q.cseq or m.all('record-route') != q.all('record-route'):
            raise Violation('%s %d: response headers do not mirror the request: %r vs %r' % (c['method'], i, m.hdrs, q.hdrs))
        if m.code > 100 and not m.to.tag:
            raise Violation('response %d without To tag' % m.code)
        if host != src[0] and m.via.params.get('received') != src[0]:
            raise Violation('top Via of the response lacks received=%s: %r' % (src[0], m.get('via')))
        if c['rport'] and m.via.params.get('rport') != str(src[1]):
            raise Violation('top Via of the response lacks rport=%s: %r' % (src[1], m.get('via')))
    # ACK notifications
    if c['method'] != 'INVITE':
        if s['acks'] or s['noacks']:
            raise Violation('ACK notification for a %s' % c['method'])
        return
    acked = s['ackat'] is not None and s['ackat'] < f + 32.0
    wa = [s['ackat']] if acked and s['ackcb'] is not None and not s['final_ret'] else []
    wn = [f + 32.0] if not acked and s['noack'] is not None else []
    rec.cls('acked' if acked else 'not-acked')
    if len(s['acks']) != len(wa) or len(s['noacks']) != len(wn) or any(abs(x - y) > 0.01 for x, y in zip(s['acks'] + s['noacks'], wa + wn)):
        raise Violation('INVITE %d: application told of ACK at %s and of missing ACK at %s; expected %s and %s' % (i, s['acks'], s['noacks'], wa, wn))

# --- loops ----------------------------------------------------------------
def mkloop(w, tm, l, j):
    from sippy.SipRequest import SipRequest
    from sippy.SipURL import SipURL
    from sippy.SipFrom import SipFrom
    from sippy.SipCallId import SipCallId
    n0 = len(w.log)
    req = SipRequest(method = 'INVITE', ruri = SipURL('sip:x@192.0.2.77'), fr0m = SipFrom('<sip:a@192.0.2.1>;tag=lf%d' % j),
      callid = SipCallId('loop%d' % j), cseq = 5, user_agent = 'verif')
    tm.newTransaction(req, resp_cb = lambda r: None)
    l['_req'] = w.log[n0]
    l['_j'] = j
    w.after(l['at'], inject_loop, w, l, j)

def inject_loop(w, l, j):
    txt = l['_req'].text
    vias = ''.join('Via: SIP/2.0/UDP 198.51.100.5%d:5060;branch=z9hG4bKloop%d-%d\r\n' % (k, j, k) for k in range(l['depth']))
    head, rest = txt.split('\r\n', 1)
    txt = head + '\r\n' + vias + rest
    if l['mut'] == 'cseq': txt = txt.replace('CSeq: 5 ', 'CSeq: 6 ')
    elif l['mut'] == 'callid': txt = txt.replace('Call-ID: loop', 'Call-ID: loopx')
    elif l['mut'] == 'branch': txt = txt.replace(l['_req'].m.via.branch, 'z9hG4bKother%d' % j)
    l['_at'] = w.now
    w._inject(txt.encode(), ('198.51.100.50', 5060), ('192.0.2.1', 5060))

def judge_loop(w, l, rec, calls):
    j = l.pop('_j')
    l.pop('_req')
    at = l.pop('_at')
    cid = 'loop%d' % j if l['mut'] != 'callid' else 'loopx%d' % j
    rs = [d for d in w.log if d.data[:8] == b'SIP/2.0 ' and d.m.callid == cid]
    app = [x for x in calls if x[2][0] == cid]
    if l['mut'] is None:
        rec.cls('loop')
        if app or not rs or any(d.m.code != 482 for d in rs) or rs[0].dst != ('198.51.100.50', 5060):
            raise Violation('looped request: application calls %s, responses %s' % (app, [(d.m.code, d.dst) for d in rs]))
    elif len(app) != 1 or any(d.m.code != 200 for d in rs):
        raise Violation('request that only resembles a pending client transaction (%s differs): application calls %s, responses %s' % (l['mut'], app, [d.m.code for d in rs]))

CHECK = Check('C06', 'exploration', [
    Part('server', strategy, run, quick = 1200, thorough = 12000, shards = 8,
      rule = 'at least one request retransmission arrives'),
], ['virtual clock replaces clock_gettime; UDP sockets replaced below Udp_server.send_to'])
