"""C28: REGISTER and SUBSCRIBE through the stateful proxy of the b2bua."""
from hypothesis import strategies as st
from core import Check, Part, Violation

def V(cond, key, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg, key)

SENDERS = [('198.51.100.1', 5060), ('198.51.100.2', 5070), ('198.51.100.1', 5072)]
DOWN = ('203.0.113.7', 5080)

def tolist(x): return [tolist(y) for y in x] if isinstance(x, (tuple, list)) else {k: tolist(v) for k, v in x.items()} if isinstance(x, dict) else x

XH = [['X-Foo', 'some text; a=b, "c"'], ['User-Agent', 'phone/1.0 (x)'], ['Expires', '3600'], ['Allow', 'INVITE, ACK, BYE'], ['X-Foo', 'again'], ['Require', 'pref'], ['Event', 'presence'], ['Accept', 'application/pidf+xml'],
  ['Authorization', 'Digest username="a", realm="r", nonce="n", uri="sip:x", response="00112233445566778899aabbccddeeff"'], ['Date', 'Thu, 21 Feb 2002 13:02:03 GMT'], ['Subject', ''], ['P-Asserted-Identity', '<sip:x@example.com>'], ['Route', '<sip:203.0.113.99;lr>'], ['Content-Language', 'en'], ['Supported', 'timer'], ['Reason', 'SIP;cause=200']]
RH = [['X-Bar', 'value'], ['Server', 'reg/2'], ['Expires', '60'], ['Min-Expires', '120'], ['WWW-Authenticate', 'Digest realm="r",nonce="n1"'], ['Path', '<sip:192.0.2.1:5060;lr>'], ['Service-Route', '<sip:s.example.com;lr>'], ['Contact', '<sip:u@198.51.100.1>;expires=60'], ['Retry-After', '5'], ['Record-Route', '<sip:203.0.113.7;lr>'], ['Warning', '399 x "y"'], ['Date', 'Thu, 21 Feb 2002 13:02:03 GMT']]
req = st.fixed_dictionaries({
  'm': st.sampled_from(['REGISTER', 'REGISTER', 'SUBSCRIBE']), 's': st.integers(0, 2), 't': st.sampled_from([0.0, 0.0, 0.0113, 0.3113, 2.0113]),
  'mf': st.sampled_from([70, 70, 2, 1, 0, None, 255, 5]), 'ct': st.sampled_from(['<sip:u@198.51.100.1:5060>', '<sip:u@10.0.0.1>;expires=5', '*', None, '<sip:a@198.51.100.1>, <sip:b@198.51.100.1>;q=0.5']),
  'sup': st.sampled_from([None, None, ['path'], ['path'], ['timer,path'], ['path, gruu'], ['timer', 'path'], ['pathx'], ['gruu , path'], ['timer']]), 'path': st.sampled_from([[], [], ['<sip:p1.example.com;lr>'], ['<sip:p2.example.com;lr>', '<sip:p1.example.com;lr>'], ['<sip:p2.example.com;lr>,<sip:p1.example.com;lr>']]),
  'vias': st.integers(0, 2), 'rport': st.booleans(), 'xh': st.lists(st.integers(0, len(XH) - 1), max_size = 4), 'body': st.sampled_from(['', '', 'some text\r\n', 'line one\r\n\r\nline two']), 'same': st.sampled_from([False, False, True]),
  'retr': st.sampled_from([[], [], [0.5], [0.5, 1.5], [0.02, 3.0], [0.5, 1.5, 3.5, 7.5, 11.5, 15.5], [5.0, 20.0]]),
  'resp': st.lists(st.tuples(st.sampled_from([0.0113, 0.4113, 0.0113, 3.0113, 10.0113, 33.0]), st.sampled_from([100, 180, 183, 200, 200, 200, 401, 404, 423, 503, 302, 603]), st.lists(st.integers(0, len(RH) - 1), max_size = 3), st.sampled_from(['', '', 'body\r\n']), st.sampled_from([1, 1, 1, 2]), st.booleans()), max_size = 4)})

def strategy():
    return st.fixed_dictionaries({'reqs': st.lists(req, min_size = 1, max_size = 4), 'lossf': st.lists(st.booleans(), max_size = 4), 'lossb': st.lists(st.booleans(), max_size = 3), 'auth': st.booleans()}).map(tolist)

def norm(v): return ' '.join(v.replace(' ,', ',').replace(', ', ',').replace('; ', ';').split())

def same_via(a, b, src, top):
    """Is Via value a (as the stack sent it on) the received b, apart from the received and rport marks on the topmost?"""
    import wire
    x, y = wire.Via(a), wire.Via(b)
    p, q = dict(x.params), dict(y.params)
    if top:
        for d in (p, q): d.pop('received', None); d.pop('rport', None)
    return (x.proto, x.host, x.port, p) == (y.proto, y.host, y.port, q)

def hdrs(m, skip):
    """name -> values in order"""
    out = {}
    for n, _ in m.hdrs:
        if n not in skip and n not in out: out[n] = [norm(v) for v in m.all(n)]
    return out

def run(case, rec):
    import sim, b2b, wire
    from sim import STACK
    args = ['--sip_proxy=%s:%d' % DOWN] + ([] if case['auth'] else ['-u', '-s', '203.0.113.50'])
    r = b2b.Rig(args)
    w = r.w
    txs = []                    # one per request of the case
    got = {}                    # branch -> what was received downstream first
    lossf, lossb = list(case['lossf']), list(case['lossb'])
    sent_back = []              # everything sent to senders: (t, dst, data, lost)
    forwarded = []
    def out(dg):
        if dg.dst == DOWN:
            lost = lossf.pop(0) if lossf else False
            forwarded.append((w.now, dg.data, lost))
        else:
            lost = lossb.pop(0) if lossb else False
            sent_back.append([w.now, dg, lost])
        return [None if lost else 0.005]
    w.out_hook = out

    def downstream(dg):
        m = dg.m
        b = m.via.branch
        if b in got: return
        got[b] = dg
        x = [x for x in txs if x['cid'] == m.callid and x['cseq'] == m.cseq[0]]
        V(len(x) == 1, 'forward', 'a request reached the next hop that nobody sent: %s', dg.text[:200])
        x = x[0]
        x['fwd'].append(dg)
        t = 0.0
        for n, (dt, code, xh, body, copies, tag) in enumerate(x['q']['resp']):
            t += dt
            def reply(code = code, xh = xh, body = body, copies = copies, n = n):
                extra = [tuple(RH[i]) for i in xh] + [('X-Nr', str(n))]
                if body: extra.append(('Content-Type', 'text/plain'))
                text = wire.response(m, code, 'Code %d' % code, to_tag = ('dt%d' % n if code >= 200 else 'dt') if code > 100 else None, extra = extra, body = body)
                x['replies'].append((w.now, code, wire.Msg(text)))
                for _ in range(copies): w.inject(text, DOWN, STACK, 0.005)
            w.after(t, reply)
    w.peer(DOWN, downstream)
    def upstream(i):
        def f(dg):
            m = dg.m
            x = [x for x in txs if x['cid'] == m.callid and x['cseq'] == m.cseq[0]]
            V(len(x) == 1 and x[0]['q']['s'] == i, 'stray', 'sender %d got what is not for it: %s', i, dg.text[:200])
            x[0]['resps'].append((w.now, dg))
            if m.code >= 200: x[0]['done'] = True
        return f
    for i, a in enumerate(SENDERS): w.peer(a, upstream(i))

    for i, q in enumerate(case['reqs']):
        src = SENDERS[q['s']]
        j = [y for y in txs if y['q']['s'] == q['s']]
        cid = j[0]['cid'] if q['same'] and j else 'cid%d@x' % i
        via = 'SIP/2.0/UDP %s:%d;branch=z9hG4bKs%d%s' % (src + (i, ';rport' if q['rport'] else ''))
        vias = [via] + ['SIP/2.0/UDP 10.%d.0.1:5060;branch=z9hG4bKu%d;received=198.51.100.77' % (k, i) for k in range(q['vias'])]
        extra = [tuple(XH[k]) for k in q['xh']] + [('Supported', s) for s in q['sup'] or []] + [('Path', p) for p in q['path']]
        if q['body']: extra.append(('Content-Type', 'text/plain'))
        text = wire.request(q['m'], 'sip:example.com' if q['m'] == 'REGISTER' else 'sip:bob@example.com', vias, '"A B" <sip:a%d@example.com>;tag=f%d' % (i, i), '<sip:a%d@example.com>' % i, cid, 100 + i, extra, q['body'], q['mf'], q['ct'])
        x = {'q': q, 'cid': cid, 'cseq': 100 + i, 'text': text, 'm': wire.Msg(text), 'src': src, 'fwd': [], 'replies': [], 'resps': [], 'done': False, 'sent': []}
        txs.append(x)
        def send(x = x, retr = False):
            if retr and x['done']: return
            x['sent'].append(w.now + 0.005)
            w.inject(x['text'], x['src'], STACK, 0.005)
        w.at(q['t'], send)
        for d in q['retr']: w.at(q['t'] + d, send, x, True)
    w.run_until(260.0)
    w.check_exceptions()
    stackvia = 'SIP/2.0/UDP'
    branches = set()
    for x in txs:
        q, m = x['q'], x['m']
        what = '%s (CSeq %d)' % (q['m'], x['cseq'])
        back = [(t, dg, lost) for t, dg, lost in sent_back if dg.m.callid == x['cid'] and dg.m.cseq[0] == x['cseq']]
        finals = [(t, dg) for t, dg, lost in back if dg.m.code >= 200]
        out1 = [d for _, d, _ in forwarded if wire.Msg(d.decode()).callid == x['cid'] and wire.Msg(d.decode()).cseq[0] == x['cseq']]
        refused = q['mf'] == 0 or q['mf'] == 1 and not out1
        if refused:
            V(not out1, 'hops', '%s with Max-Forwards %s was forwarded', what, q['mf'])
            V(len(set(dg.m.code for _, dg in finals)) == 1 and finals[0][1].m.code == 483, 'hops', '%s with Max-Forwards %s: answered %s instead of 483', what, q['mf'], [dg.m.code for _, dg in finals])
            V(len(finals) <= len(x['sent']), 'final', '%s: %d final responses for %d requests', what, len(finals), len(x['sent']))
            rec.cls('refused')
            continue
        V(len(out1) > 0, 'forward', '%s was not forwarded', what)
        V(len(set(out1)) == 1, 'forward', '%s was forwarded %d times', what, len(set(out1)))
        f = wire.Msg(out1[0].decode())
        V(f.start == m.start, 'start', '%s: sent on as %r, received was %r', what, f.start, m.start)
        vs, ws = f.all('via'), m.all('via')
        V(len(vs) == len(ws) + 1, 'via', '%s: %d Via headers were received and %d sent on', what, len(ws), len(vs))
        top = wire.Via(vs[0])
        V((top.proto, top.host, top.port or 5060) == ('UDP',) + STACK and top.branch and top.branch.startswith('z9hG4bK'), 'via', '%s: the Via added is %r', what, vs[0])
        V(top.branch not in branches, 'via', '%s: the branch %r was used before', what, top.branch)
        branches.add(top.branch)
        for k, (a, b) in enumerate(zip(vs[1:], ws)): V(same_via(a, b, x['src'], k == 0), 'via', '%s: Via %r became %r', what, b, a)
        mf = f.all('max-forwards')
        V(mf == [str(q['mf'] - 1) if q['mf'] is not None else '70'], 'hops', '%s: Max-Forwards %s became %s', what, q['mf'], mf)
        sup = [s for v in m.all('supported') for s in v.split(',')]
        want = list(m.all('path'))
        if q['m'] == 'REGISTER' and 'path' in sup:
            rec.cls('path')
            p = f.all('path')
            V(len(p) == len(want) + 1, 'path', '%s: Path %s became %s', what, want, p)
            a = wire.Addr(p[0])
            V(a.uri.replace(':5060', '') == 'sip:%s;lr' % STACK[0], 'path', '%s: the Path added is %r', what, p[0])
            V([norm(v) for v in p[1:]] == [norm(v) for v in want], 'path', '%s: Path %s became %s', what, want, p)
        else: V([norm(v) for v in f.all('path')] == [norm(v) for v in want], 'path', '%s: Path %s became %s', what, want, f.all('path'))
        skip = ('via', 'max-forwards', 'path')
        a, b = hdrs(f, skip), hdrs(m, skip)
        V(a == b, 'headers', '%s: headers changed: %s', what, {k: (b.get(k), a.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)})
        V(f.body == m.body, 'body', '%s: body %r became %r', what, m.body, f.body)
        # what came back
        rep, fin = [], None
        for t, code, s in x['replies']:
            rep.append((t, code, s))
            if code >= 200: fin = (t, code, s); break
        t0 = x['sent'][0]
        # (the transaction ends 32 s after the request, or after the latest provisional response, if nothing final came by then)
        limit = t0 + 32.0
        for t, c, _ in rep:
            if c < 200 and t + 0.005 < limit: limit = t + 32.005
        near = fin is not None and abs(fin[0] + 0.005 - limit) < 0.1
        late = fin is None or fin[0] + 0.005 > limit
        codes = []
        for t, dg, lost in back:
            if not codes or dg.data != codes[-1][1].data: codes.append((t, dg))
        uniq = []
        for t, dg in codes:
            if dg.data not in [d.data for _, d in uniq]: uniq.append((t, dg))
        V(len([1 for _, dg in uniq if dg.m.code >= 200]) == 1, 'final', '%s: the sender was given the final responses %s', what, [dg.m.code for _, dg in uniq if dg.m.code >= 200])
        V(uniq[-1][1].m.code >= 200 , 'final', '%s: responses after the final one: %s', what, [dg.m.code for _, dg in uniq])
        # repeated only when the request was repeated
        V(len(back) <= len(uniq) + len(x['sent']) - 1, 'repeat', '%s: %d responses were sent, %d different ones to a request sent %d times', what, len(back), len(uniq), len(x['sent']))
        if near: rec.cls('near'); continue
        expect = [(t, c, s) for t, c, s in rep if t + 0.005 < limit]
        if late:
            rec.cls('timeout')
            V(uniq[-1][1].m.code == 408, 'timeout', '%s: no final response came in time, the sender was given %d', what, uniq[-1][1].m.code)
            V(abs(uniq[-1][0] - limit) < 0.5, 'timeout', '%s: timed out at %.2f instead of %.2f', what, uniq[-1][0], limit)
        seen = [dg for _, dg in uniq if not (late and dg is uniq[-1][1])]
        V([dg.m.code for dg in seen] == [c for _, c, _ in expect], 'responses', '%s: the next hop answered %s, the sender was given %s', what, [c for _, c, _ in expect], [dg.m.code for dg in seen])
        for dg, (t, c, s) in zip(seen, expect):
            g = dg.m
            V(dg.dst == x['src'], 'address', '%s: a response went to %s', what, dg.dst)
            V(g.start == s.start, 'start', '%s: %r came back as %r', what, s.start, g.start)
            V(len(g.all('via')) == len(s.all('via')) - 1 and all(same_via(p, o, None, False) for p, o in zip(g.all('via'), s.all('via')[1:])), 'via', '%s: response Via %s came back as %s', what, s.all('via'), g.all('via'))
            # (the stack keeps no bodies of 100 and of error responses)
            nobody = c == 100 or c >= 400
            skip = ('via', 'content-length', 'content-type') if nobody else ('via',)
            a, b = hdrs(g, skip), hdrs(s, skip)
            V(a == b, 'headers', '%s: response headers changed: %s', what, {k: (b.get(k), a.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)})
            V(g.body == s.body or nobody and not g.body, 'body', '%s: response body %r became %r', what, s.body, g.body)
            sv = [(w0, dd) for w0, dd, _ in back if dd.data == dg.data][0][0]
            V(abs(sv - (t + 0.005)) < 0.02, 'late', '%s: the response of %.3f was passed on at %.3f', what, t, sv)
        # a sender that goes on repeating its request gets the final one in the end
        tf = uniq[-1][0]
        ok = [dg for t, dg, lost in back if dg.m.code >= 200 and not lost]
        again = [t for t in x['sent'] if tf + 0.02 < t < tf + 25]
        nl = len(case['lossb'])
        V(ok or len(again) <= nl, 'final', '%s: the sender never got the final response although it asked %d times again', what, len(again))
        rec.cls(q['m'])
        if again: rec.cls('asked again')
        if len(expect) > 1: rec.cls('provisional')
    left = r.leftovers()
    V(not left, 'leftover', 'left behind: %s', left)
    if any(case['lossf']): rec.cls('lost request')
    rec.nt(any(x['fwd'] and x['resps'] for x in txs))
    r.close()

CHECK = Check('C28', 'exploration', [
  Part('proxy', strategy, run, quick = 500, thorough = 8000, shards = 8, rule = 'at least one request was forwarded and answered'),
])
