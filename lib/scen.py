"""Call scenarios through the real b2bua: generator, driver and the endpoint view the oracles use.

A case is JSON: {'conf': {...}, 'calls': [...], 'loss': [...]}; every time below carries an odd fraction so that
scripted events never coincide with protocol timers."""
from hashlib import md5
from hypothesis import strategies as st
import wire

CALLEE_PORT = 6100

def sdp(i, n = 0):
    """A small valid session description; i selects its content."""
    c = ('0', '8 0', '18 101', '0 8 18')[i % 4]
    s = 'v=0\r\no=u%d %d %d IN IP4 10.1.%d.%d\r\ns=-\r\nc=IN IP4 10.1.%d.%d\r\nt=0 0\r\nm=audio %d RTP/AVP %s\r\n' % (i, 1000 + i, 1 + n, i % 250, 1 + n, i % 250, 1 + n, 20000 + 2 * i, c)
    if '101' in c: s += 'a=rtpmap:101 telephone-event/8000\r\n'
    if i % 3 == 0: s += 'a=sendrecv\r\n'
    return s

def T(lo, hi, frac = 0.0137):
    return st.integers(int(lo * 10), int(hi * 10)).map(lambda x: round(x / 10.0 + frac, 4))

times = lambda: st.one_of(T(0, 3), T(0, 3), T(0, 40), T(0, 3), T(0, 330))
CODES = (400, 401, 403, 404, 407, 408, 480, 481, 486, 487, 488, 491, 500, 502, 503, 504, 600, 603, 606)

def act(kinds):
    return st.fixed_dictionaries({'t': st.one_of(T(0, 5, 0.0231), T(0, 5, 0.0231), T(0, 60, 0.0231), T(0, 400, 0.0231)), 'k': st.sampled_from(kinds), 'n': st.integers(0, 7)})

def reinv_answer():
    return st.fixed_dictionaries({'t': st.one_of(st.just(0.0171), T(0, 4, 0.0171), T(0, 40, 0.0171)), 'code': st.sampled_from((200, 200, 200, 200, 488, 486, 491, 500, 408, 481, 302, None)), 'sdp': st.sampled_from((0, 1, 2, None)), 'prov': st.sampled_from((None, None, None, 180, 183, 100))})

KINDS = ('hangup', 'hangup', 'reinv', 'reinv', 'reinv', 'reinv', 'info', 'refer', 'op', 'vanish', 'opt', 'unk', 'badrefer')

def inact(kinds = KINDS):
    """Activity inside an established call; few distinct times, so that the two sides collide."""
    return st.fixed_dictionaries({'t': st.one_of(st.integers(0, 12).map(lambda x: round(x * 0.5 + 0.0231, 4)), st.integers(0, 40).map(lambda x: round(x + 0.0231, 4)), st.integers(0, 12).map(lambda x: round(x * 0.01 + 0.5231, 4))),
      'k': st.sampled_from(kinds), 'n': st.integers(0, 7)})

def incall(kinds = KINDS, loss = True):
    """One call answered at once, then arbitrary activity of both sides."""
    def mk(v):
        conf, c, r, a, b, end, loss = v
        c = dict(c, sdp = 0 if c['sdp'] is None and c['start'] < 3 else c['sdp'], acts = [], acts2 = a, mf = 70, routes = [dict(r, expires = None, np = None, nr = None, crt = None if r['crt'] in (0, 4) else r['crt'],
          callee = dict(r['callee'], prov = r['callee']['prov'][:1], dead = False, final = {'t': 0.2137, 'code': 200, 'sdp': None if r['cnam'] == 'J. Doe' else 1, 'rep': False}, acts = b))], aaa = dict(c['aaa'], ok = True, d = 0.0113))
        return {'conf': conf, 'calls': [c], 'end': end, 'loss': loss}
    return st.tuples(conf(), call(1), route(), st.lists(inact(kinds), min_size = 1, max_size = 4), st.lists(inact(tuple(k for k in kinds if k != 'op')), max_size = 4), st.sampled_from((20.0, 20.0, 60.0, 400.0)),
      st.one_of(st.just([]), st.lists(st.integers(0, 60), max_size = 6)) if loss else st.just([])).map(mk)

def callee(final_ok = 3):
    prov = st.fixed_dictionaries({'t': st.one_of(T(0, 2), T(0, 2), T(0, 70)), 'code': st.sampled_from((100, 180, 180, 183, 183, 181, 199)), 'sdp': st.sampled_from((None, None, 1, 2)), 'rep': st.booleans()})
    fin = st.one_of(*([st.fixed_dictionaries({'t': times(), 'code': st.sampled_from((200, 200, 200, 202)), 'sdp': st.sampled_from((1, 1, 2, 3, None)), 'rep': st.just(False)})] * final_ok +
      [st.fixed_dictionaries({'t': times(), 'code': st.sampled_from(CODES), 'sdp': st.none(), 'rep': st.just(False)}),
       st.fixed_dictionaries({'t': times(), 'code': st.sampled_from((300, 301, 302)), 'sdp': st.none(), 'rep': st.just(False)}), st.none()]))
    return st.fixed_dictionaries({'prov': st.lists(prov, max_size = 3), 'final': fin, 'dead': st.sampled_from((False,) * 9 + (True,)),
      'cancel': st.sampled_from(('487', '487', '487', '200', 'none')), 'reason': st.sampled_from((None, None, None, 'Q.850;cause=17;text="busy"')),
      'acts': st.lists(act(('hangup', 'hangup', 'vanish', 'reinv', 'reinv', 'info', 'refer')), max_size = 2), 'reinv': st.lists(reinv_answer(), max_size = 2)})

def route(multi = True):
    opt = lambda s: st.one_of(st.none(), st.none(), s)
    return st.fixed_dictionaries({
        'cld': st.one_of(st.none(), st.none(), st.just(''), st.sampled_from(('555', '+1555', 'svc'))),
        'cli': st.one_of(st.none(), st.none(), st.sampled_from(('', '777', 'anon'))),
        'cnam': st.one_of(st.none(), st.none(), st.none(), st.sampled_from(('Bob', 'J. Doe', 'Zo\u00eb "Z"'))),
        'expires': opt(st.sampled_from((5, 20, 60, 0))), 'np': opt(st.sampled_from((3, 10, 50))), 'nr': opt(st.sampled_from((2, 8, 40))),
        'crt': opt(st.sampled_from((4, 30, 300, 0))), 'fof': st.sampled_from((False, False, False, True)),
        'hs': opt(st.lists(st.sampled_from(CODES[:13]), max_size = 3)), 'ash': st.lists(st.sampled_from(('X-Route: r1', 'X-Acct:a b')), max_size = 1),
        'gt': opt(st.sampled_from(('3,1', '3,2', '10,1', '10,2', '40,3'))), 'auth': st.one_of(st.none(), st.none(), st.just('u:p'), st.just('nopass')),
        'callee': callee(),
    })

def call(nroutes = 3):
    return st.fixed_dictionaries({
        'start': T(0, 6, 0.0019), 'cli': st.sampled_from(('100', 'alice', '+4420')), 'cld': st.sampled_from(('200', 'bob', '0044123', 'nat-200')), 'name': st.sampled_from((None, 'Alice', 'A "q" B')),
        'mf': st.sampled_from((70, 70, 70, 70, 70, None, 2, 1, 0)), 'sdp': st.sampled_from((0, 0, 0, 4, None)), 'xh': st.lists(st.sampled_from(('X-Foo: a', 'X-Bar: b;c', 'X-foo: "d"')), max_size = 2),
        'reason': st.just(None),
        'acts': st.lists(act(('hangup', 'hangup', 'hangup', 'vanish', 'reinv', 'reinv', 'info', 'refer', 'op')), max_size = 3), 'reinv': st.lists(reinv_answer(), max_size = 2),
        'routes': st.lists(route(), min_size = 1, max_size = nroutes),
        'aaa': st.fixed_dictionaries({'d': st.sampled_from((0.0113, 0.0113, 0.5113, 9.0113)), 'ok': st.sampled_from((True,) * 9 + (False,)), 'credit': st.sampled_from((None, None, None, 50, 600)), 'cli': st.sampled_from((None, None, None, '', '999')), 'cnam': st.sampled_from((None, None, 'Carol', ''))}),
    })

def conf():
    return st.fixed_dictionaries({'mode': st.sampled_from(('static', 'radius', 'radius', 'radius')), 'acct': st.sampled_from((0, 1, 2, 2)), 'hide': st.booleans(), 'ka': st.sampled_from((0, 0, 0, 1, 2, 3)),
      'maxc': st.sampled_from((None, None, None, 40)), 'pass': st.sampled_from(([], ['X-Foo'], ['x-foo', 'X-Bar'])), 'alive': st.sampled_from((None, None, None, 30)), 'precise': st.booleans()})

def scenario(ncalls = 2, nroutes = 3, loss = True):
    return st.fixed_dictionaries({'conf': conf(), 'calls': st.lists(call(nroutes), min_size = 1, max_size = ncalls), 'end': st.sampled_from((20.0, 60.0, 400.0)),
      'loss': st.lists(st.integers(0, 60), max_size = 6) if loss else st.just([])})

def quote(s):
    return ''.join(c if c.isalnum() and ord(c) < 128 else ''.join('%%%02X' % b for b in c.encode('utf-8')) for c in s)

def route_text(r, host):
    t = host if r['cld'] is None else '%s@%s' % (r['cld'], host)
    for k, n in (('expires', 'expires'), ('np', 'np_expires'), ('nr', 'nr_expires'), ('crt', 'credit-time'), ('auth', 'auth'), ('cli', 'cli'), ('gt', 'gt')):
        if r[k] is not None: t += ';%s=%s' % (n, r[k])
    if r['cnam'] is not None: t += ';cnam=' + quote(r['cnam'])
    if r['hs'] is not None: t += ';hs_scodes=' + ','.join(str(x) for x in r['hs'])
    if r['fof']: t += ';forward_on_fail=1'
    for a in r['ash']: t += ';ash=' + quote(a)
    return t

class Call(object):
    """Everything the oracles need to know about one call."""
    def __init__(self, i, c):
        self.i, self.c = i, c
        self.cid = 'call-%d@192.0.2.%d' % (i, 100 + i)
        self.leg = None             # caller's view
        self.outs = []              # callee legs in order of arrival: (rnum, leg)
        self.vanished = None        # time the caller vanished
        self.op = []                # times an operator disconnected it
        self.usable = True
    def out_cid(self, n, hide):
        return (md5(self.cid.encode()).hexdigest() if hide else self.cid) + '-b2b_%d' % n

class Run(object):
    def __init__(self, case, tail = 520.0, args = (), hooks = None):
        import b2b
        from ep import EP
        self.case, self.conf = case, case['conf']
        cf = self.conf
        a = []
        self.calls = [Call(i, c) for i, c in enumerate(case['calls'])]
        self.bycid = {c.cid: c for c in self.calls}
        if cf['mode'] == 'static':
            a += ['-u', '-s', route_text(case['calls'][0]['routes'][0], self.dest(0, 0))]
        else:
            if cf['mode'] == 'radius': a += ['-D']
        a += ['-A', str(cf['acct'])]
        if cf['hide']: a += ['-H']
        if cf['ka']: a += ['-k', str(cf['ka'])]
        if cf['maxc'] is not None: a += ['-m', str(cf['maxc'])]
        if cf['pass']: a += ['-h', ','.join(cf['pass'])]
        if cf['alive'] is not None: a += ['--alive_acct_int=%d' % cf['alive']]
        if cf['precise']: a += ['--precise_acct=1']
        a += list(args)
        self.rig = rig = b2b.Rig(a, self.aaa)
        self.w = w = rig.w
        self.nsent = 0
        loss = set(case['loss'])
        def lose():
            self.nsent += 1
            return (self.nsent - 1) in loss
        self.lossy = len(loss) > 0
        w.out_hook = lambda dg: [None] if lose() else [0.01]
        self.callers, self.callees = [], []
        self.outmap = {}
        for cl in self.calls:
            ep = EP(w, ('192.0.2.%d' % (100 + cl.i), 5060), 'a%d' % cl.i)
            ep.lose = lose
            self.callers.append(ep)
            for n, r in enumerate(self.routes(cl)):
                self.outmap[cl.out_cid(n + 1, cf['hide'])] = (cl, n + 1, r)
                addr = self.dest_addr(cl.i, n)
                if addr not in [e.addr for e in self.callees]:
                    e = EP(w, addr, 'b%d%d' % (cl.i, n))
                    e.lose = lose
                    e.on_call = self.on_call
                    self.callees.append(e)
        self.strangers = []         # INVITEs nobody expected
        for cl in self.calls:
            w.at(cl.c['start'], self.start, cl)
        if hooks: hooks(self)
        self.hard_end = max(c['start'] for c in case['calls']) + case['end']
        w.at(self.hard_end, self.finish)
        w.at(self.hard_end + 1.5, self.finish)      # for calls answered while being cancelled
        w.at(self.hard_end + 40, self.finish)
        w.run_until(self.hard_end + tail)
    # -- layout
    def dest_addr(self, i, n):
        if self.conf['mode'] == 'static': i, n = 0, 0
        return ('198.51.100.%d' % (10 + i), CALLEE_PORT + n)
    def dest(self, i, n): return '%s:%d' % self.dest_addr(i, n)
    def routes(self, cl):
        return self.case['calls'][0]['routes'][:1] if self.conf['mode'] == 'static' else cl.c['routes']
    def script(self, cl, rnum):
        """Callee behaviour for attempt rnum of call cl (in static mode every call has its own callee script)."""
        return cl.c['routes'][rnum - 1 if self.conf['mode'] != 'static' else 0]['callee']
    def aaa(self, kind, attrs):
        if kind == 'ACCT': return (0.0057, [], 0)
        cid = [v[8:] for k, v in attrs if k == 'Cisco-AVPair' and v.startswith('call-id=')]
        cl = self.bycid.get(cid[0] if cid else None)
        if cl is None: return (0.01, [], 1)
        x = cl.c['aaa']
        if not x['ok']: return (x['d'], [('Reply-Message', 'no')], 1)
        out = []
        if x['credit'] is not None: out.append(('h323-credit-time', 'h323-credit-time=%d' % x['credit']))
        if x['cli'] is not None: out.append(('h323-ivr-in', 'CLI:' + x['cli']))
        if x['cnam'] is not None: out.append(('h323-ivr-in', 'CNAM:' + x['cnam']))
        for n, r in enumerate(cl.c['routes']):
            out.append(('h323-ivr-in', 'Routing:' + route_text(r, self.dest(cl.i, n))))
        return (x['d'], out, 0)
    # -- caller
    def start(self, cl):
        c, ep = cl.c, self.callers[cl.i]
        nm = '' if c['name'] is None else '"%s" ' % c['name'].replace('"', '\\"')
        x = [tuple(y.strip() for y in h.split(':', 1)) for h in c['xh']]
        cl.leg = leg = ep.call(cl.cid, 'sip:%s@192.0.2.1' % c['cld'], '%s<sip:%s@192.0.2.%d>' % (nm, c['cli'], 100 + cl.i), '<sip:%s@192.0.2.1>' % c['cld'],
          body = '' if c['sdp'] is None else sdp(c['sdp']), extra = x, maxf = c['mf'], ctype = 'application/sdp')
        leg.data['call'] = cl
        leg.data['reinv'] = self.reinv(leg, c['reinv'])
        leg.data['sdpn'] = c['sdp'] or 0
        leg.inv_tx['ack_body'] = ''
        if c['sdp'] is None:
            leg.on['final'] = lambda leg, k, code, body, m: leg.inv_tx.__setitem__('ack_body', sdp(5) if body else '')
        for x in c['acts']:
            self.w.after(x['t'], self.act, leg, x, cl)
        if c.get('acts2'):
            old = leg.on.get('final')
            def up(leg, k, code, body, m):
                if old is not None: old(leg, k, code, body, m)
                if code < 300:
                    for x in c['acts2']: self.w.after(x['t'], self.act, leg, x, cl)
            leg.on['final'] = up
    def act(self, leg, x, cl, rnum = 0):
        ep, k = leg.ep, x['k']
        if ep.dead: return
        if k == 'hangup':
            if leg.state == 'up': ep.bye(leg)
            elif leg.role == 'caller' and leg.state in ('calling', 'early') and not leg.got('cancel-tx'): ep.cancel(leg)
        elif k == 'vanish':
            ep.dead = True
            leg.log('vanish')
        elif k == 'op':
            cl.op.append((self.w.now, self.rig.cmd('d ' + cl.cid)))
        elif leg.state == 'up':
            busy = any(t['final'] is None for t in ep.ctx.values() if t['leg'] is leg and t['method'] == 'INVITE')
            srv = any(s['final'] is None or not s.get('acked') for s in ep.stx.values() if s['m'].method == 'INVITE' and s['m'].callid == leg.callid)
            if k == 'reinv' and not busy and not srv:
                leg.data['sdpn'] = leg.data.get('sdpn', 0)
                body = sdp(leg.data['sdpn'], 1 + x['n']) if x['n'] < 7 else ''
                ep.indialog(leg, 'INVITE', body = body, kind = 'reinv', ctype = 'application/sdp')
            elif k == 'info': ep.indialog(leg, 'INFO', body = 'Signal=%d\r\n' % x['n'], ctype = 'application/dtmf-relay')
            elif k == 'opt': ep.indialog(leg, 'OPTIONS')
            elif k == 'unk': ep.indialog(leg, 'MESSAGE', body = 'x')
            elif k == 'badrefer': ep.indialog(leg, 'REFER')
            elif k == 'refer': ep.indialog(leg, 'REFER', extra = [('Refer-To', '<sip:other@192.0.2.77>')])
    def reinv(self, leg0, answers):
        todo = list(answers)
        def h(leg, m):
            a = todo.pop(0) if todo else {'t': 0.0171, 'code': 200, 'sdp': 0}
            if a.get('prov'): leg.ep.respond(m, a['prov'], 'P', leg = leg)
            if a['code'] is None: return
            self.w.after(a['t'], self.do_reinv, leg, m, a)
        return h
    def do_reinv(self, leg, m, a):
        body = sdp(leg.data.get('sdpn', 0), 20 + a['sdp']) if a['code'] < 300 and a['sdp'] is not None else ''
        x = [('Contact', '<sip:x@192.0.2.99>')] if 300 <= a['code'] < 400 else []
        if leg.ep.respond(m, a['code'], 'R%d' % a['code'], body = body, extra = x, leg = leg, contact = leg.ep.contact if a['code'] < 300 else None):
            leg.log('reinv-answer-tx', a['code'], body)
    # -- callee
    def on_call(self, leg):
        o = self.outmap.get(leg.callid)
        if o is None:
            self.strangers.append(leg)
            leg.ep.answer(leg, 404, 'Stranger')
            return
        cl, rnum, r = o
        s = self.script(cl, rnum)
        cl.outs.append((rnum, leg))
        leg.data.update(call = cl, rnum = rnum, cancel = s['cancel'], script = s, sdpn = 10 + rnum)
        leg.data['answer'] = lambda leg: self.final(leg, {'code': 200, 'sdp': 1}, cl, s)
        leg.data['reinv'] = self.reinv(leg, s['reinv'])
        if s['dead']:
            leg.log('vanish')
            leg.ep.dead = True
            return
        if 'cb' in self.conf: return
        for p in s['prov']:
            self.w.after(p['t'], self.prov, leg, p)
        if s['final'] is not None:
            self.w.after(max([s['final']['t']] + [p['t'] + 0.05 for p in s['prov']]), self.final, leg, s['final'], cl, s)
    def prov(self, leg, p):
        leg.ep.answer(leg, p['code'], 'P%d' % p['code'], body = '' if p['sdp'] is None or p['code'] == 100 else sdp(10 + leg.data['rnum'], p['sdp']))
    def final(self, leg, f, cl, s):
        if leg.inv_final is not None or leg.state == 'failed': return
        x = []
        if f['code'] >= 300 and s['reason']: x.append(('Reason', s['reason']))
        if 300 <= f['code'] < 400:
            x += [('Contact', '<sip:r%d@192.0.2.88>' % k) for k in range(2 if f['code'] == 300 else 1)]
        if f['code'] == 401: x.append(('WWW-Authenticate', 'Digest realm="r", nonce="n1", algorithm=MD5'))
        if f['code'] == 407: x.append(('Proxy-Authenticate', 'Digest realm="r", nonce="n1", algorithm=MD5'))
        leg.ep.answer(leg, f['code'], 'F%d' % f['code'], body = '' if f['sdp'] is None else sdp(10 + leg.data['rnum'], f['sdp']), extra = x)
        if f['code'] < 300:
            for a in s['acts']:
                self.w.after(a['t'], self.act, leg, a, cl, leg.data['rnum'])
    # -- the end
    def finish(self):
        for cl in self.calls:
            legs = [cl.leg] + [l for n, l in cl.outs]
            if cl.leg is not None and not cl.leg.ep.dead and cl.leg.state in ('up', 'calling', 'early'):
                self.act(cl.leg, {'k': 'hangup'}, cl)
            elif any(l.state == 'up' and not l.ep.dead for n, l in cl.outs):
                for n, l in cl.outs:
                    if l.state == 'up' and not l.ep.dead: l.ep.bye(l)
            elif cl.leg is not None and cl.leg.ep.dead:
                self.rig.cmd('d ' + cl.cid)
