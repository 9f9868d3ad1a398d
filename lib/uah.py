"""One real call leg (UA on a transaction manager) between a recording owner and a scripted peer."""
import gc as _gc
from hypothesis import strategies as st
import sim, wire, ep
from sim import STACK

PEER = ('198.51.100.20', 5060)
PROXIES = (('198.51.100.31', 5060), ('198.51.100.32', 5070), ('198.51.100.33', 5060))

def sdp(n):
    return 'v=0\r\no=x %d %d IN IP4 198.51.100.20\r\ns=-\r\nc=IN IP4 198.51.100.20\r\nt=0 0\r\nm=audio %d RTP/AVP 0 8\r\na=rtpmap:0 PCMU/8000\r\n' % (n, n, 20000 + 2 * n)

class Harness(object):
    def __init__(self, case, ua_cls = None, tune = None):
        from sippy.UA import UA
        from sippy.MsgBody import MsgBody
        self.case, self.MsgBody = case, MsgBody
        self.w = w = sim.World()
        w.queue_zero = True
        self.tm, self.gc = sim.make_tm(self.on_req)
        self.UA = ua_cls or UA
        self.tune = tune
        self.ep = ep.EP(w, PEER, 'peer')
        self.ep.rr = ['<sip:%s:%d%s>' % (PROXIES[i] + (';lr' if lr else '',)) for i, lr in case.get('rr', ())]
        for a in PROXIES: w.peer(a, self.ep.rx)
        self.ep.on_call = self.on_call
        self.leg = None
        self.ua = None
        self.out = []           # (t, kind, ...) everything the owner was told
        self.conn, self.disc, self.fail, self.ring, self.dead = [], [], [], [], []
        self.events = []        # (t, event)
        self.local = []         # (t, kind, state name) local events accepted
        self.nreq = []          # requests handed over outside of any dialog
        self.created = {}       # id -> event (keeps every event reported alive)
        self.loss = set(case.get('loss', ()))
        self.ndg = 0
        self.hooks = {'l': list(case.get('hl', ())), 'r': list(case.get('hr', ()))}
        self.replies = []       # (t, request Msg, code) the peer's in-dialog requests and what came back
        w.out_hook = self.hook
        if self.loss: self.ep.lose = lambda: self.hook(None) == [None]
        self.ringmsgs = []
    def hook(self, dg):
        self.ndg += 1
        return [None] if self.ndg in self.loss else [0.01 if dg is not None else 0]
    # owner -----------------------------------------------------------------
    def mk(self, **kw):
        lim = self.case.get('lim', {})
        ua = self.UA(self.gc, self.event, nh_address = PEER, conn_cbs = (self.cb_conn,), disc_cbs = (self.cb_disc,), fail_cbs = (self.cb_fail,), ring_cbs = (self.cb_ring,), dead_cbs = (self.cb_dead,),
          credit_time = lim.get('cr'), expire_time = lim.get('ex'), no_progress_time = lim.get('np'), **kw)
        ua.no_reply_time = lim.get('nr')
        ua.kaInterval = lim.get('ka') or 0
        ua.local_ua = 'uah'
        if 'hl' in self.case: ua.on_local_sdp_change = lambda body, cb: self.sdp_hook('l', body, cb)
        if 'hr' in self.case: ua.on_remote_sdp_change = lambda body, cb: self.sdp_hook('r', body, cb)
        if self.case.get('norefer'): ua.useRefer = False
        if self.tune is not None: self.tune(ua)
        self.ua = ua
        return ua
    def sdp_hook(self, side, body, cb):
        q = self.hooks[side]
        d = q.pop(0) if q else (0 if side == 'r' else 0.0)
        if side == 'r' and d == 0:
            return body
        body.needs_update = False
        def fin():
            if d is not None and d < 0:
                from sippy.Exceptions.SdpParseError import SdpParseError
                cb(body, ex = SdpParseError('scripted'))
            else:
                cb(body)
        self.w.after(abs(d), fin)
        return None
    def event(self, ev, ua):
        self.events.append((self.w.now, ev))
        self.out.append((self.w.now, 'event', ev.name, ev))
        for k, a in self.case.get('react', {}).get(ev.name, ()):
            self.nreact += 1
            if self.nreact <= 2: self.local_ev(k, a)
    nreact = 0
    def cb_conn(self, ua, rtime, origin): self._cb('conn', rtime, origin)
    def cb_disc(self, ua, rtime, origin, *a): self._cb('disc', rtime, origin, *a)
    def cb_fail(self, ua, rtime, origin, *a): self._cb('fail', rtime, origin, *a)
    def cb_ring(self, ua, rtime, origin, *a): self._cb('ring', rtime, origin, *a)
    def cb_dead(self, ua): self._cb('dead', None, None)
    def _cb(self, k, rtime, origin, *a):
        getattr(self, k).append((self.w.now, rtime, origin) + a)
        self.out.append((self.w.now, k, a))
    def on_req(self, req, tr):
        self.nreq.append((self.w.now, req.getMethod()))
        if req.getHFBody('to').getTag() is not None:
            return (req.genResponse(481, 'Call Leg/Transaction Does Not Exist'), None, None)
        if req.getMethod() == 'INVITE' and self.ua is None and self.case['role'] == 'uas':
            return self.mk().recvRequest(req, tr)
        return (req.genResponse(501, 'Not Implemented'), None, None)
    def body(self, n):
        return None if n is None else self.MsgBody(sdp(n))
    def mkev(self, k, a):
        import sippy.CCEvents as E
        from sippy.SipAddress import SipAddress
        from sippy.SipURL import SipURL
        code, n = (list(a) + [None, None])[:2]
        if k == 'try': return E.CCEventTry((None, 'alice', 'bob', self.body(n), None, 'Al'))
        if k == 'ring': return E.CCEventRing((code, 'Ring%d' % code, self.body(n)) if code else None)
        if k == 'preconn': return E.CCEventPreConnect((code or 200, 'OK', self.body(n)))
        if k == 'conn': return E.CCEventConnect((code or 200, 'OK', self.body(n)))
        if k == 'update': return E.CCEventUpdate(self.body(n))
        if k == 'info': return E.CCEventInfo(self.MsgBody('Signal=5') if n is not None else None)
        if k == 'disc': return E.CCEventDisconnect()
        if k == 'fail': return E.CCEventFail((code or 503, 'Fail%d' % (code or 503)))
        if k == 'redir': return E.CCEventRedirect((code or 302, 'Moved', None, (SipAddress(url = SipURL(username = 'else', host = '198.51.100.77')),)))
    def local_ev(self, k, a = ()):
        ua = self.ua
        if ua is None:
            if self.case['role'] != 'uac': return
            ua = self.mk()
        s = str(ua.state)
        self.local.append((self.w.now, k, s))
        if k == 'udisc':
            if ua.state is not None: ua.disconnect()
            return
        ua.recvEvent(self.mkev(k, a))
    # peer ------------------------------------------------------------------
    def on_call(self, leg):
        if self.leg is None: self.leg = leg
        if self.on_invite: self.on_invite(leg)
    on_invite = None
    def peer_act(self, k, a):
        e, leg = self.ep, self.leg
        if k == 'vanish':
            e.dead = True
            return
        if k == 'back':
            e.dead = False
            return
        if leg is None or e.dead: return
        if k == 'resp':
            if leg.role != 'callee': return
            code, n = a[0], a[1]
            e.answer(leg, code, 'C%d' % code, body = sdp(n) if n is not None and code != 100 else '', ctype = 'application/sdp', contact = True, extra = self.resp_extra(code))
        elif k == 'cancel':
            if leg.role == 'caller' and leg.inv_final is None and leg.inv_tx['prov']: e.cancel(leg)
        elif k == 'req':
            self.peer_req(leg, *a)
    def resp_extra(self, code):
        if code in (300, 301, 302): return [('Contact', '<sip:fwd@198.51.100.99>')]
        if code == 401: return [('WWW-Authenticate', 'Digest realm="r", nonce="n1"')]
        return []
    def peer_req(self, leg, method, variant = 'ok', n = None):
        e = self.ep
        if leg.rtag is None and leg.role == 'caller':
            p = [x[4] for x in leg.got('prov') if x[4].to.tag is not None]
            if not p: return
            leg.rtag0 = p[-1].to.tag
        if leg.state in ('failed',): return
        if leg.state == 'ended' and method != 'BYE': return
        if method == 'INVITE' and leg.state != 'up': return
        if method == 'INVITE' and any(tx['method'] == 'INVITE' and tx['final'] is None and not tx.get('bad') for tx in e.ctx.values()): return
        if method == 'BYE' and leg.role == 'callee' and leg.state != 'up': return
        if variant == 'cseq' and leg.role == 'callee' and leg.data.get('okseq') is None: variant = 'ok'
        sv = leg.rtag
        if leg.rtag is None: leg.rtag = leg.rtag0
        rec = {'t': self.w.now, 'method': method, 'variant': variant, 'code': None, 'state': str(self.ua.state) if self.ua is not None else None}
        self.replies.append(rec)
        cseq = None
        lt, rt, ci = leg.ltag, leg.rtag, leg.callid
        if variant == 'cseq': cseq = max(1, leg.data.get('okseq', 1000) - (n or 0))
        if variant == 'ftag': leg.ltag += 'x'
        if variant == 'ttag': leg.rtag += 'x'
        if variant == 'callid': leg.callid += 'x'
        body = ''
        if method == 'INVITE' and n is not None and variant != 'cseq': body = sdp(n)
        m, br = leg.request(method, body, [('Refer-To', '<sip:z@198.51.100.98>')] if method == 'REFER' else [], cseq, ctype = 'application/sdp')
        leg.ltag, leg.rtag, leg.callid = lt, rt, ci
        text = wire.build(m.start, m.hdrs, m.body)
        rec['cseq'] = m.cseq[0]
        rec['branch'] = br
        if variant == 'ok': leg.data['okseq'] = m.cseq[0]
        def fin(tx, r):
            if r is None or r.code >= 200:
                rec['code'] = r.code if r is not None else 408
                rec['td'] = self.w.now
                rec['resp'] = r
                if method == 'INVITE' and r is not None and r.code < 300 and r.contact is not None: leg.target = r.contact.uri
                if r is not None and r.code == 481 and leg.state == 'up' and variant == 'ok': leg.state = 'ended'
        tx = e.start_tx(leg, text, wire.Msg(text), br, fin, method)
        if variant != 'ok': tx['bad'] = True
        if method == 'BYE' and variant == 'ok':
            leg.state = 'ended'
            leg.log('bye-tx')
        leg.rtag = sv
    def reinv(self, leg, m):
        """Peer's way of answering the stack's re-INVITEs: case['rp'] = [[delay, code, sdp, prov], ...]"""
        q = self.rp
        d, code, n, prov = q.pop(0) if q else (0.2, 200, 0, None)
        e = self.ep
        if prov: self.w.after(d / 3, e.respond, m, prov, 'P', '', (), leg)
        if code is not None:
            self.w.after(d, lambda: e.respond(m, code, 'RI%d' % code, body = (sdp(n) if n is not None and code < 300 else ''), leg = leg, contact = e.contact if code < 300 else None, ctype = 'application/sdp', extra = self.resp_extra(code) if code < 400 else ()))
    # run -------------------------------------------------------------------
    def start(self):
        c, w = self.case, self.w
        self.rp = [list(x) for x in c.get('rp', ())]
        if c['role'] == 'uac':
            def inv(leg):
                leg.data['reinv'] = self.reinv
                leg.data['answer'] = lambda l: self.ep.answer(l, 200, body = sdp(1), ctype = 'application/sdp')
                leg.data['cancel'] = c.get('oncancel', '487')
            self.on_invite = inv
            if c.get('auto', True): w.at(0.1, self.local_ev, 'try', (None, c.get('sdp')))
        else:
            def call():
                leg = self.leg = self.ep.call('uah-call', 'sip:me@192.0.2.1', '<sip:peer@198.51.100.20>', '<sip:me@192.0.2.1>', body = sdp(c['sdp']) if c.get('sdp') is not None else '', ctype = 'application/sdp',
                  extra = c.get('xh', ()))
                leg.inv_tx['ack_delay'] = c.get('ackd')
                if c.get('ackd') == -1: leg.inv_tx['ack_delay'] = 1e9
                if c.get('sdp') is None and c.get('ackb') is not None: leg.inv_tx['ack_body'] = sdp(c['ackb'])
                leg.data['reinv'] = self.reinv
            w.at(0.1, call)
        for i, (t, k, a) in enumerate(c.get('L', ())): w.at(0.1 + t + 0.0007 * i, self.local_ev, k, a)
        for i, (t, k, a) in enumerate(c.get('P', ())): w.at(0.1 + t + 0.0011 * i, self.peer_act, k, a)
        w.at(c.get('end', 100.0), self.finish)
    ended_by_us = False
    def finish(self):
        self.loss = set()
        if self.ua is not None and self.ua.state is not None and not self.ua.isDead() and not self.disc and not self.fail:
            self.ended_by_us = True
            self.local_ev('disc')
    def go(self, extra = 420.0):
        self.start()
        end = self.case.get('end', 100.0)
        self.w.run_until(end + extra)
        self.w.check_exceptions()
        return self
    def reqs(self, method = None, first = True):
        """Requests the stack put on the wire (first transmissions only)."""
        seen, out = set(), []
        for d in self.w.log:
            if d.src == STACK and not d.data.startswith(b'SIP/2.0 '):
                if first:
                    if d.data in seen: continue
                    seen.add(d.data)
                if method is None or d.m.method == method: out.append(d)
        return out
    def resps(self, method, first = True):
        seen, out = set(), []
        for d in self.w.log:
            if d.src == STACK and d.data.startswith(b'SIP/2.0 ') and d.m.cseq[1] == method:
                if first:
                    if d.data in seen: continue
                    seen.add(d.data)
                out.append(d)
        return out

# generators -------------------------------------------------------------------
def T(lo, hi, off = 0.0): return st.integers(int(lo * 10), int(hi * 10)).map(lambda x: round(x / 10.0 + off, 4))
def spread(off): return st.one_of(T(0, 3, off), T(0, 12, off), T(0, 80, off))
N = st.sampled_from((0, 1, 2, None))

def _arrived_finals(self):
    """Final responses of the peer that reached the stack (INVITEs only)."""
    out, n = [], 0
    for t, text in self.ep.tx_log:
        if text.startswith('SIP/2.0 ') and text[8] > '1':
            m = wire.Msg(text)
            if m.cseq[1] == 'INVITE': out.append(sim.Dgram(t + 0.01, None, None, text.encode()))
    return out
Harness.arrived_finals = _arrived_finals
