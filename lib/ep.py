"""Scripted SIP endpoints (independent of the code under test) with their own transactions and dialogs."""
import wire
from sim import STACK

class Leg(object):
    """One call as one endpoint sees it."""
    def __init__(self, ep, role, callid, ltag):
        self.ep, self.role, self.callid, self.ltag = ep, role, callid, ltag
        self.rtag = None
        self.lcseq, self.rcseq = 1000, None
        self.luri = self.ruri = None
        self.target = None
        self.routes = []
        self.state = 'new'          # new calling early up failed ended
        self.ev = []                # (t, kind, ...)
        self.inv = None             # INVITE Msg that created the call
        self.inv_tx = None
        self.inv_dg = None
        self.data = {}
        self.on = {}                # hooks: kind -> fn(leg, ...)
        self.inv_final = None
        self.nbr = 0
    def log(self, kind, *a):
        self.ev.append((self.ep.w.now, kind) + a)
        h = self.on.get(kind) or self.on.get('*')
        if h is not None:
            h(self, kind, *a)
    def got(self, *kinds):
        return [e for e in self.ev if e[1] in kinds]
    # requests inside of the dialog ----------------------------------------
    def request(self, method, body = '', extra = (), cseq = None, contact = True, ctype = None, branch = None):
        ep = self.ep
        if cseq is None:
            if method not in ('ACK', 'CANCEL'):
                self.lcseq += 1
            cseq = self.lcseq
        me = '%s;tag=%s' % (self.luri, self.ltag)
        to = self.ruri if self.rtag is None else '%s;tag=%s' % (self.ruri, self.rtag)
        x = [('Route', r) for r in self.routes] + list(extra)
        if body and ctype:
            x.append(('Content-Type', ctype))
        br = branch or ep.branch()
        return wire.Msg(wire.request(method, self.target, 'SIP/2.0/UDP %s:%d;branch=%s' % (ep.addr + (br,)), me, to, self.callid, cseq,
          extra = x, body = body, contact = ep.contact if contact else None)), br

class EP(object):
    def __init__(self, w, addr, name = 'ep', lat = 0.01, seed = 0):
        self.w, self.addr, self.name, self.lat = w, addr, name, lat
        self.contact = '<sip:%s@%s:%d>' % (name, addr[0], addr[1])
        self.legs = []
        self.ctx = {}
        self.stx = {}
        self.dead = False
        self.rx_log, self.tx_log = [], []
        self.n = 0
        self.on_call = None
        self.lose = None            # fn() -> True when the datagram being sent is lost
        self.stack = STACK
        self.stray = []
        self.problems = []          # things the stack did that no correct peer could make sense of
        self.old = []               # requests with a stale CSeq (right only after losses)
        self.rr = []                # Record-Route values a proxy in front of this endpoint adds
        w.peer(addr, self.rx)
    def branch(self):
        self.n += 1
        return 'z9hG4bK-%s-%d' % (self.name, self.n)
    def send(self, m, dst = None):
        text = m if isinstance(m, str) else m.text
        if self.dead:
            return
        self.tx_log.append((self.w.now, text))
        if self.lose is not None and self.lose():
            return
        self.w.inject(text, self.addr, dst or self.stack, self.lat)
    # client side -----------------------------------------------------------
    def start_tx(self, leg, text, m, br, done, method):
        tx = {'leg': leg, 'text': text, 'm': m, 'br': br, 'done': done, 'method': method, 'iv': 0.5, 't0': self.w.now, 'final': None, 'prov': False, 'ack': None}
        self.ctx[(br, method)] = tx
        self.send(text)
        self.w.after(0.5, self._retr, tx)
        self.w.after(32.0, self._tout, tx)
        return tx
    def _retr(self, tx):
        if self.dead or tx['final'] is not None or (tx['prov'] and tx['method'] == 'INVITE') or self.w.now - tx['t0'] >= 32:
            return
        self.send(tx['text'])
        tx['iv'] *= 2
        self.w.after(tx['iv'], self._retr, tx)
    def _tout(self, tx):
        if self.dead or tx['final'] is not None or (tx['prov'] and tx['method'] == 'INVITE'):
            return
        tx['final'] = 408
        tx['done'](tx, None)
    def call(self, cid, ruri, frm, to, body = '', extra = (), maxf = 70, cseq = 1000, tag = None, ctype = None, contact = None):
        leg = Leg(self, 'caller', cid, tag or 't-%s-%d' % (self.name, len(self.legs)))
        leg.luri, leg.ruri, leg.lcseq = frm, to, cseq
        self.legs.append(leg)
        br = self.branch()
        x = [('Record-Route', r) for r in self.rr] + list(extra)
        if body and ctype: x.append(('Content-Type', ctype))
        text = wire.request('INVITE', ruri, 'SIP/2.0/UDP %s:%d;branch=%s' % (self.addr + (br,)), '%s;tag=%s' % (frm, leg.ltag), to, cid, cseq,
          extra = x, body = body, maxf = maxf, contact = contact or self.contact)
        leg.state = 'calling'
        leg.target = ruri
        m = wire.Msg(text)
        m.text = text
        leg.inv = m
        leg.inv_tx = self.start_tx(leg, text, m, br, self._inv_resp, 'INVITE')
        return leg
    def _inv_resp(self, tx, m):
        leg = tx['leg']
        if m is None:
            leg.state = 'failed'
            leg.log('final', 408, '', None)
            return
        if m.code < 200:
            if leg.state == 'calling': leg.state = 'early'
            leg.log('prov', m.code, m.body, m)
            return
        leg.inv_final = m.code
        if m.code < 300:
            leg.rtag = m.to.tag
            if m.contact is not None: leg.target = m.contact.uri
            if leg.state != 'ended': leg.state = 'up'
        else:
            leg.state = 'failed'
        leg.log('final', m.code, m.body, m)
    def cancel(self, leg, extra = ()):
        tx = leg.inv_tx
        m = tx['m']
        text = wire.request('CANCEL', m.start.split()[1], m.get('via'), m.get('from'), m.get('to'), m.callid, m.cseq[0], extra = extra)
        leg.log('cancel-tx')
        self.start_tx(leg, text, wire.Msg(text), tx['br'], lambda tx, r: leg.log('cancel-final', r.code if r else 408), 'CANCEL')
    def ack(self, tx, m):
        """ACK to a final response m of INVITE transaction tx."""
        leg, inv = tx['leg'], tx['m']
        if m.code >= 300:
            ruri, br, routes = inv.start.split()[1], tx['br'], inv.all('route')
        else:
            if tx['ack'] is not None:
                self.send(tx['ack'])
                return
            ruri, br, routes = leg.target, self.branch(), leg.routes
        body = tx.get('ack_body', '') if m.code < 300 else ''
        x = [('Route', r) for r in routes] + ([('Content-Type', tx['ack_ctype'])] if body and tx.get('ack_ctype') else [])
        text = wire.request('ACK', ruri, 'SIP/2.0/UDP %s:%d;branch=%s' % (self.addr + (br,)), inv.get('from'), m.get('to'), inv.callid, inv.cseq[0], extra = x, body = body)
        tx['ack'] = text
        self.send(text)
    def indialog(self, leg, method, body = '', extra = (), cseq = None, done = None, ctype = None, kind = None):
        m, br = leg.request(method, body, extra, cseq, ctype = ctype)
        text = wire.build(m.start, m.hdrs, m.body)
        kind = kind or method.lower()
        leg.log(kind + '-tx', m.body, m)
        def fin(tx, r):
            if r is None:
                leg.log(kind + '-final', 408, '', None)
            elif r.code < 200:
                leg.log(kind + '-prov', r.code, r.body, r)
            else:
                if method == 'INVITE' and r.code < 300 and r.contact is not None: leg.target = r.contact.uri
                leg.log(kind + '-final', r.code, r.body, r)
            if done is not None: done(tx, r)
        return self.start_tx(leg, text, wire.Msg(text), br, fin, method)
    def bye(self, leg, extra = ()):
        leg.state = 'ended'
        return self.indialog(leg, 'BYE', extra = extra)
    # receiving --------------------------------------------------------------
    def rx(self, dg):
        if self.dead:
            return
        m = dg.m
        m.dg = dg
        self.rx_log.append((self.w.now, m))
        if m.is_req:
            self.rx_req(m, dg)
        else:
            self.rx_resp(m, dg)
    def rx_resp(self, m, dg):
        tx = self.ctx.get((m.via.branch, m.cseq[1]))
        if tx is None:
            self.stray.append((self.w.now, m))
            return
        if tx['final'] is not None:
            if m.code >= 200 and tx['method'] == 'INVITE':
                self.ack(tx, m)
                if tx['final'] != m.code:
                    self.problems.append('second, different final response %d after %r to %s' % (m.code, tx['final'], tx['m'].start))
            return
        if m.code < 200:
            tx['prov'] = True
            tx['done'](tx, m)
            return
        tx['final'] = m.code
        tx['done'](tx, m)
        if tx['method'] == 'INVITE':
            d = tx.get('ack_delay')
            if d is None:
                self.ack(tx, m)
            else:
                self.w.after(d, self.ack, tx, m)
    def respond(self, m, code, reason = 'R', body = '', extra = (), leg = None, contact = None, tag = None, ctype = None):
        """Send (and remember) a response to request m."""
        k = (m.via.branch, m.method)
        st = self.stx.get(k)
        if st is None or st['final'] is not None or self.dead:
            return False
        x = [('Record-Route', r) for r in self.rr] if m.method == 'INVITE' and m.to.tag is None and code > 100 and code < 300 else []
        x += list(extra)
        if body and ctype: x.append(('Content-Type', ctype))
        text = wire.response(m, code, reason, to_tag = tag or (leg.ltag if leg is not None and code > 100 else None), extra = x, body = body, contact = contact)
        st['last'] = text
        if code >= 200:
            st['final'] = code
        v = m.via
        st['dst'] = self.stack
        self.send(text)
        if code >= 200 and m.method == 'INVITE':
            self.w.after(0.5, self._rresp, st, 0.5, self.w.now)
        return True
    def _rresp(self, st, iv, t0):
        if self.dead or st.get('acked'):
            return
        if self.w.now - t0 >= 32:
            # nobody acknowledged the answer: hang up, as RFC 3261 13.3.1.4 wants
            leg = st.get('leg')
            if leg is not None and st['final'] < 300 and leg.state == 'up':
                leg.log('noack')
                self.bye(leg)
            return
        self.send(st['last'])
        iv = min(iv * 2, 4.0)
        self.w.after(iv, self._rresp, st, iv, t0)
    def find(self, m):
        for leg in self.legs:
            if leg.callid == m.callid and m.to.tag == leg.ltag and (leg.rtag is None or m.frm.tag == leg.rtag):
                return leg
        return None
    def rx_req(self, m, dg):
        w = self.w
        m.ruri = m.start.split()[1]
        if m.method == 'ACK':
            leg = self.find(m)
            for st in self.stx.values():
                if st['m'].method == 'INVITE' and st['m'].callid == m.callid and st['m'].cseq[0] == m.cseq[0] and st['final'] is not None and st['m'].frm.tag == m.frm.tag:
                    first = not st.get('acked')
                    st['acked'] = True
                    if leg is not None and first: leg.log('ack', m.body, m, st['final'])
                    if 'on_ack' in st and first: st['on_ack'](m)
                    return
            self.problems.append('ACK that matches no INVITE: %r' % (m.start,))
            return
        k = (m.via.branch, m.method)
        st = self.stx.get(k)
        if st is not None:
            if st['last'] is not None:
                self.send(st['last'])
            return
        st = self.stx[k] = {'m': m, 'last': None, 'final': None, 't': w.now}
        if m.method == 'CANCEL':
            ist = self.stx.get((m.via.branch, 'INVITE'))
            if ist is None:
                self.respond(m, 481, 'None')
                return
            leg = ist.get('leg')
            mode = leg.data.get('cancel', '487') if leg is not None else '487'
            self.respond(m, 200, 'OK', leg = leg)
            if leg is not None: leg.log('cancel', m)
            if ist['final'] is None and mode != 'none':
                if mode == '200':
                    leg.data['answer'](leg)
                    return
                if leg is not None: leg.state = 'failed'
                self.respond(ist['m'], 487, 'Request Terminated', leg = leg)
            return
        if m.to.tag is None:
            if m.method != 'INVITE':
                self.respond(m, 200, 'OK')
                return
            leg = Leg(self, 'callee', m.callid, 't-%s-%d' % (self.name, len(self.legs)))
            leg.inv, leg.inv_dg = m, dg
            leg.rtag = m.frm.tag
            leg.rcseq = m.cseq[0]
            leg.luri, leg.ruri = m.get('to'), m.get('from').rsplit(';tag=', 1)[0]
            leg.target = m.contact.uri if m.contact is not None else None
            leg.state = 'early'
            st['leg'] = leg
            self.legs.append(leg)
            leg.log('invite', m.body, m)
            if self.on_call is not None: self.on_call(leg)
            return
        leg = self.find(m)
        if leg is None:
            self.respond(m, 481, 'None')
            return
        if leg.rcseq is not None and m.cseq[0] <= leg.rcseq:
            self.old.append('CSeq %d of %s is not higher than %d' % (m.cseq[0], m.method, leg.rcseq))
            self.respond(m, 500, 'Old', leg = leg)
            return
        leg.rcseq = m.cseq[0]
        st['leg'] = leg
        if m.method == 'BYE':
            self.respond(m, 200 if leg.state == 'up' or leg.state == 'ended' else 481, 'OK')
            leg.state = 'ended'
            leg.log('bye', m)
        elif m.method == 'INVITE':
            leg.log('reinv', m.body, m)
            h = leg.data.get('reinv')
            if h is not None: h(leg, m)
            else: self.respond(m, 200, 'OK', body = m.body and leg.data.get('sdp', ''), leg = leg, contact = self.contact)
        elif m.method == 'REFER':
            leg.log('refer', m)
            self.respond(m, 202, 'Accepted', leg = leg)
        else:
            leg.log(m.method.lower(), m.body, m)
            self.respond(m, 200, 'OK', leg = leg)
    def answer(self, leg, code = 200, reason = 'OK', body = '', extra = (), contact = True, ctype = None):
        """Response of the callee to the call-creating INVITE."""
        if leg.inv_final is not None:
            return
        ok = self.respond(leg.inv, code, reason, body = body, extra = extra, leg = leg, contact = (self.contact if contact is True else contact) if code > 100 and code < 300 and contact else None, ctype = ctype)
        if not ok:
            return
        leg.log('answer-tx', code, body)
        if code >= 200:
            leg.inv_final = code
            leg.state = 'up' if code < 300 else 'failed'
