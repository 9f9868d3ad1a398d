"""C07: CANCEL, server side (incoming INVITE) and client side (outgoing INVITE)."""
from hypothesis import strategies as st
from core import Check, Part, Violation
import wire

_t = st.one_of(st.integers(0, 40).map(lambda x: x / 10.0), st.integers(0, 320).map(lambda x: x / 10.0))
SRC = ('198.51.100.20', 5060)
US = ('192.0.2.1', 5060)

# --- server side ----------------------------------------------------------
def s_strategy():
    return st.fixed_dictionaries({'invs': st.lists(st.fixed_dictionaries({
        'expires': st.sampled_from((None, None, None, 0, 7, 30, 400)),
        'prov': st.lists(st.tuples(_t, st.sampled_from((100, 180, 183))), max_size = 3),
        'final': st.one_of(st.none(), st.none(), st.tuples(_t, st.sampled_from((200, 404, 486)))),
        'cancels': st.lists(st.tuples(_t, st.sampled_from((None,) * 5 + ('branch', 'cseq', 'callid', 'ftag')), st.integers(0, 2)), max_size = 3),
        'ack': st.booleans(),
        'rets': st.lists(_t, max_size = 2),
        'cancelcb': st.sampled_from((True, True, False)),
    }), min_size = 1, max_size = 2)})

def s_run(case, rec):
    import sim
    w = sim.World()
    ss = {}
    def on_req(req, t):
        m = req.getMethod()
        key = (str(req.getHFBody('call-id')), req.getHFBody('cseq').getCSeq()[0])
        if m != 'INVITE' or key not in ss:
            raise Violation('application was handed %s %s' % (m, key))
        s = ss[key]
        s['seen'] += 1
        s['t'], s['req'] = t, req
        for t_, code in s['evs']:
            w.after(t_, send, s, code)
        return (None, (lambda rtime, r: s['cancelled'].append(w.now)) if s['c']['cancelcb'] else None, lambda: s['noack'].append(w.now))
    def send(s, code):
        if s['over'] is not None:
            return
        r = s['req'].genResponse(code, 'C%d' % code)
        if code > 100:
            r.getHFBody('to').setTag(s['tag'])
        s['sent'].append((w.now, code))
        if code >= 200:
            s['over'] = w.now
        tm.sendResponse(r)
    tm, gc = sim.make_tm(on_req)
    for i, c in enumerate(case['invs']):
        s = {'c': c, 'i': i, 'seen': 0, 'sent': [], 'cancelled': [], 'noack': [], 'tag': 'st%d' % i, 'over': None, 'canc': [], 'at': 0.003 * i}
        s['key'] = ('cc%d' % (i // 2), 20 + i)
        ss[s['key']] = s
        prov = sorted(c['prov'])
        prov = [(t + 0.0137 + 0.0007 * j, code) for j, (t, code) in enumerate(prov) if code != 100 or j == 0]
        s['evs'] = prov + ([((prov[-1][0] if prov else 0.01) + 0.0011 + c['final'][0], c['final'][1])] if c['final'] else [])
        s['text'] = wire.request('INVITE', 'sip:me@192.0.2.1', 'SIP/2.0/UDP 198.51.100.20:5060;branch=z9hG4bKinv%d' % i, '<sip:c@198.51.100.20>;tag=cft%d' % i,
          '<sip:me@192.0.2.1>', s['key'][0], s['key'][1], extra = [('Expires', str(c['expires']))] if c['expires'] is not None else [], contact = '<sip:c@198.51.100.20>')
        for t in [0.0] + [0.0513 + x for x in c['rets']]:
            w.at(s['at'] + t, inject, w, s['text'])
        for k, (t, mut, reps) in enumerate(sorted(c['cancels'], key = str)):
            for r in range(reps + 1):
                w.at(s['at'] + 0.0291 + t + 0.0003 * k + r * 0.5, cancel, w, s, k, mut)
    def watch(d):
        # the client ACKs non-2xx finals of its INVITEs at once when told to
        if d.data[:8] == b'SIP/2.0 ' and d.m.method == 'INVITE':
            key = (d.m.callid, d.m.cseq[0])
            s = ss.get(key)
            if s is not None and d.m.code >= 200:
                if s['over'] is None:
                    s['over'] = w.now
                s['finals'] = s.get('finals', []) + [(w.now, d.m.code)]
                if s['c']['ack'] and not s.get('acked'):
                    s['acked'] = True
                    w.inject(wire.request('ACK', 'sip:me@192.0.2.1', d.m.get('via'), d.m.get('from'), d.m.get('to'), d.m.callid, d.m.cseq[0]), SRC, US, delay = 0.02)
        return [0]
    w.out_hook = watch
    w.run_until(500.0)
    w.check_exceptions()
    for s in ss.values():
        s_judge(w, s, rec)
    if tm.tserver:
        raise Violation('server transactions left behind: %r' % list(tm.tserver))

def inject(w, txt):
    w._inject(txt.encode(), SRC, US)

def cancel(w, s, k, mut):
    m = wire.Msg(s['text'])
    br, cs, cid, ft = m.via.branch, m.cseq[0], m.callid, m.frm.tag
    if mut == 'branch': br += 'x'
    elif mut == 'cseq': cs += 1000
    elif mut == 'callid': cid = 'x' + cid
    elif mut == 'ftag': ft = 'x' + ft
    txt = wire.request('CANCEL', m.ruri, 'SIP/2.0/UDP 198.51.100.20:5060;branch=' + br, '<sip:c@198.51.100.20>;tag=' + ft, m.get('to'), cid, cs, extra = [('X-N', str(k))])
    n0 = len(w.log)
    st0 = (s['over'], s['seen'], s.get('acked_gone'))
    w._inject(txt.encode(), SRC, US)
    s['canc'].append((w.now, k, mut, w.log[n0:], st0[0], st0[1]))

def s_judge(w, s, rec):
    c, i = s['c'], s['i']
    if s['seen'] != 1:
        raise Violation('INVITE %d delivered %d times' % (i, s['seen']))
    exp = c['expires'] if c['expires'] and c['expires'] > 0 else 300
    # the moment the INVITE ends and how
    fin = [s['at'] + t for t, code in s['evs'] if code >= 200]
    tf = fin[0] if fin else None
    te = s['at'] + exp
    tc = [t for t, k, mut, dg, over, seen in s['canc'] if mut is None and seen]
    tc = tc[0] if tc else None
    end = min(x for x in (tf, te, tc) if x is not None)
    how = 'final' if end == tf else 'cancel' if end == tc else 'expire'
    rec.cls(how)
    rec.nt(len(s['canc']) > 0 or how == 'expire')
    fs = s.get('finals', [])
    want = c['final'][1] if how == 'final' else 487
    if not fs or abs(fs[0][0] - end) > 0.01 or any(x[1] != want for x in fs):
        raise Violation('INVITE %d must end with %d at +%.3f (%s); finals sent: %s' % (i, want, end, how, fs[:4]))
    wc = [] if how == 'final' or not c['cancelcb'] else [end]
    if len(s['cancelled']) != len(wc) or any(abs(a - b) > 0.01 for a, b in zip(s['cancelled'], wc)):
        raise Violation('INVITE %d ended by %s at +%.3f: application told of cancellation at %s' % (i, how, end, s['cancelled']))
    gone = end + (0.02 if c['ack'] else 32.0)
    for t, k, mut, dg, over, seen in s['canc']:
        own = [d for d in dg if d.data[:8] == b'SIP/2.0 ' and d.m.method == 'CANCEL']
        oth = [d for d in dg if d not in own]
        if not seen:
            continue
        first = [x for x in s['canc'] if x[1] == k and x[2] == mut][0]
        t1 = first[0]                       # identical datagrams are answered alike
        codes = [d.m.code for d in own]
        rec.cls('cancel-' + ('bad' if mut else 'after-end' if t1 > end else 'in-time'))
        if mut is not None:
            ok = codes == [481]
        elif t1 <= end + 1e-6:
            ok = codes == [200]
        elif t1 < gone - 1e-3:
            ok = codes == [200]
        elif t1 > gone + 1e-3:
            ok = codes == [481]
        else:
            ok = codes in ([200], [481])
        if not ok:
            raise Violation('CANCEL (%s) at +%.3f for INVITE %d that ended at +%.3f (%s) answered %s' % (mut or 'matching', t, i, end, how, codes))
        for d in own:
            if d.dst != SRC:
                raise Violation('CANCEL answered to %s' % (d.dst,))
        if mut is None and abs(t - end) < 1e-9 and how == 'cancel':
            if [d.m.code for d in oth] != [487]:
                raise Violation('CANCEL for INVITE %d triggered %s' % (i, [d.m.code for d in oth]))
        elif oth:
            raise Violation('CANCEL at +%.3f had side effects: %s' % (t, [d.data[:80] for d in oth]))
    na = [] if c['ack'] else [end + 32.0]
    if len(s['noack']) != len(na) or any(abs(a - b) > 0.01 for a, b in zip(s['noack'], na)):
        raise Violation('INVITE %d: missing-ACK notifications %s, expected %s' % (i, s['noack'], na))

# --- client side ----------------------------------------------------------
def c_strategy():
    return st.fixed_dictionaries({
        'cancel': st.one_of(st.none(), _t, _t, _t),
        'resps': st.lists(st.tuples(_t, st.sampled_from((100, 180, 183, 183, 200, 404, 487)), st.integers(0, 2)), max_size = 4),
        'routes': st.integers(0, 2), 'dlg': st.booleans(), 'expires': st.sampled_from((None, 20)), 'compact': st.booleans(),
        'eh': st.booleans(), 'cancelresp': st.one_of(st.none(), st.integers(1, 200).map(lambda x: x / 20.0 + 0.0107)),
    })

def c_run(case, rec):
    import sim
    from sippy.SipRequest import SipRequest
    from sippy.SipURL import SipURL
    from sippy.SipTo import SipTo
    from sippy.SipFrom import SipFrom
    from sippy.SipCallId import SipCallId
    from sippy.SipRoute import SipRoute
    from sippy.SipContact import SipContact
    from sippy.SipExpires import SipExpires
    from sippy.SipHeader import SipHeader
    w = sim.World()
    tm, gc = sim.make_tm(lambda *a: None)
    deliv = []
    rts = [SipRoute('<sip:203.0.113.%d;lr>' % (9 + k)) for k in range(case['routes'])]
    for r in rts:
        r.parse()
    kw = {'expires': SipExpires(number = case['expires'])} if case['expires'] else {}
    dst = ('203.0.113.9', 5060) if rts else ('192.0.2.10', 5080)
    req = SipRequest(method = 'INVITE', ruri = SipURL('sip:bob@192.0.2.10:5080'), to = SipTo('"B" <sip:bob@x>' + (';tag=dd' if case['dlg'] else '')),
      fr0m = SipFrom('"A" <sip:a@192.0.2.1>;tag=ftx'), callid = SipCallId('cid-c07'), cseq = 77, contact = SipContact('<sip:a@192.0.2.1>'),
      routes = tuple(rts), target = (dst, 'udp') if rts else None, user_agent = 'verif', **kw)
    t = tm.newTransaction(req, resp_cb = lambda r: deliv.append((w.now, r.getSCode()[0])), compact = case['compact'])
    inv = w.log[0]
    arr = sorted((0.0113 + a + 0.0009 * j, code, mk) for j, (a, code, mk) in enumerate(case['resps']))
    for a, code, mk in arr:
        txt = wire.response(inv.m, code, 'X', to_tag = 'rt', extra = [('X-M', str(mk))])
        w.at(a, w._inject, txt.encode(), dst, US)
    prov = [a for a, code, mk in arr if code < 200]
    fin = [a for a, code, mk in arr if code >= 200]
    expires = float(case['expires'] or 300)
    # life of the INVITE
    deadline, ringing, end, seen = 32.0, None, None, set()
    for a, code, mk in arr:
        if a >= deadline:
            break
        if code < 200:
            if (code, mk) not in seen:
                seen.add((code, mk))
                deadline = a + expires
                if ringing is None:
                    ringing = a
        else:
            end = a
            break
    if end is None:
        end = deadline
    tc = None if case['cancel'] is None else case['cancel'] + 0.0317
    def do_cancel():
        # an owner cancels only what is still pending
        if w.now < end - 1e-6:
            tm.cancelTransaction(t, extra_headers = [SipHeader(name = 'x-why', bodys = 'because')] if case['eh'] else None)
    if tc is not None:
        w.at(tc, do_cancel)
    answered = []
    def hook(d):
        if d.data[:7] == b'CANCEL ' and case['cancelresp'] is not None and not answered:
            answered.append(w.now + case['cancelresp'])
            w.inject(wire.response(d.m, 200, 'OK'), dst, US, delay = case['cancelresp'])
        return [0]
    w.out_hook = hook
    w.run_until(end + 32 + 400)
    w.check_exceptions()
    cancels = [d for d in w.log if d.data[:7] == b'CANCEL ']
    # expected first transmission
    when = None
    if tc is not None and tc < end:
        if ringing is not None and ringing <= tc:
            when = tc
        elif ringing is not None and ringing < end:
            when = ringing
    if when is None:
        rec.cls('no-cancel' if tc is None else 'cancel-too-late')
        if cancels:
            raise Violation('CANCEL sent at +%.3f: INVITE had provisional at %s, ended at %.3f, cancelled by owner at %s' % (cancels[0].t, ringing, end, tc))
    else:
        rec.cls('deferred' if when > tc else 'immediate')
        rec.nt()
        stop = when + 32.0 if not answered else min(when + 32.0, answered[0])
        exp, x, d = [when], when, 0.5
        while x + d < stop:
            x += d
            d *= 2
            exp.append(x)
        got = [y.t for y in cancels]
        if len(got) != len(exp) or any(abs(p - q) > 0.01 for p, q in zip(got, exp)):
            raise Violation('CANCEL transmitted at %s, expected %s (INVITE provisional at %s, owner cancelled at %s)' % (got, exp, ringing, tc))
        for k in cancels:
            m, q = k.m, inv.m
            if k.data != cancels[0].data:
                raise Violation('CANCEL retransmission differs')
            if m.ruri != q.ruri or len(m.all('via')) != 1 or m.get('via') != q.get('via') or m.cseq != (q.cseq[0], 'CANCEL') or m.callid != q.callid or \
              m.frm.tag != q.frm.tag or m.frm.uri != q.frm.uri or m.to.uri != q.to.uri or m.to.tag != q.to.tag or m.all('route') != q.all('route') or k.dst != inv.dst or m.body:
                raise Violation('CANCEL does not match its INVITE:\n%r to %s\n%r to %s' % (m.start + str(m.hdrs), k.dst, q.start + str(q.hdrs), inv.dst))
            if case['eh'] and when == tc and m.get('x-why') != 'because':
                raise Violation('extra headers missing from CANCEL')
    nf = [x for x in deliv if x[1] >= 200]
    if len(nf) != 1:
        raise Violation('owner of a cancelled INVITE got finals %s' % nf)
    if tm.tclient:
        raise Violation('client transactions left behind: %r' % list(tm.tclient))

CHECK = Check('C07', 'exploration', [
    Part('server', s_strategy, s_run, quick = 1500, thorough = 20000, shards = 5, rule = 'a CANCEL arrives or the INVITE expires'),
    Part('client', c_strategy, c_run, quick = 1500, thorough = 20000, shards = 3, rule = 'a CANCEL must be sent'),
], ['virtual clock replaces clock_gettime; UDP sockets replaced below Udp_server.send_to'])
