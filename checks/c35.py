"""C35: the payload policy of the b2bua. Every body either party receives is compared with an independent filter."""
from core import Check, Part, Violation
from hypothesis import strategies as st
import re
import wire, sdpgen, sipgen as g
from sim import STACK
from c12 import V

DEST = ('198.51.100.10', 6100)
CALLER = ('192.0.2.100', 5060)
AV = ('rtp/avp', 'rtp/avpf', 'rtp/savp', 'rtp/savpf', 'udp/tls/rtp/savp', 'udp/tls/rtp/savpf')
NAMES = ('PCMU/8000', 'G729/8000', 'opus/48000/2', 'H264/90000', 'VP8/90000', 'telephone-event/8000', 'rtx/90000')
PTS = (0, 8, 9, 18, 96, 97, 98, 99, 100, 101, 102)
FB = ('nack', 'nack pli', 'ccm fir', 'goog-remb')

@st.composite
def media(draw):
    k = draw(st.sampled_from(('audio', 'audio', 'audio', 'video', 'video', 'image', 'application', 'message')))
    m = {'type': k, 'port': draw(st.sampled_from((9, 4000, 4000, 30002, 65534, 0))), 'i': None, 'k': None, 'c': draw(sdpgen.addr),
      'b': draw(st.lists(sdpgen.bw, max_size = 1)), 'a': []}
    other = ['sendrecv', 'ptime:20', 'rtcp-mux', 'mid:1', 'x-rtpmap:0 foo', 'fmtp', 'rtcp-fb:* nack', 'setup:actpass', 'rtpmaps:18 x', 'crypto:1 AES_CM_128_HMAC_SHA1_80 inline:abc', 'ssrc:18 cname:x', 'maxptime:40', 'framerate:97']
    if k in ('audio', 'video'):
        m['transport'] = draw(st.sampled_from(('RTP/AVP', 'RTP/AVP', 'RTP/AVP', 'RTP/AVPF', 'RTP/SAVP', 'RTP/SAVPF', 'UDP/TLS/RTP/SAVPF', 'UDP/TLS/RTP/SAVP', 'rtp/avp')))
        m['formats'] = draw(st.lists(st.one_of(st.sampled_from(PTS), st.sampled_from(PTS), st.integers(0, 127)), min_size = 1, max_size = 6, unique = True))
        for f in m['formats']:
            n = draw(st.integers(0, 9))
            if n < 7: m['a'].append('rtpmap:%d %s' % (f, NAMES[(f + n) % 7 if n < 5 else 3]))
            elif n == 7: m['a'].append('rtpmap:%d' % f)
            for _ in range(draw(st.sampled_from((0, 0, 1, 2)))):
                m['a'].append(draw(st.sampled_from(('fmtp:%d %s', 'fmtp:%d %s', 'rtcp-fb:%d %s'))) % (f, draw(st.sampled_from(('0-15', 'annexb=no', 'a=1;b=2') + FB))))
        if draw(st.integers(0, 7)) == 0: m['a'].append(draw(st.sampled_from(('rtpmap', 'rtpmap:xx PCMU/8000', 'rtpmap:', 'rtcp-fb'))))
    else:
        m['transport'] = {'image': 'udptl', 'application': 'UDP/BFCP', 'message': 'TCP/MSRP'}[k]
        m['formats'] = draw(st.sampled_from((['t38'], ['*'], ['t38', '101'], ['18'])))
        if draw(st.booleans()): m['a'].append('rtpmap:18 x-y/1')
    m['a'] += draw(st.lists(st.sampled_from(other), max_size = 3))
    if draw(st.booleans()): m['a'] = draw(st.permutations(m['a']))
    return m

@st.composite
def desc(draw):
    s = draw(sdpgen.sdp(maxm = 0, plain = True))
    s['m'] = draw(st.lists(media(), min_size = 1, max_size = 3))
    return s

def body():
    d = desc()
    return st.one_of(*[st.tuples(st.just('sdp'), d)] * 8 + [st.tuples(st.just('multi'), d), st.tuples(st.just('text'), st.sampled_from(('hello', 'm=audio 1 RTP/AVP 18\r\n'))), st.tuples(st.just('bad'), st.sampled_from(('garbage', 'v=0\r\n', 'm=audio x RTP/AVP 0\r\n')))]).map(list)


def case():
    pol = st.lists(st.one_of(st.sampled_from(PTS), st.sampled_from(PTS), st.integers(0, 127), st.sampled_from(NAMES), st.sampled_from(NAMES)), min_size = 1, max_size = 6)
    op = body().filter(lambda b: b[0] != 'bad')
    re = st.fixed_dictionaries({'side': st.sampled_from(('a', 'b')), 'o': body(), 'r': op})
    return st.fixed_dictionaries({'pol': pol, 'wide': st.sampled_from((True, True, True, False)), 'sp': st.booleans(), 'o': st.one_of(body(), body(), body(), st.none()), 'p': st.one_of(st.none(), st.none(), op), 'r': op, 'k': op, 're': st.lists(re, max_size = 3)})

# ---- independent reference -------------------------------------------------
def allowed(m, pol):
    out = set(str(p) for p in pol if isinstance(p, int))
    for a in m['a']:
        n, _, v = a.partition(':')
        pt, sp, name = v.partition(' ')
        if n == 'rtpmap' and sp and pt.isdigit() and name in pol: out.add(str(int(pt)))
    return out

def filt(text, pol):
    """-> ('ok'|'none'|'maybe', expected normalised description)"""
    s = sdpgen.read(text)
    res = 'ok'
    for m in s['m']:
        if m['transport'].lower() not in AV or m['type'] not in ('audio', 'video'): continue
        ok = allowed(m, pol)
        keep = [f for f in m['formats'] if f in ok]
        if not keep:
            res = 'none' if m['port'] != 0 or res == 'none' else 'maybe'
            continue
        gone = [f for f in m['formats'] if f not in ok]
        m['formats'] = keep
        def own(a):
            n, _, v = a.partition(':')
            return n in ('rtpmap', 'fmtp', 'rtcp-fb') and v.split(' ')[0] in gone
        m['a'] = [a for a in m['a'] if not own(a)]
    return res, s

def text(b):
    """-> (content type, body text)"""
    if b is None: return None, ''
    if b[0] == 'sdp': return 'application/sdp', sdpgen.render(b[1])
    if b[0] == 'multi':
        return 'multipart/mixed;boundary=bb1', '--bb1\r\nContent-Type: application/sdp\r\n\r\n%s--bb1\r\nContent-Type: text/plain\r\n\r\nm=audio 5 RTP/AVP 18\r\n--bb1--\r\n' % sdpgen.render(dict(b[1], eol = '\r\n'))
    return ('text/plain' if b[0] == 'text' else 'application/sdp'), b[1]

def judge(b, pol):
    """-> 'ok' / 'none' / 'maybe'"""
    if b is None or b[0] == 'text': return 'ok'
    if b[0] == 'bad': return 'none'
    return filt(sdpgen.render(b[1]), pol)[0]

def split(t):
    ps = re.split('(?m)^--bb1', t)
    if len(ps) != 4 or ps[0] != '' or not ps[3].startswith('--'): V('multi', 'multipart body came out as %r', t)
    return [p.split('\r\n\r\n', 1)[1] for p in ps[1:3]]

def same(what, b, got, m, pol):
    ct, t = text(b)
    if (m.get('content-type') or '').lower().replace(' ', '').replace('"', '') != (ct or '') and not (b is None and got == ''): V('ctype', '%s: Content-Type %r became %r', what, ct, m.get('content-type'))
    if b is None or b[0] == 'text':
        if got != t: V('other', '%s: a body that is no session description was changed from %r to %r', what, t, got)
        return
    if b[0] == 'multi':
        g1, g2 = split(got)
        if g2.strip() != 'm=audio 5 RTP/AVP 18': V('multi', '%s: second part became %r', what, g2)
        t, got = split(t)[0], g1
    want = filt(t, pol)[1]
    try:
        have = sdpgen.read(got)
    except Exception as e:
        V('unreadable', '%s: forwarded body unreadable (%s): %r', what, e, got)
    d = sdpgen.diff(have, want)
    if d: V('filter', '%s: policy %r, offered %r: %s', what, pol, t, d)

def run(case, rec):
    import b2b
    from ep import EP
    pol = list(case['pol'])
    if case['wide']: pol += [x for x in (0, 8, 18, 97, 100) if x not in pol]
    sep = ', ' if case['sp'] else ','
    r = b2b.Rig(['-u', '-s', '%s:%d' % DEST, '-D', '-A', '0', '-F', sep.join(str(x) if isinstance(x, int) else '[%s]' % x for x in pol)])
    w = r.w
    w.out_hook = lambda dg: [0.01]
    A, B = EP(w, CALLER, 'a'), EP(w, DEST, 'b')
    bl = []
    def on_call(leg):
        bl.append(leg)
        B.respond(leg.inv, 100, 'Trying', leg = leg)
        ct, t = text(case['p'])
        if case['p'] is not None: w.after(0.5037, lambda: leg.state == 'early' and B.answer(leg, 183, 'P', body = t, ctype = ct))
        ct2, t2 = text(case['r'])
        w.after(1.0037, lambda: leg.state == 'early' and B.answer(leg, 200, 'OK', body = t2, ctype = ct2))
    B.on_call = on_call
    ct, t = text(case['o'])
    al = A.call('c@x', 'sip:200@192.0.2.1', '<sip:100@192.0.2.100>', '<sip:200@192.0.2.1>', body = t, ctype = ct)
    kct, kt = text(case['k'])
    if case['o'] is None:
        al.inv_tx['ack_body'] = kt
        al.inv_tx['ack_ctype'] = kct
    w.run_until(4.0)
    alive = first(case, pol, al, bl, rec)
    hist = {'a': [case['o'] if case['o'] is not None else case['k']], 'b': [case['r']]}
    t0 = 4.0
    for x in case['re']:
        if not alive: break
        X, Y, xl, yl = (A, B, al, bl[0]) if x['side'] == 'a' else (B, A, bl[0], al)
        n = len(xl.ev), len(yl.ev)
        def h(leg, m, x = x, Y = Y):
            rct, rt = text(x['r'])
            Y.respond(m, 200, 'OK', body = rt, leg = leg, contact = Y.contact, ctype = rct)
        yl.data['reinv'] = h
        oct_, ot = text(x['o'])
        X.indialog(xl, 'INVITE', body = ot, ctype = oct_)
        t0 += 4.0
        w.run_until(t0)
        alive = again(x, pol, xl, yl, xl.ev[n[0]:], yl.ev[n[1]:], hist, rec)
    rec.cls('end-' + ('up' if alive else 'over'))
    if alive:
        if al.state != 'up' or bl[0].state != 'up': V('fell', 'the call ended: %s / %s', al.state, bl[0].state)
        A.bye(al)
    w.run_until(t0 + 120.0)
    for l in [al] + bl:
        if l.state not in ('ended', 'failed'): V('hung', '%s leg still %s at the end', l.role, l.state)
    w.run_until(t0 + 420.0)
    w.check_exceptions()
    for e in (A, B):
        if e.problems: V('protocol', '%s: %s', e.name, e.problems[0])
    left = r.leftovers()
    if left: V('left', 'still held: %s', left[0])

def over(what, al, bl):
    if al.state not in ('ended', 'failed') or any(l.state not in ('ended', 'failed') for l in bl): V('open', '%s, yet the call went on: %s / %s', what, al.state, [l.state for l in bl])

def first(case, pol, al, bl, rec):
    """Set-up. -> is the call up?"""
    j = judge(case['o'], pol)
    rec.nt(judge(case['r'], pol) == 'ok' and case['r'][0] in ('sdp', 'multi') and changed(case['r'], pol) or j != 'ok' or (case['o'] is not None and case['o'][0] in ('sdp', 'multi') and changed(case['o'], pol)))
    if j == 'maybe' and not bl: j = 'none'
    if j == 'none':
        rec.cls('offer-refused')
        if bl: V('placed', 'an offer with nothing allowed by %r was forwarded: %r', pol, text(case['o'])[1])
        f = al.got('final')
        if not f or f[0][2] != 488: V('no488', 'an offer with nothing allowed by %r was answered %r instead of 488: %r', pol, f and f[0][2], text(case['o'])[1])
        return False
    if not bl: V('refused', 'policy %r, offer %r: not forwarded, answered %r', pol, text(case['o'])[1], al.got('final') and al.got('final')[0][2])
    b = bl[0]
    same('offer', case['o'], b.inv.body, b.inv, pol)
    prov = [e for e in al.got('prov') if e[2] == 183]
    if case['p'] is not None:
        jp = judge(case['p'], pol)
        if jp == 'maybe' and not prov: jp = 'none'
        if jp == 'none':
            rec.cls('early-refused')
            if prov: V('early', 'early media with nothing allowed by %r was forwarded: %r', pol, text(case['p'])[1])
            f = al.got('final')
            if not f or f[0][2] < 300: V('early', 'early answer without allowed media, yet the caller got %r', f)
            if not b.got('cancel', 'bye'): V('early', 'early answer without allowed media, yet the callee was not called off')
            over('early answer without allowed media', al, bl)
            return False
        if not prov: V('early', 'policy %r: 183 with %r not forwarded', pol, text(case['p'])[1])
        same('early answer', case['p'], prov[0][3], prov[0][4], pol)
    jr = judge(case['r'], pol)
    f = al.got('final')
    if not f: V('nofinal', 'callee answered, caller got no final response')
    if jr == 'maybe' and f[0][2] != 200: jr = 'none'
    if jr == 'none':
        rec.cls('answer-refused')
        if f[0][2] < 300: V('answer', 'an answer with nothing allowed by %r was forwarded: %r', pol, text(case['r'])[1])
        if not b.got('bye'): V('answer', 'answer without allowed media, yet the callee was not hung up')
        over('answer without allowed media', al, bl)
        return False
    if f[0][2] != 200: V('answer', 'policy %r: answer %r became %d', pol, text(case['r'])[1], f[0][2])
    same('answer', case['r'], f[0][3], f[0][4], pol)
    if case['o'] is None:
        jk = judge(case['k'], pol)
        ack = b.got('ack')
        if jk == 'maybe' and b.got('bye'): jk = 'none'
        if jk == 'none':
            rec.cls('ack-refused')
            if ack and ack[0][2]: V('ack', 'ACK with nothing allowed by %r was forwarded: %r', pol, kt(case))
            over('ACK without allowed media', al, bl)
            return False
        if not ack: V('ack', 'the answer in the ACK never reached the callee')
        same('answer in ACK', case['k'], ack[0][2], ack[0][3], pol)
        rec.cls('late-offer')
    return True

def kt(case):
    return text(case['k'])[1]

def changed(b, pol):
    return b[0] in ('sdp', 'multi') and bool(sdpgen.diff(filt(sdpgen.render(b[1]), pol)[1], sdpgen.read(sdpgen.render(b[1]))))

def again(x, pol, xl, yl, xev, yev, hist, rec):
    """One re-INVITE. -> is the call still up?"""
    j = judge(x['o'], pol)
    fin = [e for e in xev if e[1] == 'invite-final']
    inv = [e for e in yev if e[1] == 'reinv']
    if not fin: V('re-nofinal', 're-INVITE never answered: %r', text(x['o'])[1])
    if j == 'maybe' and fin[0][2] == 488 and not inv: j = 'none'
    if j == 'none':
        rec.cls('re-refused')
        if inv: V('re-placed', 're-INVITE with nothing allowed by %r was forwarded: %r', pol, text(x['o'])[1])
        if fin[0][2] != 488: V('re-no488', 're-INVITE with nothing allowed by %r was answered %r instead of 488', pol, fin[0][2])
        return True
    if not inv:
        # nothing new for the other side: answered on the spot
        if fin[0][2] != 200 or not any(twin(x['o'], h, pol) for h in hist[x['side']]): V('re-lost', 'policy %r: re-INVITE with %r not forwarded, answered %d', pol, text(x['o'])[1], fin[0][2])
        rec.cls('re-same')
        return True
    same('re-offer', x['o'], inv[0][2], inv[0][3], pol)
    hist[x['side']].append(x['o'])
    jr = judge(x['r'], pol)
    if jr == 'maybe' and fin[0][2] != 200: jr = 'none'
    if jr == 'none':
        rec.cls('re-answer-refused')
        if fin[0][2] < 300: V('re-answer', 'an answer with nothing allowed by %r was forwarded: %r', pol, text(x['r'])[1])
        if xl.state != 'ended' or yl.state != 'ended': V('re-open', 'the answer to a re-INVITE was unusable, yet the call went on: %s / %s', xl.state, yl.state)
        return False
    if fin[0][2] != 200: V('re-answer', 'policy %r: answer %r to re-INVITE became %d', pol, text(x['r'])[1], fin[0][2])
    same('re-answer', x['r'], fin[0][3], fin[0][4], pol)
    hist['b' if x['side'] == 'a' else 'a'].append(x['r'])
    rec.cls('re-ok')
    return True

def twin(a, b, pol):
    if a is None or b is None or a[0] != b[0]: return False
    if a[0] == 'text': return a == b
    return not sdpgen.diff(filt(sdpgen.render(a[1]), pol)[1], filt(sdpgen.render(b[1]), pol)[1])

CHECK = Check('C35', 'exploration', [
    Part('call', case, run, quick = 800, thorough = 40000, shards = 8, rule = 'a body was refused, or at least one format had to be removed from the offer or the answer'),
])
