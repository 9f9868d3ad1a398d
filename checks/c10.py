"""C10: dialog identity, CSeq order, target and route of every request on the wire; refusal of what does not belong."""
from hypothesis import strategies as st
from core import Check, Part, Violation
import uah, wire
from uah import T, N, PEER, PROXIES
from sim import STACK

NEWC = (('198.51.100.21', 5062), ('198.51.100.22', 5060))
EPS = 0.0003

def V(k, f, *a): raise Violation(f % a if a else f, k)

def act():
    t = T(0, 9, 0.6131)
    return st.one_of(
      st.tuples(t, st.just('L'), st.just('update'), st.tuples(st.none(), st.sampled_from((1, 2, 3)))),
      st.tuples(t, st.just('L'), st.just('info'), st.tuples(st.none(), st.just(0))),
      st.tuples(t, st.just('L'), st.just('disc'), st.just([])),
      st.tuples(t, st.just('P'), st.just('move'), st.tuples(st.sampled_from((0, 1)))),
      st.tuples(t, st.just('P'), st.just('req'), st.tuples(st.sampled_from(('INVITE', 'INVITE', 'INFO', 'OPTIONS', 'BYE', 'MESSAGE')), st.sampled_from(('ok', 'ok', 'ok', 'cseq', 'ttag', 'ftag', 'callid')), st.sampled_from((0, 1, 2, None)))))

def strat():
    def mk(v):
        d, acts, n, late = v
        d = dict(d)
        acts = sorted(acts, key = lambda a: a[0])
        d['L'] = [(a[0], a[2], a[3]) for a in acts if a[1] == 'L']
        d['P'] = [(a[0], a[2], a[3]) for a in acts if a[1] == 'P']
        if late: d['sdp'], d['ackb'] = None, 3
        if d['role'] == 'uac':
            if d['bad'] is not None:       # refused: the ACK repeats the INVITE's target and route
                d['P'] = [(0.3057, 'resp', (d['bad'], None))]
            else:
                d['P'] = [(0.1057, 'resp', (180, None)), (0.3057, 'resp', (200, n))] + d['P']
            if d['cancel']: d['L'] = [(0.2031, 'disc', ())] + d['L']
            elif late: d['L'] = [(0.4131, 'conn', (200, 1))] + d['L']
        else:
            d['L'] = [(0.3131, 'preconn' if late else 'conn', (200, n))] + d['L']
        if d['ob']: d['rr'] = []
        return d
    base = st.fixed_dictionaries({'role': st.sampled_from(('uac', 'uas')), 'sdp': st.just(0), 'rr': st.one_of(st.just([]), st.lists(st.tuples(st.sampled_from((0, 1, 2)), st.sampled_from((True, True, False))), max_size = 3, unique_by = lambda x: x[0])),
      'end': st.just(30.0), 'oncancel': st.just('487'), 'lim': st.fixed_dictionaries({'ka': st.sampled_from((None, None, 3, 7))}), 'ob': st.sampled_from((False, False, False, True)), 'bad': st.sampled_from((None,) * 8 + (404, 503)), 'cancel': st.sampled_from((False,) * 8 + (True,)),
      'rp': st.lists(st.tuples(st.one_of(T(0, 2, 0.0171), st.just(0.0171)), st.sampled_from((200, 200, 200, 488, 491)), st.sampled_from((0, 1, 2)), st.sampled_from((None, 100, 180))), max_size = 4),
      'loss': st.one_of(st.just([]), st.just([]), st.lists(st.integers(1, 30), max_size = 5))})
    return st.tuples(base, st.lists(act(), max_size = 7), N, st.sampled_from((False, False, True))).map(mk)

class H(uah.Harness):
    """Adds: the peer may move (new Contact from then on)."""
    def __init__(self, case, skip = False):
        self.skip = skip
        super().__init__(case, tune = self.ob if case['ob'] else None)
        for a in NEWC: self.w.peer(a, self.ep.rx)
        self.contacts = []      # (t the stack learned it, contact uri)
    def ob(self, ua):
        ua.outbound_proxy = PROXIES[1]
    def peer_act(self, k, a):
        if k == 'move':
            c = NEWC[a[0]]
            self.ep.contact = '<sip:%s@%s:%d>' % (self.ep.name, c[0], c[1])
            return
        if self.skip and k == 'req' and a[1] != 'ok':
            if self.leg is not None and a[1] == 'cseq' and self.leg.role == 'callee' and self.leg.data.get('okseq') is None and self.leg.state == 'up':
                pass        # nothing seen yet: any CSeq is fine
            else: return
        super().peer_act(k, a)

def uri(s): return wire.Addr(s).uri
def hostport(u):
    u = u.split('?')[0].split(';')[0]
    u = u[4:] if u.startswith('sip:') else u
    u = u.rsplit('@', 1)[-1]
    h, _, p = u.partition(':')
    return (h, int(p or 5060))
def same_uri(a, b):
    return hostport(a) == hostport(b) and a.split('@')[0] == b.split('@')[0] if '@' in a or '@' in b else hostport(a) == hostport(b)

def learn(h):
    """(time, contact, certain) each time a message that refreshes the target reached the stack; a re-INVITE that was
    refused may or may not do so (RFC 3261 and RFC 6141 differ), one that had to be refused must not."""
    out = []
    bad = {r['branch'] for r in h.replies if r['variant'] != 'ok'}
    ok = {d.m.via.branch for d in h.w.log if d.src == STACK and not d.m.is_req and d.m.method == 'INVITE' and 200 <= d.m.code < 300}
    seen = set()
    for d in h.w.arrived:
        m = d.m
        k = (m.is_req, m.method, m.via.branch)
        if k in seen: continue          # a retransmission
        if m.is_req or m.code >= 200: seen.add(k)
        if m.contact is None or m.method != 'INVITE' or m.via.branch in bad: continue
        if m.is_req: out.append((d.t, m.contact.uri, m.via.branch in ok or not out))
        elif 200 <= m.code < 300: out.append((d.t, m.contact.uri, True))
    return out

def judge(h, case, rec):
    w, leg = h.w, h.leg
    if leg is None: return
    uac = case['role'] == 'uac'
    inv = None
    last, branches, invs = None, {}, {}
    rr = list(h.ep.rr)
    routes = rr[::-1] if uac else rr
    ltag = None
    n = 0
    for d in h.w.log:
        if d.src != STACK: continue
        m = d.m
        if not m.is_req:
            if m.to.tag is not None and not uac and m.callid == leg.callid and m.code > 100 and m.to.tag[-1:] != 'x' and m.method == 'INVITE':
                if ltag is None: ltag = m.to.tag
            continue
        if m.callid != leg.callid: V('callid', '%s with a Call-ID of its own', m.start)
        if uac and inv is None:
            inv, ltag = m, m.frm.tag
        if m.frm.tag != ltag: V('ltag', '%s: From tag %r instead of %r', m.start, m.frm.tag, ltag)
        cs, meth = m.cseq
        if meth != m.method: V('cseq-method', '%s with CSeq %r', m.start, m.cseq)
        if len(m.vias) != 1 or not (m.via.branch or '').startswith('z9hG4bK'): V('via', '%s: Via %r', m.start, m.all('via'))
        if not m.all('max-forwards') or not m.get('max-forwards').isdigit() or int(m.get('max-forwards')) < 1: V('mf', '%s: Max-Forwards %r', m.start, m.all('max-forwards'))
        k = (m.method, m.via.branch)
        if k in branches:
            if branches[k].data != d.data or branches[k].dst != d.dst: V('retr', 'retransmission of %s differs from the original', m.start)
            continue
        if m.method not in ('CANCEL', 'ACK') and any(b == m.via.branch for _, b in branches): V('branch', '%s re-uses a branch', m.start)
        branches[k] = d
        n += 1
        indialog = m.to.tag is not None
        if m.method == 'CANCEL':
            o = branches.get(('INVITE', m.via.branch))
            if o is None: V('cancel', 'CANCEL with a branch no INVITE used')
            o2 = o.m
            if m.ruri != o2.ruri or m.cseq[0] != o2.cseq[0] or m.all('route') != o2.all('route') or d.dst != o.dst or m.get('to') != o2.get('to') or m.get('from') != o2.get('from'): V('cancel', 'CANCEL %r does not match its INVITE %r', m.start, o2.start)
            continue
        if m.method == 'ACK':
            o = invs.get(cs)
            if o is None: V('ack', 'ACK with CSeq %d, no INVITE had it', cs)
            fin = [x for x in h.w.arrived if not x.m.is_req and x.m.method == 'INVITE' and x.m.cseq[0] == cs and x.m.code >= 200]
            if not fin: V('ack', 'ACK before any final answer')
            if fin[0].m.code >= 300:
                if m.via.branch != o.m.via.branch or m.ruri != o.m.ruri or m.all('route') != o.m.all('route') or d.dst != o.dst: V('ack', 'ACK of a refusal (%s to %s) does not repeat its INVITE (%s to %s)', m.start, d.dst, o.m.start, o.dst)
                continue
        else:
            if last is not None and cs <= last: V('cseq', '%s has CSeq %d, an earlier request had %d', m.start, cs, last)
            last = cs
            if m.method == 'INVITE': invs[cs] = d
        if not indialog:
            if m.method != 'INVITE': V('totag', '%s without To tag', m.start)
            if d.dst != (PROXIES[1] if case['ob'] else PEER): V('dst', 'initial INVITE sent to %s', d.dst)
            continue
        if m.to.tag != leg.ltag: V('rtag', '%s: To tag %r instead of %r', m.start, m.to.tag, leg.ltag)
        if uri(m.get('to')) != uri(leg.luri) or uri(m.get('from')) != uri(leg.ruri): V('uri', '%s: From %r To %r, expected %r %r', m.start, m.get('from'), m.get('to'), leg.ruri, leg.luri)
        rec.cls(m.method, 'routes=%d' % len(routes))
        con = [(c, sure) for t, c, sure in h.learned if t <= d.t + EPS]
        if m.method == 'ACK' and case['ob']: continue
        alts = {c for t, c, sure in h.learned if abs(t - d.t) < EPS}
        for c, sure in con[::-1]:
            alts.add(c)
            if sure: break
        if m.method == 'ACK': alts |= {c for t, c, sure in h.learned if fin[0].t - EPS <= t <= d.t}       # made out when the 2xx came, sent when the owner answered
        want = [uri(x) for x in routes]
        got = [uri(x) for x in m.all('route')]
        ok = False
        for c in alts:
            if not want: exp = (c, [], hostport(c))
            elif ';lr' in want[0]: exp = (c, want, hostport(want[0]))
            else: exp = (want[0], want[1:] + [c], hostport(want[0]))
            if case['ob']: exp = exp[:2] + (PROXIES[1],)
            if same_uri(m.ruri, exp[0]) and len(got) == len(exp[1]) and all(same_uri(a, b) for a, b in zip(got, exp[1])) and d.dst == exp[2]: ok = True
        if not ok: V('target', '%s (Route %r) sent to %s; expected R-URI %s, Route %r, to %s (Record-Route %r, role %s)', m.start, got, d.dst, exp[0], exp[1], exp[2], rr, case['role'])
    rec.nt(n >= 3)
    # the peer's requests
    for r in h.replies:
        want = {'ok': None, 'cseq': 500, 'ttag': 481, 'ftag': 481, 'callid': 481}[r['variant']]
        if case['loss']: continue
        if r['code'] is None or r.get('resp') is None: V('unanswered', '%s (%s) in state %s was never answered', r['method'], r['variant'], r['state'])
        if r['t'] > (h.dead[0][0] if h.dead else 1e9) - 0.02: want = want and 481
        if r['variant'] == 'cseq' and r['code'] == 481: continue
        if want is not None and r['code'] != want: V('accepted', '%s with wrong %s answered %d instead of %d', r['method'], r['variant'], r['code'], want)
        rec.cls('%s:%s:%s' % (r['method'], r['variant'], r['code']))
        if want is None and r['method'] != 'BYE' and r['code'] == 481 and r['state'] in ('Connected', 'Updating(UAC)', 'Updating(UAS)') : V('refused', '%s matches the dialog but was answered 481', r['method'])

def observe(h):
    """What the owner and the peer see, without the refused requests."""
    bad = {r['branch'] for r in h.replies if r['variant'] != 'ok'}
    own = [(round(t, 6), k, e[0] if k == 'event' else '') for t, k, *e in h.out]
    wire_ = []
    for d in h.w.log:
        if d.src != STACK: continue
        m = d.m
        if m.is_req: wire_.append((round(d.t, 6), m.method))
        elif m.via.branch not in bad: wire_.append((round(d.t, 6), m.method, m.code))
    return own, wire_

def one(case, skip):
    h = H(case, skip)
    h.w.arrived = []
    o = h.w._inject
    def inj(data, src, dst):
        import sim
        h.w.arrived.append(sim.Dgram(h.w.now, src, dst, data))
        o(data, src, dst)
    h.w._inject = inj
    h.go(60.0)
    h.learned = learn(h)
    return h

def run(case, rec):
    h = one(case, False)
    judge(h, case, rec)
    if not case['loss'] and any(r['variant'] != 'ok' for r in h.replies):
        a = observe(h)
        b = observe(one(case, True))
        for x, y, what in zip(a, b, ('the owner', 'the peer')):
            if x != y:
                d = [(p, q) for p, q in zip(x + [None] * 9, y + [None] * 9) if p != q][:1]
                V('disturbed', 'requests that had to be refused changed the call: %s saw %r instead of %r', what, d[0][0], d[0][1])

CHECK = Check('C10', 'exploration', [Part('dialog', strat, run, quick = 3000, thorough = 30000, shards = 8, rule = 'the stack sent at least three different requests')])
