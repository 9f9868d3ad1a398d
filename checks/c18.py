"""C18: challenged INVITEs, re-INVITEs, keep-alives and REGISTERs are repeated once with valid credentials."""
import hashlib, re
from hypothesis import strategies as st
from core import Check, Part, Violation
import uah, wire, sim
from uah import T, sdp, PEER
from sim import STACK

EPS = 0.002
def V(k, f, *a): raise Violation(f % a if a else f, k)

# independent digest client -----------------------------------------------------
HF = {'MD5': 'md5', 'SHA-256': 'sha256', 'SHA-512-256': 'sha512_256'}
ALGS = ('MD5', 'MD5-sess', 'SHA-256', 'SHA-256-sess', 'SHA-512-256', 'SHA-512-256-sess')
def Hh(alg, s): return hashlib.new(HF[(alg or 'MD5').replace('-sess', '')], s.encode('utf-8')).hexdigest()
def expected(p, alg, user, realm, pw, method, body):
    a1 = Hh(alg, '%s:%s:%s' % (user, realm, pw))
    if alg and alg.endswith('-sess'): a1 = Hh(alg, '%s:%s:%s' % (a1, p['nonce'], p.get('cnonce')))
    a2 = '%s:%s' % (method, p['uri'])
    if p.get('qop') == 'auth-int': a2 += ':' + Hh(alg, body)
    if p.get('qop') is None: return Hh(alg, '%s:%s:%s' % (a1, p['nonce'], Hh(alg, a2)))
    return Hh(alg, ':'.join((a1, p['nonce'], p['nc'], p['cnonce'], p['qop'], Hh(alg, a2))))
def params(v):
    m = re.match(r'Digest\s+(.*)$', v, re.S | re.I)
    if m is None: V('scheme', 'Authorization %r', v)
    out, rest = {}, m.group(1)
    while rest.strip():
        m = re.match(r'\s*([A-Za-z-]+)\s*=\s*(?:"((?:[^"\\]|\\.)*)"|([^\s,]+))\s*(?:,|$)', rest)
        if m is None: V('syntax', 'Authorization %r is malformed at %r', v, rest)
        n = m.group(1).lower()
        if n in out: V('dup', 'Authorization %r repeats %s', v, n)
        out[n] = m.group(2) if m.group(2) is not None else m.group(3)
        rest = rest[m.end():]
    return out

# challenges --------------------------------------------------------------------
def chall(c):
    kind, alg, qop, realm, nonce, opaque, stale = c
    if kind == 'basic': return 'Basic realm="%s"' % realm
    if kind == 'bare': return 'Digest'
    if kind == 'nononce': return 'Digest realm="%s"' % realm
    s = 'Digest realm="%s", nonce="%s"' % (realm, nonce)
    if opaque: s += ', opaque="%s"' % opaque
    if stale: s += ', stale=true'
    if alg: s += ', algorithm=%s' % alg
    if qop: s += ', qop="%s"' % qop
    return s
def usable(c, enalgs):
    kind, alg, qop, realm, nonce, opaque, stale = c
    if kind != 'digest': return False
    if alg == 'md5': alg = 'MD5'
    if enalgs is not None and (alg or 'MD5') not in enalgs: return False
    if alg is not None and alg not in ALGS: return False
    if qop is None: return alg in (None, 'MD5')
    return any(q.strip() in ('auth', 'auth-int') for q in qop.split(','))
CH = st.tuples(st.sampled_from(('digest',) * 12 + ('basic', 'bare', 'nononce')), st.sampled_from((None, 'MD5', 'MD5', 'md5') + ALGS + ('FOO-256',)), st.sampled_from((None, 'auth', 'auth', 'auth-int', 'auth,auth-int', 'auth-int,auth', 'foo', 'foo,auth')),
  st.sampled_from(('r1', 'some realm', 'a,b=c')), st.text('0123456789abcdef', min_size = 4, max_size = 12), st.sampled_from((None, None, 'op1', 'x,y')), st.booleans())
STEP = st.fixed_dictionaries({'code': st.sampled_from((401, 401, 407)), 'ch': st.one_of(st.lists(CH, min_size = 1, max_size = 3), st.lists(CH, min_size = 1, max_size = 1), st.lists(CH, max_size = 3)), 'hdr': st.sampled_from((None,) * 9 + ('other', 'both')), 'delay': T(0, 1, 0.0173), 'prov': st.sampled_from((None, None, 100, 180))})
CRED = st.sampled_from((('bob', 'pw1'), ('bob', 'pw1'), ('u@dom', 'p:w,1"'.replace('"', '')), ('u', ''), None))
ENALGS = st.sampled_from((None, None, None, ('MD5', None), ('SHA-256', 'MD5', None), ('SHA-512-256',), ('SHA-256-sess', 'MD5-sess')))

def strat():
    t = st.one_of(T(0, 2, 0.0131), T(0, 12, 0.0131))
    base = st.fixed_dictionaries({'role': st.just('uac'), 'cred': CRED, 'enalgs': ENALGS, 'pass': st.sampled_from((False,) * 5 + (True,)), 'steps': st.lists(STEP, min_size = 1, max_size = 4),
      'last': st.sampled_from((200, 200, 200, 404, 486)), 'sdp': st.sampled_from((0, 1, None)), 'xh': st.lists(st.tuples(st.sampled_from(('X-One', 'Subject', 'P-Foo')), st.sampled_from(('a', 'b;c=d', '"q" x'))), max_size = 2),
      'mf': st.sampled_from((None, None, 5, 70)), 'ka': st.sampled_from((None, None, 3)), 'end': st.just(20.0), 'ob': st.booleans()})
    def mk(v):
        d, ups, disc, restep = v
        d = dict(d)
        L = [(a, 'update', (None, n)) for a, n in ups] + ([(disc, 'disc', ())] if disc is not None else [])
        d['L'] = sorted(L, key = lambda x: x[0])
        d['resteps'] = restep
        d['lim'] = {'ka': d['ka']}
        return d
    return st.tuples(base, st.lists(st.tuples(t, st.sampled_from((1, 2, 3))), max_size = 2), st.one_of(st.none(), st.none(), t), st.lists(st.one_of(st.none(), STEP), max_size = 4)).map(mk)

class HH(uah.Harness):
    def __init__(self, case):
        self.chal = []      # (t sent, request Msg, step)
        self.steps = list(case['steps'])
        self.resteps = list(case['resteps'])
        super().__init__(case, tune = self.tn)
    def tn(self, ua):
        c = self.case
        if c['cred'] is not None: ua.username, ua.password = c['cred']
        ua.auth_enalgs = c['enalgs']
        ua.pass_auth = c['pass']
    def mkev(self, k, a):
        from sippy.SipHeader import SipHeader
        ev = super().mkev(k, a)
        if k in ('try', 'update'):
            if self.case['xh']: ev.extra_headers = tuple(SipHeader('%s: %s' % tuple(x)) for x in self.case['xh'])
            if self.case['mf']: ev.max_forwards = self.case['mf']
        return ev
    def challenge(self, leg, m, step):
        e = self.ep
        if step['prov']: self.w.after(step['delay'] / 3, e.respond, m, step['prov'], 'P', '', (), leg)
        own = 'WWW-Authenticate' if step['code'] == 401 else 'Proxy-Authenticate'
        oth = 'Proxy-Authenticate' if step['code'] == 401 else 'WWW-Authenticate'
        hs = [((oth if step['hdr'] == 'other' else own), chall(c)) for c in step['ch']]
        if step['hdr'] == 'both': hs.insert(0, (oth, 'Digest realm="z", nonce="zz"'))
        def fin():
            if leg.inv is m:
                if leg.inv_final is not None: return
                e.answer(leg, step['code'], 'Auth', extra = hs)
                ok = leg.inv_final == step['code']
            else: ok = e.respond(m, step['code'], 'Auth', leg = leg, extra = hs)
            if ok: self.chal.append((self.w.now + e.lat, m, step))
        self.w.after(step['delay'], fin)
    def start(self):
        super().start()
        o = self.on_invite
        def inv(leg):
            o(leg)
            self.leg = leg
            if self.steps: self.challenge(leg, leg.inv, self.steps.pop(0))
            else: self.w.after(0.0317, lambda: self.ep.answer(leg, self.case['last'], 'F', body = sdp(1) if self.case['last'] == 200 else '', ctype = 'application/sdp'))
        self.on_invite = inv
    def reinv(self, leg, m):
        s = self.resteps.pop(0) if self.resteps else None
        if s is not None: self.challenge(leg, m, s)
        else: super().reinv(leg, m)

def run(case, rec):
    h = HH(case)
    h.go(60.0)
    judge(h, case, rec)

ANAME = {401: 'authorization', 407: 'proxy-authorization'}
def check_auth(v, c, cred, m, what):
    """Authorization value v answers challenge c for message m."""
    kind, alg, qop, realm, nonce, opaque, stale = c
    if alg == 'md5': alg = 'MD5'
    p = params(v)
    for n, x in (('username', cred[0]), ('realm', realm), ('nonce', nonce)):
        if p.get(n) != x: V('auth-' + n, '%s: %s %r, expected %r', what, n, p.get(n), x)
    if p.get('opaque') != opaque: V('auth-opaque', '%s: opaque %r, expected %r', what, p.get('opaque'), opaque)
    if p.get('algorithm') != alg and not (alg == 'MD5' and 'algorithm' not in p): V('auth-alg', '%s: algorithm %r, expected %r', what, p.get('algorithm'), alg)
    if re.sub(':5060(?=;|$)', '', p.get('uri') or '') != re.sub(':5060(?=;|$)', '', m.start.split()[1]): V('auth-uri', '%s: digest uri %r, Request-URI %r', what, p.get('uri'), m.start.split()[1])
    offered = None if qop is None else [q.strip() for q in qop.split(',')]
    if offered is None:
        if 'qop' in p: V('auth-qop', '%s: qop %r not offered', what, p['qop'])
    else:
        if p.get('qop') not in offered or p['qop'] not in ('auth', 'auth-int'): V('auth-qop', '%s: qop %r, offered %r', what, p.get('qop'), qop)
        if not p.get('cnonce') or not re.match('^[0-9a-f]{8}$', p.get('nc', '')): V('auth-nc', '%s: nc %r cnonce %r', what, p.get('nc'), p.get('cnonce'))
    e = expected(p, alg, cred[0], realm, cred[1], m.method, m.body)
    if p.get('response') != e: V('auth-response', '%s: response %r, expected %r', what, p.get('response'), e)

def judge(h, case, rec):
    sent = h.reqs('INVITE')
    if not sent: V('no-invite', 'no INVITE')
    cred, enalgs = case['cred'], case['enalgs']
    gone = min([t for t, k, s in h.local if k == 'disc'] + [1e9])
    retried = set()
    carried = {sent[0].m.via.branch: {}}        # branch -> {code: challenge answered}
    origin = {d.m.via.branch: d.t for d in sent}
    for ta, m, step in h.chal:
        i = [k for k, d in enumerate(sent) if d.m.via.branch == m.via.branch]
        d = sent[i[0]]
        m = d.m
        had = carried.get(m.via.branch, {})
        indialog = m.to.tag is not None
        own = [] if step['hdr'] == 'other' else step['ch']
        c = next((c for c in own if usable(c, enalgs)), None)
        retry = cred is not None and not case['pass'] and c is not None and step['code'] not in had
        if gone <= ta + EPS and any(k == 'disc' for t, k, s in h.local):
            if gone >= ta - EPS: return
            retry = False
        over = [e for e in h.disc + h.fail if e[0] < ta - EPS]
        if over: retry = False
        nxt = [x for x in sent if abs(x.t - ta) < EPS and x.m.cseq[0] > m.cseq[0]]
        own_upd = [t for t, k, s in h.local if k == 'update' and abs(t - ta) < EPS]
        if own_upd: return
        what = 'retry of %d' % step['code']
        if had and indialog and not any(abs(t - d0) < EPS for t, k, s in h.local if k == 'update' for d0 in [origin[m.via.branch]]): continue       # keep-alives: once whatever the second refusal
        stale = any(x.t < ta - EPS and x.m.cseq[0] > m.cseq[0] for x in sent)  # keep-alive overtaken by an update
        if stale: continue
        rec.cls('usable' if retry else 'not usable', 'in dialog' if indialog else 'initial', 'again' if had else 'first')
        if not retry:
            if nxt: V('retried', '%d (challenges %r, credentials %r, enabled %r, already answered %r) led to another INVITE', step['code'], own, cred, enalgs, sorted(had))
            if not over and gone > ta and not indialog:
                f = [e for e in h.events if abs(e[0] - ta) < EPS and e[1].name == 'CCEventFail']
                if len(f) != 1 or f[0][1].getData()[0] != step['code']: V('not-passed', '%d was not passed on: %r', step['code'], [(e[0], e[1].name) for e in h.events])
                if case['pass'] and own and step['hdr'] is None:
                    got = [str(x.body) for x in getattr(f[0][1], 'challenges', None) or []]
                    if len(got) != len(own): V('challenges', '%d challenges passed on instead of %d', len(got), len(own))
                    for g, w in zip(got, own):
                        if w[0] == 'digest' and params(g) != params(chall(w)) and w[1] != 'md5': V('challenges', 'challenge %r passed on as %r', chall(w), g)
            continue
        if len(nxt) != 1: V('no-retry', '%d with challenges %r (credentials %r, enabled %r, already answered %r, in dialog %s) was followed by %d INVITEs', step['code'], own, cred, enalgs, sorted(had), indialog, len(nxt))
        n = nxt[0].m
        retried.add(n.via.branch)
        origin[n.via.branch] = origin[m.via.branch]
        rec.nt(True)
        ev = [e for e in h.events if abs(e[0] - ta) < EPS and e[1].name in ('CCEventFail', 'CCEventDisconnect')]
        if ev: V('reported', '%d that was answered with credentials was reported to the owner as well', step['code'])
        if n.cseq[0] <= m.cseq[0]: V('cseq', 'CSeq %d after %d', n.cseq[0], m.cseq[0])
        for x in ('from', 'call-id', 'contact', 'max-forwards'):
            if n.all(x) != m.all(x): V('hdr-' + x, '%s: %s %r instead of %r', what, x, n.all(x), m.all(x))
        if (n.to.tag or None) != (m.to.tag or None) or n.start != m.start: V('to', '%s: %s To %r', what, n.start, n.get('to'))
        if n.body != m.body: V('body', '%s: body %r instead of %r', what, n.body, m.body)
        for a in {x[0] for x in case['xh']}:
            if n.all(a.lower()) != m.all(a.lower()) or not indialog and n.all(a.lower()) != [x[1] for x in case['xh'] if x[0] == a]: V('extra', '%s: %s %r instead of %r', what, a, n.all(a.lower()), m.all(a.lower()))
        now = dict(had)
        now[step['code']] = c
        carried[n.via.branch] = now
        for code, nm in ANAME.items():
            vs = n.all(nm)
            if code not in now:
                if vs: V('stray-auth', '%s carries %s %r', what, nm, vs)
                continue
            if len(vs) != 1: V('auth-count', '%s carries %d %s', what, len(vs), nm)
            check_auth(vs[0], now[code], cred, n, what)
    for d in sent:
        if d.m.via.branch not in retried and (d.m.all('authorization') or d.m.all('proxy-authorization')): V('stray-auth', 'an INVITE that answers no challenge carries credentials')
    # number of INVITEs outside of a dialog
    init = [d for d in sent if d.m.to.tag is None]
    if len(init) > 3: V('endless', '%d attempts', len(init))

def rstrat():
    import c29
    return c29.strat().map(lambda d: dict(d, cred = d['cred'] or ('bob', 'pw1'), steps = [dict(x, k = 'chal' if x['k'] in ('ok', 'silent') and i % 2 == 0 else x['k']) for i, x in enumerate(d['steps'])]))
def rrun(case, rec):
    import c29
    try: c29.run(case, rec)
    except Violation as e:
        if str(e.key).startswith(('auth', 'endless', 'cseq', 'missing', 'when', 'fail-cb')): raise       # the schedule is C29's business
CHECK = Check('C18', 'exploration', [Part('call', strat, run, quick = 1500, thorough = 20000, shards = 8, rule = 'a challenge was answered with credentials'),
  Part('register', rstrat, rrun, quick = 500, thorough = 8000, shards = 8, rule = 'at least three REGISTERs were sent')])
