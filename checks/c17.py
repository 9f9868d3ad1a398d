"""C17: digest credentials: independent RFC 2617/7616 client and server against the stack's, and nonce histories."""
import hashlib, re, base64
from hypothesis import strategies as st
from core import Check, Part, Violation
import sipgen as g

def V(cond, msg, key = None):
    if not cond:
        raise Violation(msg, key)

HF = {'MD5': 'md5', 'SHA-256': 'sha256', 'SHA-512-256': 'sha512_256'}
ALGS = ['MD5', 'MD5-sess', 'SHA-256', 'SHA-256-sess', 'SHA-512-256', 'SHA-512-256-sess']

def H(alg, s):
    h = hashlib.new(HF[(alg or 'MD5').replace('-sess', '')])
    h.update(s.encode('utf-8'))
    return h.hexdigest()

def rfc_response(alg, user, realm, pw, nonce, nc, cnonce, qop, method, uri, body):
    a1 = H(alg, '%s:%s:%s' % (user, realm, pw))
    if alg and alg.endswith('-sess'):
        a1 = H(alg, '%s:%s:%s' % (a1, nonce, cnonce))
    a2 = '%s:%s' % (method, uri)
    if qop == 'auth-int':
        a2 += ':' + H(alg, body or '')
    if qop is None:
        return H(alg, '%s:%s:%s' % (a1, nonce, H(alg, a2)))
    return H(alg, ':'.join((a1, nonce, nc, cnonce, qop, H(alg, a2))))

def read_auth(text):
    """Digest header value -> ordered list of (name, value as written, quoted?)"""
    m = re.match(r'\s*Digest\s+(.*)$', text, re.S)
    assert m is not None, text
    out = []
    for p in g.split_top(m.group(1), ','):
        if not p.strip(): continue
        n, _, v = p.partition('=')
        v = v.strip()
        q = len(v) > 1 and v[0] == '"'
        out.append((n.strip().lower(), v[1:-1] if q else v, q))
    return out

txt = st.one_of(st.text(g.ALNUM + '@._- ', min_size = 1, max_size = 10), st.text(g.ALNUM + '@:;,=/ \'?\u00e9', min_size = 1, max_size = 10))
uname = st.text(g.ALNUM + '@._-,;=/ \u00e9', min_size = 1, max_size = 10)
body = st.one_of(st.none(), st.just(''), st.text(g.ALNUM + '\r\n=\u00e9:', max_size = 20))
uri = st.sampled_from(['sip:bob@example.com', 'sip:example.com:5060;transport=udp', 'sip:a,b@x', 'sips:h', 'sip:x@y?a=b', 'tel:+1'])
meth = st.sampled_from(['INVITE', 'REGISTER', 'BYE', 'MESSAGE'])
TAMPER = ['password', 'user', 'method', 'uri', 'body', 'realm', 'nonce', 'nc', 'cnonce', 'qop', 'response', 'algorithm', 'none', 'none', 'late', 'drop', 'swapnonce', 'nonce-pad']

@st.composite
def case(draw):
    return {'alg': draw(st.sampled_from([None] + ALGS)), 'qop': draw(st.sampled_from([None, 'auth', 'auth', 'auth-int'])), 'user': draw(uname), 'realm': draw(txt), 'pw': draw(txt),
      'method': draw(meth), 'uri': draw(uri), 'body': draw(body), 'nc': draw(st.sampled_from(['00000001', '00000002', '000000ff'])), 'cnonce': draw(st.text(g.ALNUM, min_size = 1, max_size = 8)),
      'proxy': draw(st.booleans()), 'tamper': draw(st.sampled_from(TAMPER)), 'arg': draw(st.integers(0, 999)), 'perm': draw(st.integers(0, 5)), 'sep': draw(st.sampled_from([',', ', ', ' , ', ',,'])),
      'upper': draw(st.booleans()), 'dt': draw(st.sampled_from([0, 0.25, 5, 31.9])), 'opaque': draw(st.sampled_from([None, 'op', 'a,b=c'])), 'qalg': draw(st.booleans())}

def norm(c):
    c = dict(c)
    if c['alg'] is not None and c['alg'] != 'MD5' and c['qop'] is None:
        c['qop'] = 'auth'            # RFC 7616 algorithms and -sess mandate qop
    return c

def write_auth(c, d):
    ps = [('username', d['user'], 1), ('realm', d['realm'], 1), ('nonce', d['nonce'], 1), ('uri', d['uri'], 1), ('response', d['response'], 1)]
    if d['alg'] is not None: ps.append(('algorithm', d['alg'], c['qalg']))
    if d['qop'] is not None: ps.append(('qop', d['qop'], 0))
    if d['nc'] is not None: ps.append(('nc', d['nc'], 0))
    if d['cnonce'] is not None: ps.append(('cnonce', d['cnonce'], 1))
    if c['opaque'] is not None: ps.append(('opaque', c['opaque'], 1))
    ps = [p for p in ps if p[0] != d.get('drop')]
    k = c['perm'] % len(ps)
    ps = ps[k:] + ps[:k]
    return 'Digest ' + c['sep'].join('%s=%s' % (n.upper() if c['upper'] else n, '"%s"' % v if q else v) for n, v, q in ps)

def flip(s, k):
    i = k % len(s)
    for ch in 'aB3x':
        if ch != s[i] and ch.lower() != s[i].lower():
            return s[:i] + ch + s[i + 1:]

def run_server(c, rec):
    """Stack challenges, independent client answers (perhaps tampered with), stack verifies."""
    import sim
    from sippy.SipWWWAuthenticate import SipWWWAuthenticate
    from sippy.SipProxyAuthenticate import SipProxyAuthenticate
    from sippy.SipAuthorization import SipAuthorization, NameList2AlgMask
    from sippy.SipProxyAuthorization import SipProxyAuthorization
    c = norm(c)
    w = sim.World()
    ccls, acls = (SipProxyAuthenticate, SipProxyAuthorization) if c['proxy'] else (SipWWWAuthenticate, SipAuthorization)
    ch = ccls(realm = c['realm'], algorithm = c['alg'])
    if c['alg'] is not None or c['qop'] is not None:
        ch.qop = None if c['qop'] is None else [c['qop']]
    p = dict((n, v) for n, v, q in read_auth(str(ch)))
    V(p['realm'] == c['realm'] and p.get('algorithm') == c['alg'] and p.get('qop') == c['qop'], 'challenge %r does not state what was asked for' % str(ch), 'challenge')
    copy = ch.getCopy()
    V(str(copy) == str(ch), 'copy of challenge is %r, original %r' % (str(copy), str(ch)), 'copy')
    nonce = p['nonce']
    d = {'user': c['user'], 'realm': p['realm'], 'nonce': nonce, 'uri': c['uri'], 'alg': c['alg'], 'qop': c['qop'], 'nc': None, 'cnonce': None}
    if c['qop'] is not None:
        d['nc'], d['cnonce'] = c['nc'], c['cnonce']
    d['response'] = rfc_response(c['alg'], c['user'], d['realm'], c['pw'], nonce, d['nc'], d['cnonce'], c['qop'], c['method'], c['uri'], c['body'])
    pw, method, bd, dt = c['pw'], c['method'], c['body'], c['dt']
    want = True
    t, k = c['tamper'], c['arg']
    if t == 'password': pw, want = flip(pw, k), False
    elif t == 'user': d['user'], want = flip(d['user'], k), False
    elif t == 'method': method, want = 'OPTIONS', False
    elif t == 'uri': d['uri'], want = d['uri'] + 'x', False
    elif t == 'body':
        bd = (bd or '') + 'x'
        want = c['qop'] != 'auth-int'
    elif t == 'realm': d['realm'], want = flip(d['realm'], k), False
    elif t == 'nonce': d['nonce'], want = flip(nonce, k), False
    elif t == 'nonce-pad':
        # an altered nonce, with a response that is right for the altered one
        i = k % (len(nonce) + 1)
        d['nonce'] = nonce[:i] + ('=', '!', ' ', '.')[k % 4] + nonce[i:]
        d['response'] = rfc_response(c['alg'], c['user'], d['realm'], c['pw'], d['nonce'], d['nc'], d['cnonce'], c['qop'], c['method'], c['uri'], c['body'])
        want = False
    elif t == 'swapnonce':
        # another nonce the stack issued: the response was not computed for it
        d['nonce'] = ccls(realm = c['realm'], algorithm = c['alg']).nonce
        want = False
    elif t == 'nc' and c['qop'] is not None: d['nc'], want = flip(d['nc'], k), False
    elif t == 'cnonce' and c['qop'] is not None: d['cnonce'], want = flip(d['cnonce'], k), False
    elif t == 'qop' and c['qop'] is not None: d['qop'], want = {'auth': 'auth-int', 'auth-int': 'auth'}[c['qop']], False
    elif t == 'response': d['response'], want = flip(d['response'], k), False
    elif t == 'algorithm':
        # right response for an algorithm the nonce was not issued for
        d['alg'] = [a for a in ALGS if a != (c['alg'] or 'MD5')][k % 5]
        if d['qop'] is None: d['qop'], d['nc'], d['cnonce'] = 'auth', c['nc'], c['cnonce']
        d['response'] = rfc_response(d['alg'], c['user'], d['realm'], c['pw'], nonce, d['nc'], d['cnonce'], d['qop'], c['method'], c['uri'], c['body'])
        want = False
    elif t == 'late': dt, want = 32.5 + k, False
    elif t == 'drop':
        ks = ['username', 'realm', 'nonce', 'uri', 'response']
        if c['qop'] is not None: ks += ['qop', 'nc', 'cnonce']
        d['drop'], want = ks[k % len(ks)], False
    else: t = 'none'
    rec.nt(t != 'none' or c['qop'] is not None)
    rec.cls('tamper:' + t, 'alg:%s' % c['alg'], 'qop:%s' % c['qop'])
    w.run(dt)
    text = write_auth(c, d)
    a = acls(text)
    def ver(a):
        return bool(a.verify(pw, method, bd))
    got = ver(a)
    V(got == want, '%r (tampering: %s, %.2f s after the challenge): verify() gives %s' % (text, t, dt, got), 'verify:' + t)
    if t != 'drop':
        # what the stack writes back still verifies (or not) and equals what was read
        b = acls(str(a))
        V(ver(b) == want, 'verify() of the re-written header %r gives %s' % (str(a), not want), 'rewrite')
        b = a.getCopy()
        V(ver(b) == want and str(b) == str(a), 'copy %r of %r verifies differently' % (str(b), str(a)), 'copy')
        x, y = dict((n, v) for n, v, q in read_auth(text)), dict((n, v) for n, v, q in read_auth(str(a)))
        V(x == y, 'header %r is written back as %r' % (text, str(a)), 'rewrite')

@st.composite
def ccase(draw):
    c = draw(case())
    c['qops'] = draw(st.lists(st.sampled_from(['auth', 'auth-int', 'token', 'auth-foo']), max_size = 3, unique = True))
    c['calg'] = draw(st.sampled_from([None, 'MD5', 'md5'] + ALGS + ['SHA3', 'AKAv1-MD5']))
    c['nonce'] = draw(st.text(g.ALNUM + '+/=,;:', min_size = 1, max_size = 20))
    c['otherp'] = draw(st.lists(st.sampled_from([('stale', 'true', 0), ('domain', 'sip:a b', 1), ('charset', 'UTF-8', 0)]), max_size = 2, unique = True))
    return c

def run_client(c, rec):
    """Independent server challenges, stack answers."""
    import sim
    from sippy.SipWWWAuthenticate import SipWWWAuthenticate
    from sippy.SipProxyAuthenticate import SipProxyAuthenticate
    sim.World()
    ccls = SipProxyAuthenticate if c['proxy'] else SipWWWAuthenticate
    ps = [('realm', c['realm'], 1), ('nonce', c['nonce'], 1)]
    if c['calg'] is not None: ps.append(('algorithm', c['calg'], c['qalg']))
    if c['qops']: ps.append(('qop', ','.join(c['qops']), 1))
    if c['opaque'] is not None: ps.append(('opaque', c['opaque'], 1))
    ps += [tuple(x) for x in c['otherp']]
    k = c['perm'] % len(ps)
    ps = ps[k:] + ps[:k]
    text = 'Digest ' + c['sep'].join('%s=%s' % (n.upper() if c['upper'] else n, '"%s"' % v if q else v) for n, v, q in ps)
    ch = ccls(text)
    ch.parse()
    alg = 'MD5' if c['calg'] == 'md5' else c['calg']
    V((ch.realm, ch.nonce, ch.algorithm, ch.opaque) == (c['realm'], c['nonce'], alg, c['opaque']) and list(ch.qop or []) == c['qops'], 'challenge %r is read as %r' % (text, (ch.realm, ch.nonce, ch.algorithm, ch.qop, ch.opaque)), 'parse')
    ok, qop = ch.supportedAlgorithm()
    sup = [q for q in c['qops'] if q in ('auth', 'auth-int')]
    base = (alg or 'MD5').replace('-sess', '') in HF
    if c['qops']:
        want = base and len(sup) > 0
        wq = sup[0] if sup else None
    else:
        want = base and alg in (None, 'MD5')
        wq = None
    V(bool(ok) == want and (not want or qop == wq), 'challenge %r: supportedAlgorithm() gives %r, expected %r' % (text, (ok, qop), (want, wq)), 'supported')
    rec.cls('usable' if want else 'unusable')
    if not want: return
    rec.nt()
    a = ch.genAuthHF(c['user'], c['pw'], c['method'], c['uri'], c['body'], qop)
    V(type(a).__name__ == ('SipProxyAuthorization' if c['proxy'] else 'SipAuthorization'), 'credentials for %r are in a %s' % (text, type(a).__name__), 'class')
    got = {}
    for n, v, q in read_auth(str(a)):
        V(n not in got, 'parameter %s occurs twice in %r' % (n, str(a)), 'client')
        got[n] = v
    V((got.get('username'), got.get('realm'), got.get('nonce'), got.get('uri'), got.get('algorithm'), got.get('opaque'), got.get('qop')) == (c['user'], c['realm'], c['nonce'], c['uri'], alg, c['opaque'], wq), 'credentials %r do not match the challenge %r' % (str(a), text), 'client')
    if wq is not None:
        V(got.get('nc') == '00000001' and got.get('cnonce'), 'nonce count or client nonce missing in %r' % str(a), 'client')
    exp = rfc_response(alg, c['user'], c['realm'], c['pw'], c['nonce'], got.get('nc'), got.get('cnonce'), wq, c['method'], c['uri'], c['body'])
    V(got.get('response') == exp, 'response in %r should be %s' % (str(a), exp), 'client')
    if wq is not None:
        b = ch.genAuthHF(c['user'], c['pw'], c['method'], c['uri'], c['body'], qop)
        V(b.cnonce != a.cnonce or b.cnonce == '', 'two answers use the same client nonce %s' % a.cnonce, 'cnonce')

# nonce histories -----------------------------------------------------------
@st.composite
def ncase(draw):
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.integers(0, 5))
        if k <= 1: ops.append(['emit', draw(st.integers(0, 1)), draw(st.lists(st.integers(0, 5), min_size = 1, max_size = 6, unique = True))])
        elif k == 2: ops.append(['wait', draw(st.sampled_from([0.001, 1.0, 8.0, 15.9, 31.9, 32.1, 100.0, 40000.0]))])
        else: ops.append(['check', draw(st.integers(0, 7)), draw(st.integers(0, 1)), draw(st.lists(st.integers(0, 5), min_size = 1, max_size = 3, unique = True)), draw(st.sampled_from(['none', 'none', 'flip', 'cut', 'add', 'swap', 'junk', 'mix', 'ws'])), draw(st.integers(0, 99999))])
    return {'ops': [['emit', 0, [0, 1, 2, 3, 4, 5]]] + ops}

def run_nonce(c, rec):
    import sim
    from sippy.Security import SipNonce as S
    from sippy.SipAuthorization import NameList2AlgMask
    w = sim.World()
    mine = S.HashOracle()
    other = S.HashOracle()
    other.ac = S.AESCipher(bytes(range(64)))           # another issuer
    orcs = (mine, other)
    BITS = NameList2AlgMask(ALGS)
    issued = []                                        # (nonce, issuer, set, time)
    for op in c['ops']:
        if op[0] == 'wait': w.run(op[1])
        elif op[0] == 'emit':
            n = orcs[op[1]].emit_challenge(tuple(BITS[i] for i in op[2]))
            V(n not in [x[0] for x in issued], 'the same nonce was issued twice', 'reuse')
            V(re.match(r'^[A-Za-z0-9+/=]+$', n), 'nonce %r does not fit a quoted string' % n, 'form')
            issued.append((n, op[1], set(op[2]), w.now))
        else:
            _, i, o, algs, mut, k = op
            n, iss, aset, t = issued[i % len(issued)]
            n0 = n
            if mut == 'flip':
                j = k % len(n)
                n = n[:j] + ('A' if n[j] != 'A' else 'B') + n[j + 1:]
            elif mut == 'cut': n = n[:k % len(n)]
            elif mut == 'add': n = n + 'A=Bx'[k % 4]
            elif mut == 'swap':
                a, b = k % len(n), (k // 100) % len(n)
                l = list(n); l[a], l[b] = l[b], l[a]
                n = ''.join(l)
            elif mut == 'junk': n = ('', 'x', '\u20ac', 'AAAA' * (k % 40), base64.b64encode(bytes([k % 256]) * 48).decode())[k % 5]
            elif mut == 'mix':
                n2 = issued[k % len(issued)][0]
                j = (k // 7) % 64
                n = n[:j] + n2[j:]
            elif mut == 'ws':
                j = k % (len(n) + 1)
                n = n[:j] + ' \n\t!-'[k % 5] + n[j:]
            if n != n0 and n in [x[0] for x in issued]: continue
            want = n == n0 and iss == o and set(algs) <= aset and 0 <= w.now - t <= 32
            rec.nt(n != n0 or not want)
            rec.cls('forged' if n != n0 else 'accept' if want else 'refuse')
            got = orcs[o].validate_challenge(n, tuple(BITS[i] for i in algs))
            V(bool(got) == want, 'nonce %r (alteration %s) issued by %d for %r %.3f s ago, presented to %d for %r: %s' % (n, mut, iss, sorted(aset), w.now - t, o, algs, got), 'nonce:' + mut)

CHECK = Check('C17', 'exploration', [
    Part('server', lambda: case(), run_server, quick = 1500, thorough = 20000, shards = 3, rule = 'credentials tampered with, or a protection level in use'),
    Part('client', lambda: ccase(), run_client, quick = 1200, thorough = 15000, shards = 2, rule = 'challenges the stack can answer'),
    Part('nonce', lambda: ncase(), run_nonce, quick = 1200, thorough = 15000, shards = 3, rule = 'a nonce that is altered, expired, foreign or for another algorithm is presented'),
  ], ['credentials are compared as written inside the quotes', 'algorithm names are matched as the RFCs spell them (plus md5)'])
