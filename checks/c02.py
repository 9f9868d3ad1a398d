"""C02: structured header values and URIs keep every component."""
import re
from hypothesis import strategies as st
from core import Check, Part, Violation
import sipgen as g
from sipgen import unq, read_params, read_addr, read_uri, norm_addr, norm_uri, norm_params

def V(cond, msg, key = None):
    if not cond:
        raise Violation(msg, key)

# ---- URL -----------------------------------------------------------------
def url_components(u):
    p = {}
    for n, a in (('user', 'usertype'), ('transport', 'transport'), ('ttl', 'ttl'), ('maddr', 'maddr'), ('method', 'method'), ('tag', 'tag')):
        v = getattr(u, a)
        if v is not None:
            p[n] = str(v)
    if u.lr: p['lr'] = None
    for x in u.other:
        k, e, v = x.partition('=')
        p[k] = v if e else None
    return norm_uri({'scheme': u.scheme, 'user': u.username, 'userparams': list(u.userparams), 'password': u.password, 'host': str(u.host),
      'port': u.port, 'params': p, 'headers': dict(u.headers or {})})

def mutate_url(u, i):
    """Changes every mutable component in place."""
    u.username = 'mutated%d' % i
    u.userparams.append('mut=%d' % i)
    u.other.append('mut=%d' % i)
    if u.headers is not None:
        u.headers['mut'] = 'x%d' % i
        for k in list(u.headers):
            u.headers[k] = 'changed'
    u.setAddr(('mut.example', 1))
    u.transport, u.ttl, u.lr, u.maddr, u.method, u.tag, u.usertype, u.password = 'sctp', 99, not u.lr, 'm', 'M', 't', 'ut', 'pw'

def run_url(case, rec):
    from sippy.SipURL import SipURL
    text = g.render_uri(case)
    want = norm_uri(case)
    V(norm_uri(read_uri(text)) == want, 'HARNESS: reader disagrees with renderer on %r' % text) if False else None
    assert norm_uri(read_uri(text)) == want, (text, want)
    u = SipURL(text)
    rec.nt(len(case['params']) > 1 or len(case['headers']) > 0 or len(case['userparams']) > 0 or '%' in text)
    rec.cls('host:' + ('v6' if case['host'][0] == '[' else 'v4' if re.match(r'^[\d.]+$', case['host']) else 'name'))
    if case['headers']: rec.cls('headers')
    if case['params']: rec.cls('params')
    got = url_components(u)
    V(got == want, 'URI %r exposes %r, contains %r' % (text, got, want), 'url-components')
    out = str(u)
    back = norm_uri(read_uri(out))
    V(back == want, 'URI %r is written back as %r: %r instead of %r' % (text, out, back, want), 'url-write')
    V(str(SipURL(out)) == out, 'URI %r written as %r does not re-read to itself: %r' % (text, out, str(SipURL(out))), 'url-stable')
    V(u.getAddr() == (case['host'], case['port'] if case['port'] is not None else 5060), 'getAddr() of %r is %r' % (text, u.getAddr()), 'url-addr')
    check_copies(u, mutate_url, 'URI %r' % text, 'url')

@st.composite
def tel_case(draw):
    num = draw(st.sampled_from(['', '+'])) + draw(st.text('0123456789', min_size = 1, max_size = 12)) + draw(st.sampled_from(['', '', '-12.3', '(45)6', '%2A']))
    ps = draw(st.lists(st.tuples(st.sampled_from(['phone-context', 'ext', 'isub', 'npdi', 'rn', 'Phone-Context', 'X-CIC', 'NPDI']),
      st.one_of(st.none(), st.sampled_from(['+1', 'example.com', '12-34', '0288']))), max_size = 3))
    return {'num': num, 'params': [list(p) for p in ps], 'scheme': draw(st.sampled_from(['tel', 'TEL', 'Tel'])), 'relaxed': draw(st.booleans())}

def run_tel(case, rec):
    from sippy.SipURL import SipURL
    from sippy.SipConf import SipConf
    from urllib.parse import unquote
    text = case['scheme'] + ':' + ';'.join([case['num']] + [n if v is None else n + '=' + v for n, v in case['params']])
    rec.nt(len(case['params']) > 0)
    old = SipConf.autoconvert_tel_url
    try:
        SipConf.autoconvert_tel_url = False
        try:
            u = SipURL(text, relaxedparser = case['relaxed'])
        except ValueError: pass
        else:
            V(False, '%r was accepted although tel: URIs are not to be converted' % text, 'tel-off')
        SipConf.autoconvert_tel_url = True
        u = SipURL(text, relaxedparser = case['relaxed'])
    finally:
        SipConf.autoconvert_tel_url = old
    want = [n.lower() if v is None else n.lower() + '=' + v for n, v in case['params']]
    V((u.scheme, u.username, list(u.userparams)) == ('sip', unquote(case['num']), want), '%r was converted to scheme %r, user %r with parameters %r' % (text, u.scheme, u.username, u.userparams), 'tel-conv')
    host, port = ('', 5060) if case['relaxed'] else (SipConf.my_address, SipConf.my_port)
    V(str(u.host) == str(host) and int(u.getPort()) == int(port), '%r was placed at %s:%s' % (text, u.host, u.getPort()), 'tel-host')
    if not case['relaxed']:
        out = u.localStr((('192.0.2.9', 5070), 'udp'))
        r = norm_uri(read_uri(out))
        V(r['host'] == '192.0.2.9' and r['port'] == 5070 and r['user'] == unquote(case['num']), '%r is written as %r' % (text, out), 'tel-write')
        b = SipURL(out)
        V((b.username, list(b.userparams), b.host, b.port) == (unquote(case['num']), want, '192.0.2.9', 5070), '%r written as %r is re-read differently' % (text, out), 'tel-write')
        check_copies(u, mutate_url, 'URI %r' % text, 'tel')

def check_copies(o, mutate, what, key):
    s = str(o)
    c = o.getCopy()
    V(str(c) == s, 'copy of %s is %r, the original %r' % (what, str(c), s), key + '-copy')
    c2 = o.getCopy()
    mutate(c, 1)
    V(str(o) == s, 'changing a copy of %s changed the original from %r to %r' % (what, s, str(o)), key + '-copy-shared')
    mutate(o, 2)
    V(str(c2) == s, 'changing %s changed its copy from %r to %r' % (what, s, str(c2)), key + '-copy-shared')

# ---- address headers -----------------------------------------------------
ADDR_HF = ['From', 'f', 'To', 't', 'Contact', 'm', 'Route', 'Record-Route', 'P-Asserted-Identity', 'Path', 'Refer-To', 'r', 'Referred-By', 'b',
  'Diversion', 'CC-Diversion', 'Also']
CANON = {'f': 'from', 't': 'to', 'm': 'contact', 'r': 'refer-to', 'b': 'referred-by', 'k': 'supported', 'i': 'call-id', 'v': 'via', 'c': 'content-type', 'l': 'content-length'}

@st.composite
def addr_case(draw):
    hf = draw(st.sampled_from(ADDR_HF))
    n = CANON.get(hf, hf).lower()
    many = n in ('contact', 'route', 'record-route', 'path', 'diversion', 'p-asserted-identity')
    known = {'from': ('tag',), 'to': ('tag',), 'contact': ('expires', 'q')}.get(n, ())
    a = draw(st.lists(g.addr(known), min_size = 1, max_size = 3 if many else 1))
    return {'hf': hf, 'addrs': a, 'sep': draw(st.sampled_from([',', ', ', ' , '])), 'spell': draw(st.integers(0, 2))}

def make_headers(text):
    """What SipMsg does with one header line."""
    from sippy.SipHeader import SipHeader
    from sippy.ESipHeaderCSV import ESipHeaderCSV
    try:
        return [SipHeader(text, fixname = True)]
    except ESipHeaderCSV as e:
        return [SipHeader(name = e.name, bodys = b, fixname = True) for b in e.bodys]

def spell(n, k):
    return n if k == 0 else n.lower() if k == 1 else n.upper()

def mutate_addr(hb, i):
    a = hb.getUri()
    mutate_url(a.url, i)
    a.name = 'mutated name %d' % i
    for k in list(a.params):
        a.setParam(k, 'changed%d' % i)
    a.setParam('mut', str(i))

def addr_components(a):
    name = a.name
    name = '' if name is None else re.sub(r'\\(.)', r'\1', name, flags = re.S)
    return {'name': name, 'uri': url_components(a.url), 'params': {k: (None if v is None else unq(v)) for k, v in a.params.items()}}

def run_addr(case, rec):
    texts = [g.render_addr(a) for a in case['addrs']]
    line = spell(case['hf'], case['spell']) + ': ' + case['sep'].join(texts)
    canon = CANON.get(case['hf'], case['hf']).lower()
    hs = make_headers(line)
    want = [norm_addr(a) for a in case['addrs']]
    for t, w in zip(texts, want):
        assert read_addr(t) == w, (t, read_addr(t), w)
    V(len(hs) == len(want), 'header %r has %d values but is read as %d: %r' % (line, len(want), len(hs), [str(h) for h in hs]), 'addr-split')
    rec.nt(len(want) > 1 or any(a['name'] is not None and a['name']['q'] or len(a['params']) > 0 for a in case['addrs']))
    rec.cls('hf:' + canon, 'n:%d' % len(want))
    for h, w, t in zip(hs, want, texts):
        check_hdr(h, canon, t, line)
        b = h.getBody()
        got = addr_components(b.address)
        V(got == w, 'header %r: value %r exposes %r, contains %r' % (line, t, got, w), 'addr-components')
        V(url_components(b.getUrl()) == w['uri'], 'getUrl() of %r' % t, 'addr-url')
        V(b.getUri().getParam('tag') == w['params'].get('tag'), 'tag of %r is %r' % (t, b.getUri().getParam('tag')), 'addr-tag')
        out = str(h)
        n, _, v = out.partition(':')
        V(n.strip().lower() == canon, 'header %r is written as %r' % (line, out), 'hdr-name')
        try:
            back = read_addr(v)
        except Exception as e:
            raise Violation('header value %r is written back unreadably as %r (%s)' % (t, v, e), 'addr-write')
        V(back == w, 'header value %r is written back as %r: %r instead of %r' % (t, v, back, w), 'addr-write')
        h2 = make_headers(out)
        V(len(h2) == 1, 'header %r written as %r re-reads as %d values' % (t, out, len(h2)), 'addr-stable')
        h2[0].getBody()
        V(str(h2[0]) == out, 'header %r written as %r re-reads as %r' % (t, out, str(h2[0])), 'addr-stable')
        check_copies(b, mutate_addr, 'header %r' % t, 'addr')

def check_hdr(h, canon, text, line):
    """Name, unparsed text and unparsed copies."""
    V(h.name == canon, 'header line %r is known as %r' % (line, h.name), 'hdr-name')
    V(not h.body.parsed or True, '')
    s = str(h).partition(':')[2].strip()
    V(s == text.strip(), 'unparsed header %r is written as %r' % (text, s), 'hdr-raw')
    c = h.getCopy()
    V(c.name == h.name and str(c) == str(h), 'copy of unparsed header %r is %r' % (str(h), str(c)), 'hdr-raw-copy')
    bc = h.getBCopy()
    V(str(bc).strip() == s, 'body copy of unparsed header %r is %r' % (str(h), str(bc)), 'hdr-raw-copy')
    a = c.getBody()
    V(a is not h.body, 'copy of header %r shares its body' % str(h), 'hdr-raw-copy')

# ---- other structured headers ---------------------------------------------
METHODS = ['INVITE', 'ACK', 'BYE', 'CANCEL', 'OPTIONS', 'REGISTER', 'INFO', 'PRACK', 'UPDATE', 'x-odd.Method']
num32 = st.one_of(st.sampled_from([0, 1, 60, 2 ** 31 - 1, 2 ** 32 - 1]), st.integers(0, 2 ** 32 - 1))

@st.composite
def via_c(draw):
    return {'sipver': 'SIP/2.0', 'transport': draw(st.sampled_from(['UDP', 'TCP', 'TLS', 'WSS', 'SCTP'])), 'host': draw(g.host), 'port': draw(g.port),
      'params': draw(g.hparams(('branch', 'rport', 'received', 'ttl', 'maddr'), 4)), 'sep': draw(st.sampled_from(g.SEPS)), 'sp': draw(st.sampled_from(['', '', ' ']))}

@st.composite
def digest_c(draw, www):
    d = {'realm': draw(g.qtext), 'nonce': draw(st.text(g.ALNUM + '+/=', min_size = 1, max_size = 10))}
    if www:
        d['qop'] = draw(st.sampled_from([None, None, ['auth'], ['auth-int'], ['auth', 'auth-int']]))
        d['algorithm'] = draw(st.sampled_from([None, 'MD5', 'MD5-sess', 'SHA-256', 'SHA-512-256', 'AKAv1-MD5']))
        d['opaque'] = draw(st.one_of(st.none(), g.qtext))
        d['other'] = draw(st.dictionaries(st.sampled_from(['stale', 'domain', 'charset']), st.sampled_from(['true', 'false', 'sip:a,b@c', 'UTF-8', 'sip:x sip:y']), max_size = 2))
    else:
        d['username'] = draw(g.qtext)
        d['uri'] = g.render_uri(draw(g.uri(headers = False)))
        d['response'] = draw(st.text('0123456789abcdef', min_size = 32, max_size = 32))
        d['algorithm'] = draw(st.sampled_from([None, 'MD5', 'MD5-sess', 'SHA-256', 'SHA-512-256-sess']))
        if draw(st.booleans()):
            d['qop'], d['cnonce'], d['nc'] = draw(st.sampled_from(['auth', 'auth-int'])), draw(g.tok), '%08x' % draw(st.integers(1, 99))
        d['other'] = draw(st.dictionaries(st.sampled_from(['opaque', 'auts', 'x-p']), g.qtext, max_size = 2))
    d['ord'] = draw(st.integers(0, 1000))
    d['csep'] = draw(st.sampled_from([',', ', ', ' , ', ',  ']))
    d['qq'] = draw(st.booleans())
    d['case'] = draw(st.sampled_from([0, 0, 1]))
    return d

UNQUOTED = ('algorithm', 'nc', 'stale')
def digest_items(d):
    it = []
    for k in ('username', 'realm', 'nonce', 'uri', 'response', 'algorithm', 'qop', 'cnonce', 'nc', 'opaque'):
        if d.get(k) is not None:
            v = d[k]
            it.append((k, ','.join(v) if isinstance(v, list) else v, isinstance(v, list)))
    it += [(k, v, False) for k, v in d['other'].items()]
    return it

def render_digest(d):
    it = digest_items(d)
    import random as R
    R.Random(d['ord']).shuffle(it)
    out = []
    for k, v, islist in it:
        q = True
        if k in UNQUOTED and re.match('^[A-Za-z0-9-]*$', v): q = d['qq'] and k == 'algorithm'
        if k == 'qop' and not islist: q = d['qq']
        out.append('%s=%s' % (k.upper() if d['case'] and k not in d['other'] else k, g.qstr(v) if q else v))
    return 'Digest ' + d['csep'].join(out)

def read_digest(s):
    sch, _, r = s.strip().partition(' ')
    assert sch.lower() == 'digest', s
    out = {}
    for x in g.split_top(r, ','):
        k, e, v = x.strip().partition('=')
        if not e: raise ValueError('no value in %r' % x)
        k = k.strip().lower()
        if k in out: raise ValueError('repeated %r' % k)
        out[k] = unq(v)
    if 'qop' in out: out['qop'] = ','.join(x.strip() for x in out['qop'].split(','))
    return out

@st.composite
def other_case(draw):
    k = draw(st.sampled_from(['via', 'via', 'cseq', 'rack', 'num', 'reason', 'replaces', 'warning', 'ctype', 'auth', 'auth', 'www', 'www', 'allow', 'supported', 'guid', 'server', 'callid', 'generic', 'star']))
    c = {'k': k}
    if k == 'via': c['v'] = draw(st.lists(via_c(), min_size = 1, max_size = 3)); c['hf'] = draw(st.sampled_from(['Via', 'v']))
    elif k == 'cseq': c['v'] = [draw(num32), draw(st.sampled_from(METHODS))]; c['sp'] = draw(st.sampled_from([' ', '  ', '\t']))
    elif k == 'rack': c['v'] = [draw(num32), draw(num32), draw(st.sampled_from(METHODS))]; c['sp'] = draw(st.sampled_from([' ', '  ']))
    elif k == 'num': c['v'] = draw(num32); c['hf'] = draw(st.sampled_from(['Expires', 'Max-Forwards', 'Content-Length', 'RSeq', 'l'])); c['pad'] = draw(st.sampled_from(['', '', '0']))
    elif k == 'reason':
        c['v'] = draw(st.lists(st.fixed_dictionaries({'proto': st.sampled_from(['SIP', 'Q.850', 'X-foo']), 'cause': st.one_of(st.none(), st.integers(0, 699)),
          'text': st.one_of(st.none(), g.qtext), 'ext': st.dictionaries(g.pname, g.tok, max_size = 1), 'first': st.booleans(), 'sep': st.sampled_from(g.SEPS)}), min_size = 1, max_size = 2))
    elif k == 'replaces': c['v'] = {'cid': draw(st.text(g.ALNUM + "-.!%*_+`'~()<>:\\\"/[]?{}@", min_size = 1, max_size = 12)), 'ft': draw(g.tok), 'tt': draw(g.tok), 'eo': draw(st.booleans()),
      'params': draw(st.dictionaries(g.pname, st.one_of(st.none(), g.tok), max_size = 2)), 'ord': draw(st.integers(0, 5)), 'sep': draw(st.sampled_from(g.SEPS))}
    elif k == 'warning': c['v'] = draw(st.lists(st.tuples(st.integers(100, 999), g.hostname, g.qtext).map(list), min_size = 1, max_size = 2))
    elif k == 'ctype': c['v'] = {'t': draw(st.sampled_from(['application/sdp', 'multipart/mixed', 'text/plain', 'Application/SDP', 'message/sipfrag'])), 'p': draw(g.hparams(('boundary',), 2)), 'sep': draw(st.sampled_from(g.SEPS))}; c['hf'] = draw(st.sampled_from(['Content-Type', 'c']))
    elif k == 'auth': c['v'] = draw(digest_c(False)); c['hf'] = draw(st.sampled_from(['Authorization', 'Proxy-Authorization']))
    elif k == 'www': c['v'] = draw(digest_c(True)); c['hf'] = draw(st.sampled_from(['WWW-Authenticate', 'Proxy-Authenticate']))
    elif k == 'allow': c['v'] = draw(st.lists(st.sampled_from(METHODS), min_size = 1, max_size = 6)); c['sep'] = draw(st.sampled_from([',', ', ', ' , ']))
    elif k == 'supported': c['v'] = draw(st.lists(g.tok, min_size = 1, max_size = 5)); c['hf'] = draw(st.sampled_from(['Supported', 'k'])); c['sep'] = draw(st.sampled_from([',', ', ', ' , ']))
    elif k == 'guid': c['v'] = [draw(num32) for _ in range(4)]; c['hf'] = draw(st.sampled_from(['cisco-GUID', 'h323-conf-id']))
    elif k == 'server': c['v'] = draw(st.text(g.ALNUM + ' ,;/().', min_size = 1, max_size = 12)).strip() or 'x'; c['hf'] = draw(st.sampled_from(['Server', 'User-Agent']))
    elif k == 'callid': c['v'] = draw(st.text(g.ALNUM + "-.!%*_+`'~()<>:\\\"/[]?{}@,;", min_size = 1, max_size = 12)); c['hf'] = draw(st.sampled_from(['Call-ID', 'i']))
    elif k == 'generic': c['v'] = draw(st.text(g.ALNUM + ' ,;:="<>/().\u00e9', max_size = 12)).strip(); c['hf'] = draw(st.sampled_from(['X-Foo', 'Subject', 's', 'Event', 'P-Charging-Vector', 'Date', 'Require']))
    c['spell'] = draw(st.integers(0, 2))
    return c

def run_other(case, rec):
    k, v = case['k'], case.get('v')
    rec.cls(k)
    hf = case.get('hf')
    sp = lambda n: spell(n, case['spell'])
    def go(line, texts, canon, want, comp, read, mutate, csv = True):
        hs = make_headers(line)
        V(len(hs) == len(want), 'header %r has %d values but is read as %d: %r' % (line, len(want), len(hs), [str(h) for h in hs]), k + '-split')
        for h, t, w in zip(hs, texts, want):
            check_hdr(h, canon, t, line)
            b = h.getBody()
            got = comp(b)
            V(got == w, 'header %r exposes %r, contains %r' % (line, got, w), k + '-components')
            out = str(h)
            n, _, ov = out.partition(':')
            V(n.strip().lower() == canon, 'header %r is written as %r' % (line, out), 'hdr-name')
            try:
                back = read(ov.strip())
            except Exception as e:
                raise Violation('header %r is written back unreadably as %r (%s)' % (line, out, e), k + '-write')
            V(back == w, 'header %r is written back as %r: %r instead of %r' % (line, out, back, w), k + '-write')
            h2 = make_headers(out)
            V(len(h2) == 1, 'header %r written as %r re-reads as %d values' % (line, out, len(h2)), k + '-stable')
            h2[0].getBody()
            V(str(h2[0]) == out, 'header %r written as %r re-reads as %r' % (line, out, str(h2[0])), k + '-stable')
            if mutate is not None:
                check_copies(b, mutate, 'header %r' % line, k)
    if k == 'via':
        ts = []
        for x in v:
            ts.append('%s/%s %s%s' % (x['sipver'], x['transport'], x['host'], '' if x['port'] is None else ':%d' % x['port']) + g.render_params(x['params'], x['sep']))
        want = [{'sipver': x['sipver'], 'transport': x['transport'], 'host': x['host'], 'port': x['port'], 'params': norm_params(x['params'])} for x in v]
        rec.nt(len(v) > 1 or any(len(x['params']) > 1 for x in v))
        def comp(b):
            V(b.getBranch() == b.params.get('branch'), 'getBranch()', 'via-branch')
            return {'sipver': b.sipver, 'transport': b.transport, 'host': b.hostname, 'port': b.port, 'params': {p: (None if q is None else unq(q)) for p, q in b.params.items()}}
        def read(s):
            p, r = s.split(None, 1)
            sv, _, tr = p.rpartition('/')
            hp, sep, rest = r.partition(';')
            m = re.match(r'^(\[[^\]]*\]|[^:]*)(?::(\d+))?$', hp.strip())
            return {'sipver': sv, 'transport': tr, 'host': m.group(1), 'port': int(m.group(2)) if m.group(2) else None, 'params': read_params(sep + rest)}
        def mut(b, i):
            b.setParam('mut', str(i)); b.genBranch(); b.hostname = 'x'; b.port = 1; b.transport = 'SCTP'
            b.params.pop('rport', None)
        for t, w in zip(ts, want): assert read(t) == w, (t, read(t), w)
        go('%s: %s' % (sp(hf), ', '.join(ts)), ts, 'via', want, comp, read, mut)
    elif k in ('cseq', 'rack'):
        t = case['sp'].join(str(x) for x in v)
        rec.nt()
        def mut(b, i):
            b.cseq += i; b.method = 'MUT'; b.rseq = 7
        if k == 'cseq':
            go('%s: %s' % (sp('CSeq'), t), [t], 'cseq', [tuple(v)], lambda b: b.getCSeq() if (b.getCSeqNum(), b.getCSeqMethod()) == b.getCSeq() else None, lambda s: (int(s.split()[0]), s.split()[1]), mut)
        else:
            go('%s: %s' % (sp('RAck'), t), [t], 'rack', [tuple(v)], lambda b: b.getRSeq(), lambda s: (int(s.split()[0]), int(s.split()[1]), s.split()[2]), mut)
    elif k == 'num':
        t = case['pad'] + str(v)
        def mut(b, i): b.incNum(i)
        rec.nt(v > 0)
        go('%s: %s' % (sp(hf), t), [t], CANON.get(hf, hf).lower(), [v], lambda b: b.getNum(), int, mut)
    elif k == 'reason':
        ts = []
        for x in v:
            pp = [] if x['cause'] is None else ['cause=%d' % x['cause']]
            if x['text'] is not None:
                pp.insert(0 if x['first'] else len(pp), 'text=' + g.qstr(x['text']))
            pp += ['%s=%s' % i for i in x['ext'].items()]
            ts.append(x['sep'].join([x['proto']] + pp))
        want = [{'proto': x['proto'], 'cause': x['cause'], 'text': x['text'], 'ext': x['ext']} for x in v]
        rec.nt(any(x['text'] or x['ext'] for x in v) or len(v) > 1)
        def comp(b):
            txt = None if b.reason is None else re.sub(r'\\(.)', r'\1', b.reason, flags = re.S)
            o = dict((p, q) for p, q in (getattr(b, 'otherparams', None) or [])) if not isinstance(getattr(b, 'otherparams', None), dict) else b.otherparams
            return {'proto': b.protocol, 'cause': b.cause, 'text': txt, 'ext': o}
        def read(s):
            pr, sep, rest = s.partition(';')
            p = read_params(sep + rest)
            c = p.pop('cause', None)
            return {'proto': pr.strip(), 'cause': None if c is None else int(c), 'text': p.pop('text', None), 'ext': p}
        def comp2(b):
            # the extension parameters have no accessor: judged on the written form only
            c = comp(b)
            c['ext'] = read(str(b))['ext']
            return c
        def mut(b, i): b.cause, b.reason, b.protocol = 500 + i, 'mut', 'MUT'
        go('%s: %s' % (sp('Reason'), ', '.join(ts)), ts, 'reason', want, comp2, read, mut)
    elif k == 'replaces':
        x = v
        items = ['from-tag=' + x['ft'], 'to-tag=' + x['tt']] + (['early-only'] if x['eo'] else []) + [p if q is None else p + '=' + q for p, q in x['params'].items()]
        r = x['ord'] % len(items)
        items = items[r:] + items[:r]
        t = x['sep'].join([x['cid']] + items)
        want = {'cid': x['cid'], 'ft': x['ft'], 'tt': x['tt'], 'eo': x['eo'], 'params': x['params']}
        rec.nt(x['eo'] or len(x['params']) > 0)
        def rd(l):
            o = {}
            for i in l:
                p, e, q = i.strip().partition('=')
                o[p.strip()] = q.strip() if e else None
            return o
        def comp(b):
            return {'cid': b.call_id, 'ft': b.from_tag, 'tt': b.to_tag, 'eo': b.early_only, 'params': rd(b.params)}
        def read(s):
            f = s.split(';')
            p = rd(f[1:])
            eo = 'early-only' in p
            p.pop('early-only', None)
            return {'cid': f[0].strip(), 'ft': p.pop('from-tag'), 'tt': p.pop('to-tag'), 'eo': eo, 'params': p}
        def mut(b, i): b.params.append('mut'); b.call_id, b.from_tag, b.to_tag, b.early_only = 'm', 'm', 'm', not b.early_only
        go('%s: %s' % (sp('Replaces'), t), [t], 'replaces', [want], comp, read, mut)
    elif k == 'warning':
        ts = ['%d %s %s' % (x[0], x[1], g.qstr(x[2])) for x in v]
        rec.nt(any(x[2] for x in v))
        def comp(b): return [b.code, b.agent, re.sub(r'\\(.)', r'\1', b.text, flags = re.S)]
        def read(s):
            a, b, c = s.split(None, 2)
            assert c[0] == '"' and c[-1] == '"', s
            return [int(a), b, unq(c)]
        def mut(b, i): b.code, b.agent, b.text = i, 'm', 'm'
        go('%s: %s' % (sp('Warning'), ', '.join(ts)), ts, 'warning', [list(x) for x in v], comp, read, mut)
    elif k == 'ctype':
        t = v['t'] + g.render_params(v['p'], v['sep'])
        rec.nt(len(v['p']) > 0)
        def comp(b): return {'t': b.name, 'p': {p: (None if q is None else unq(q)) for p, q in b.params.items()}}
        def read(s):
            a, sep, r = s.partition(';')
            return {'t': a.strip(), 'p': read_params(sep + r)}
        def mut(b, i): b.name = 'm'; b.params['mut'] = str(i)
        go('%s: %s' % (sp(hf), t), [t], 'content-type', [{'t': v['t'], 'p': norm_params(v['p'])}], comp, read, mut)
    elif k in ('auth', 'www'):
        t = render_digest(v)
        want = {p: q for p, q, _ in digest_items(v)}
        rec.nt(len(v['other']) > 0 or ',' in ''.join(want.values()))
        assert read_digest(t) == want, (t, read_digest(t), want)
        esc = lambda s: None if s is None else re.sub(r'\\(.)', r'\1', s, flags = re.S)
        def comp(b):
            o = {}
            for n in ('username', 'realm', 'nonce', 'uri', 'response', 'algorithm', 'cnonce', 'nc', 'opaque'):
                if getattr(b, n, None) is not None: o[n] = esc(getattr(b, n))
            q = b.qop
            if q is not None: o['qop'] = q if isinstance(q, str) else ','.join(q)
            for n, x in b.otherparams:
                o[n.lower()] = unq(x) if k == 'auth' else esc(x)
            return o
        def mut(b, i):
            b.realm = b.nonce = b.algorithm = 'm'
            b.otherparams.append(('mut', str(i)))
            if k == 'auth': b.username = b.uri = b.response = b.cnonce = b.nc = b.qop = 'm'
            elif b.qop is not None:
                if isinstance(b.qop, list): b.qop.append('mut')
                b.opaque = 'm'
        go('%s: %s' % (sp(hf), t), [t], hf.lower(), [want], comp, read_digest, mut)
    elif k in ('allow', 'supported'):
        t = case['sep'].join(v)
        rec.nt(len(v) > 1)
        n = 'Allow' if k == 'allow' else hf
        def comp(b): return list(b.methods if k == 'allow' else b.caps)
        def mut(b, i):
            l = b.methods if k == 'allow' else b.caps
            l.append('mut'); l[0] = 'changed'
        go('%s: %s' % (sp(n), t), [t], k, [v], comp, lambda s: [x.strip() for x in s.split(',')], mut)
    elif k == 'guid':
        t = '-'.join(map(str, v))
        rec.nt()
        def mut(b, i): b.ciscoGUID = (1, 2, 3, 4)
        from sippy.SipHeader import SipHeader
        go('%s: %s' % (sp(hf), t), [t], 'cisco-guid', [v], lambda b: list(b.getCiscoGUID()), lambda s: [int(x) for x in s.split('-')], mut)
        h = SipHeader('%s: %s' % (hf, t))
        V(h.getBody().hexForm() == ' '.join('%08X' % x for x in v), 'hexForm() of %r is %r' % (t, h.getBody().hexForm()), 'guid-hex')
    elif k in ('server', 'callid', 'generic'):
        rec.nt()
        n = {'i': 'call-id'}.get(hf, hf).lower()
        go('%s: %s' % (sp(hf), v), [v], n, [v], lambda b: str(b), lambda s: s, None)
    elif k == 'star':
        go('%s: *' % sp('Contact'), ['*'], 'contact', ['*'], lambda b: str(b) if b.asterisk else None, lambda s: s, None)
        h = make_headers('Contact: *')[0]
        c = h.getCopy()
        V(c.body.asterisk and str(c.getBody()) == '*', 'copy of "Contact: *" is %r' % str(c), 'star-copy')

CHECK = Check('C02', 'exploration', [
    Part('url', lambda: g.uri(), run_url, quick = 3000, thorough = 40000, shards = 2, rule = 'URI with at least two parameters, URI headers, user parameters or an escape'),
    Part('tel', lambda: tel_case(), run_tel, quick = 600, thorough = 8000, shards = 2, rule = 'number with parameters'),
    Part('addr', lambda: addr_case(), run_addr, quick = 1500, thorough = 25000, shards = 3, rule = 'list of several addresses, or a quoted display name or header parameter'),
    Part('other', lambda: other_case(), run_other, quick = 3000, thorough = 40000, shards = 3, rule = 'value with optional components (several parameters, extensions, quoted text or a list)'),
  ], ['escape normalisation, re-ordering of URI parameters and the value of ;lr are not counted as changes',
      'parameter names of the values are spelt in lower case, escapes are valid UTF-8'])
