"""Generators of SIP syntax elements as plain component dicts, with renderers and independent readers.
Nothing here uses the code under test."""
import re
from urllib.parse import quote, unquote
from hypothesis import strategies as st
import wire

ALNUM = 'abcxyzABZ0189'
TOKC = ALNUM + "-.!%*_+`'~"
tok = st.text(TOKC, min_size = 1, max_size = 8)
word = st.text(ALNUM, min_size = 1, max_size = 6)
pname = st.text('abcdwxyz-0', min_size = 1, max_size = 6).map(lambda s: 'p' + s)
label = st.text('abcxyz0189', min_size = 1, max_size = 5)
hostname = st.lists(label, min_size = 1, max_size = 3).map(lambda l: '.'.join(l + ['example']))
ipv4 = st.lists(st.integers(0, 255), min_size = 4, max_size = 4).map(lambda l: '.'.join(map(str, l)))
ipv6 = st.one_of(st.sampled_from(['[::1]', '[2001:db8::10]', '[fe80::1:2:3:4]', '[::ffff:192.0.2.1]', '[2001:DB8:0:0:8:800:200C:417A]']),
  st.lists(st.integers(0, 65535), min_size = 8, max_size = 8).map(lambda l: '[' + ':'.join('%x' % x for x in l) + ']'))
host = st.one_of(hostname, ipv4, ipv6)
port = st.one_of(st.none(), st.none(), st.sampled_from([5060, 5061, 1, 65535]), st.integers(1, 65535))
# decoded user / header value text; reserved characters get escaped by the renderer
utext = st.text(ALNUM + "-_.!~*'()" + '&=+$,?/' + '@:% "<>\\[]{}|^#\u00e9\u4e2d', min_size = 1, max_size = 8)
htext = st.text(ALNUM + "-_.!~*'()" + '[]/?:+$' + ' &=%;@,"<>\u00e9', min_size = 0, max_size = 8)
pvalue = st.text(ALNUM + "-_.!~*'()[]/:&+$", min_size = 1, max_size = 8)

@st.composite
def uri(draw, schemes = ('sip', 'sip', 'sip', 'sips'), params = True, headers = True, lr = None):
    u = {'scheme': draw(st.sampled_from(schemes)), 'user': draw(st.one_of(st.none(), utext, word)), 'userparams': [], 'password': None,
      'host': draw(host), 'port': draw(port), 'params': {}, 'headers': {}, 'esc': draw(st.integers(0, 2))}
    if u['user'] is not None and draw(st.integers(0, 5)) == 0:
        u['userparams'] = draw(st.lists(st.one_of(pname, st.tuples(pname, word).map('='.join)), min_size = 1, max_size = 2))
    if u['user'] is not None and draw(st.integers(0, 7)) == 0:
        u['password'] = draw(st.text(ALNUM + '-_.!&=+$,', max_size = 6))
    if params:
        p = {}
        for k in draw(st.lists(st.sampled_from(['user', 'transport', 'ttl', 'maddr', 'method', 'lr', 'x', 'y', 'z']), max_size = 4, unique = True)):
            if k == 'user': p[k] = draw(st.sampled_from(['phone', 'ip']))
            elif k == 'transport': p[k] = draw(st.sampled_from(['udp', 'tcp', 'tls', 'ws', 'UDP']))
            elif k == 'ttl': p[k] = str(draw(st.integers(0, 255)))
            elif k == 'maddr': p[k] = draw(host)
            elif k == 'method': p[k] = draw(st.sampled_from(['INVITE', 'BYE']))
            elif k == 'lr': p[k] = draw(st.sampled_from([None, None, None, 'on']))
            else: p[draw(pname)] = draw(st.one_of(st.none(), pvalue))
        if lr is not None:
            p.pop('lr', None)
            if lr: p['lr'] = None
        u['params'] = p
    if headers and draw(st.integers(0, 4)) == 0:
        u['headers'] = draw(st.dictionaries(word, htext, min_size = 1, max_size = 2))
    return u

def render_uri(u):
    # esc: 0 = escape only what must be, 1 = escape every non-alphanumeric, 2 = as 0 with lower-case hex digits
    safe_u = '' if u['esc'] == 1 else "-_.!~*'()&=+$,?/"
    safe_h = '' if u['esc'] == 1 else "-_.!~*'()[]/?:+$"
    low = (lambda s: re.sub('%[0-9A-F]{2}', lambda m: m.group(0).lower(), s)) if u['esc'] == 2 else (lambda s: s)
    s = u['scheme'] + ':'
    if u['user'] is not None:
        s += low(quote(u['user'], safe_u))
        s += ''.join(';' + x for x in u['userparams'])
        if u['password'] is not None:
            s += ':' + u['password']
        s += '@'
    s += u['host']
    if u['port'] is not None:
        s += ':%d' % u['port']
    for k, v in u['params'].items():
        s += ';' + k + ('=' + v if v is not None else '')
    if u['headers']:
        s += '?' + '&'.join('%s=%s' % (k, low(quote(v, safe_h))) for k, v in u['headers'].items())
    return s

def read_uri(s):
    """Independent URI reader -> component dict (without 'esc')."""
    sch, _, r = s.partition(':')
    u = {'scheme': sch.lower(), 'user': None, 'userparams': [], 'password': None, 'host': None, 'port': None, 'params': {}, 'headers': {}}
    # user part: the first '@' ends it ('@' must be escaped everywhere)
    if '@' in r:
        up, _, r = r.partition('@')
        if ':' in up:
            up, _, u['password'] = up.partition(':')
        f = up.split(';')
        u['user'], u['userparams'] = unquote(f[0]), f[1:]
    m = re.match(r'^(\[[^\]]*\]|[^:;?]*)(?::(\d+))?((?:;[^;?]*)*)(?:\?(.*))?$', r, re.S)
    if m is None:
        raise ValueError('unreadable URI %r' % s)
    u['host'] = m.group(1)
    u['port'] = int(m.group(2)) if m.group(2) else None
    for p in m.group(3).split(';')[1:]:
        k, e, v = p.partition('=')
        u['params'][k] = v if e else None
    if m.group(4) is not None:
        for h in m.group(4).split('&'):
            k, _, v = h.partition('=')
            u['headers'][k] = unquote(v)
    return u

def norm_uri(u):
    r = {k: v for k, v in u.items() if k != 'esc'}
    r['params'] = dict(sorted((k, None if k == 'lr' else v) for k, v in u['params'].items()))
    r['headers'] = dict(sorted(u['headers'].items()))
    r['scheme'] = r['scheme'].lower()
    return r

# display names -----------------------------------------------------------
qtext = st.text(ALNUM + ' ,;:<>@=?\'.%\\"\t\u00e9\u4e2d', max_size = 10)
@st.composite
def display(draw):
    k = draw(st.integers(0, 4))
    if k == 0: return None
    if k == 1: return {'q': False, 't': ' '.join(draw(st.lists(tok, min_size = 1, max_size = 3)))}
    return {'q': True, 't': draw(qtext)}

def qstr(t):
    return '"' + t.replace('\\', '\\\\').replace('"', '\\"') + '"'

def render_display(d):
    if d is None: return ''
    return qstr(d['t']) if d['q'] else d['t']

def unq(v):
    v = v.strip()
    if len(v) >= 2 and v[0] == '"' and v[-1] == '"':
        return re.sub(r'\\(.)', r'\1', v[1:-1], flags = re.S)
    return v

# header parameters -------------------------------------------------------
@st.composite
def hparams(draw, known = (), maxn = 3, quoted = True):
    out = {}
    for k in draw(st.lists(st.sampled_from(list(known) + ['*', '*', '*']), max_size = maxn)):
        if k == '*':
            k = draw(pname)
        if k in out:
            continue
        if k in ('tag', 'branch'): v = {'q': False, 't': draw(tok)}
        elif k == 'expires': v = {'q': False, 't': str(draw(st.integers(0, 2 ** 31)))}
        elif k == 'q': v = {'q': False, 't': draw(st.sampled_from(['0', '0.5', '1', '1.0', '0.333']))}
        elif k == 'rport': v = draw(st.one_of(st.none(), st.integers(1, 65535).map(lambda n: {'q': False, 't': str(n)})))
        elif k == 'received': v = {'q': False, 't': draw(ipv4)}
        elif k == 'ttl': v = {'q': False, 't': str(draw(st.integers(0, 255)))}
        elif k == 'maddr': v = {'q': False, 't': draw(hostname)}
        else:
            j = draw(st.integers(0, 5))
            if j == 0: v = None
            elif j == 1 and quoted: v = {'q': True, 't': draw(qtext)}
            elif j == 2: v = {'q': False, 't': draw(host)}
            else: v = {'q': False, 't': draw(tok)}
        out[k] = v
    return out

SEPS = [';', ';', ';', ';', ' ;', '; ', ' ; ']
def render_params(p, sep = ';', eq = '='):
    return ''.join(sep + k + ('' if v is None else eq + (qstr(v['t']) if v['q'] else v['t'])) for k, v in p.items())

def norm_params(p):
    return {k: (None if v is None else v['t']) for k, v in p.items()}

def read_params(rest):
    out = {}
    for x in split_top(rest, ';'):
        x = x.strip()
        if not x: continue
        k, e, v = x.partition('=')
        out[k.strip()] = unq(v) if e else None
    return out

def split_top(s, sep, angles = False):
    out, cur, q, i, ang = [], '', False, 0, 0
    while i < len(s):
        c = s[i]
        if q:
            cur += c
            if c == '\\' and i + 1 < len(s):
                i += 1
                cur += s[i]
            elif c == '"': q = False
        elif c == '"': q = True; cur += c
        elif angles and c == '<': ang += 1; cur += c
        elif angles and c == '>': ang -= 1; cur += c
        elif c == sep and ang <= 0: out.append(cur); cur = ''
        else: cur += c
        i += 1
    out.append(cur)
    return out

# addresses ---------------------------------------------------------------
@st.composite
def addr(draw, known = ('tag',), lr = None, quoted = True, always = ()):
    d = draw(display())
    brace = d is not None or draw(st.integers(0, 2)) != 0
    u = draw(uri(params = brace, headers = brace, lr = lr if brace else None))
    if not brace:
        u['userparams'] = [x for x in u['userparams']]
        if u['user'] is not None:
            # outside angle brackets ',', ';' and '?' may not appear in the URI
            u['user'] = re.sub('[,?]', 'x', u['user'])
            u['userparams'] = []
            if u['password'] is not None: u['password'] = u['password'].replace(',', 'x')
    p = draw(hparams(known, quoted = quoted))
    return {'name': d, 'brace': brace, 'uri': u, 'params': p, 'sep': draw(st.sampled_from(SEPS)), 'sp': draw(st.sampled_from(['', ' ', '  ']))}

def render_addr(a):
    n = render_display(a['name'])
    s = ''
    if n:
        s = n + ((a['sp'] or '') if a['name']['q'] else (a['sp'] or ' '))
    u = render_uri(a['uri'])
    s += '<%s>' % u if a['brace'] else u
    return s + render_params(a['params'], a['sep'])

def read_addr(s):
    s = s.strip()
    name = ''
    if s.startswith('"'):
        i = 1
        while s[i] != '"':
            i += 2 if s[i] == '\\' else 1
        name = unq(s[:i + 1])
        s = s[i + 1:].strip()
        if not s.startswith('<'):
            raise ValueError('no URI after display name in %r' % s)
    if not re.match(r'^[a-z]+:', s, re.I) or '<' in s.split('"')[0] :
        nm, _, s = s.partition('<')
        name = name or nm.strip()
        u, _, rest = s.partition('>')
    else:
        u, sep, rest = s.partition(';')
        rest = sep + rest
        u = u.strip()
    return {'name': name, 'uri': norm_uri(read_uri(u)), 'params': read_params(rest)}

def norm_addr(a):
    return {'name': '' if a['name'] is None else a['name']['t'], 'uri': norm_uri(a['uri']), 'params': norm_params(a['params'])}
