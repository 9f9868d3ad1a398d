"""C01: SIP messages survive parse and re-serialisation."""
import re
from hypothesis import strategies as st
from core import Check, Part, Violation
import sipgen as g
import c02
from sipgen import read_addr, norm_addr, read_uri, norm_uri, split_top

def V(cond, msg, key = None):
    if not cond:
        raise Violation(msg, key)

ADDR = ('from', 'to', 'contact', 'route', 'record-route', 'p-asserted-identity', 'path', 'refer-to', 'referred-by', 'diversion', 'cc-diversion', 'also')
MULTI = ('via', 'contact', 'route', 'record-route', 'path', 'diversion', 'p-asserted-identity', 'reason', 'warning')
COMPACT = {'via': 'v', 'from': 'f', 'to': 't', 'contact': 'm', 'call-id': 'i', 'content-type': 'c', 'content-length': 'l', 'supported': 'k', 'refer-to': 'r',
  'referred-by': 'b', 'subject': 's', 'event': 'o'}
EXPAND = {v: k for k, v in COMPACT.items()}
KNOWN_COMPACT = ('via', 'from', 'to', 'contact', 'call-id', 'content-type', 'content-length', 'supported', 'refer-to', 'referred-by')
CANON = {'via': 'Via', 'cseq': 'CSeq', 'call-id': 'Call-ID', 'p-asserted-identity': 'P-Asserted-Identity'}

def read_via(s):
    p, r = s.strip().split(None, 1)
    sv, _, tr = p.rpartition('/')
    hp, sep, rest = r.partition(';')
    m = re.match(r'^(\[[^\]]*\]|[^:]*)(?::(\d+))?$', hp.strip())
    return {'sipver': sv, 'transport': tr, 'host': m.group(1), 'port': int(m.group(2)) if m.group(2) else None, 'params': g.read_params(sep + rest)}

def collapse(s):
    """White space outside of quoted strings is equivalent to one space."""
    out = []
    for i, part in enumerate(re.split(r'("(?:[^"\\]|\\.)*")', s, flags = re.S)):
        out.append(part if i % 2 else re.sub(r'\s+', ' ', part))
    return ''.join(out).strip()

def norm(name, v):
    if name == 'contact' and v.strip() == '*': return '*'
    if name in ADDR:
        a = read_addr(v)
        a['name'] = re.sub(r'\s+', ' ', a['name'])
        return a
    if name == 'via': return read_via(v)
    if name in ('authorization', 'proxy-authorization', 'www-authenticate', 'proxy-authenticate'): return c02.read_digest(v)
    if name in ('expires', 'max-forwards', 'rseq'): return int(v)
    if name == 'reason': return c02_ct(v)
    if name in ('allow', 'supported'): return [x.strip() for x in v.split(',')]
    return collapse(v)

free = st.text(g.ALNUM + ' ,;:="<>/()\u00e9\u2028\x85\u4e2d', max_size = 14).map(lambda s: s.strip())
@st.composite
def via_text(draw):
    x = draw(c02.via_c())
    return '%s/%s %s%s' % (x['sipver'], x['transport'], x['host'], '' if x['port'] is None else ':%d' % x['port']) + g.render_params(x['params'], x['sep'])

@st.composite
def hdr(draw):
    n = draw(st.sampled_from(['contact', 'contact', 'route', 'record-route', 'diversion', 'path', 'p-asserted-identity', 'refer-to', 'referred-by', 'expires', 'max-forwards',
      'allow', 'supported', 'user-agent', 'server', 'subject', 'event', 'x-foo', 'x-foo', 'authorization', 'www-authenticate', 'proxy-authorization', 'reason', 'warning', 'rseq', 'date', 'x-empty']))
    if n in ADDR:
        vals = [g.render_addr(a) for a in draw(st.lists(g.addr(()), min_size = 1, max_size = 3 if n in MULTI else 1))]
    elif n in ('expires', 'max-forwards', 'rseq'): vals = [str(draw(c02.num32))]
    elif n == 'allow': vals = [', '.join(draw(st.lists(st.sampled_from(c02.METHODS), min_size = 1, max_size = 4)))]
    elif n == 'supported': vals = [','.join(draw(st.lists(g.tok, min_size = 1, max_size = 3)))]
    elif n in ('authorization', 'proxy-authorization'): vals = [c02.render_digest(draw(c02.digest_c(False)))]
    elif n == 'www-authenticate': vals = [c02.render_digest(draw(c02.digest_c(True)))]
    elif n == 'reason': vals = draw(st.lists(st.sampled_from(['SIP;cause=200;text="Call completed, elsewhere"', 'Q.850 ; cause=16', 'SIP;text="a;b\\"c";x=y', 'SIP']), min_size = 1, max_size = 2))
    elif n == 'warning': vals = draw(st.lists(st.sampled_from(['301 isi.edu "Incompatible, \\"x\\""', '399 h "say ; no"']), min_size = 1, max_size = 2))
    elif n == 'x-empty': vals = ['']
    elif n in ('user-agent', 'server'): vals = [draw(free) or 'ua']
    else: vals = [draw(free)]
    return [n, vals]

@st.composite
def msg_case(draw):
    req = draw(st.booleans())
    c = {'req': req, 'sipver': 'SIP/2.0'}
    if req:
        c['method'] = draw(st.sampled_from(c02.METHODS))
        c['ruri'] = draw(g.uri())
    else:
        c['code'] = draw(st.one_of(st.sampled_from([100, 180, 183, 200, 302, 404, 486, 503, 603]), st.integers(101, 699)))
        c['reason'] = draw(st.one_of(st.sampled_from(['OK', 'Ringing', 'Call/Transaction Does Not Exist']), st.text(g.ALNUM + ' %().,\u00e9', max_size = 12).map(str.strip)))
    h = [['via', [draw(via_text())]]]
    mand = [['via', draw(st.lists(via_text(), min_size = 1, max_size = 2))] for _ in range(draw(st.integers(0, 2)))]
    mand += [['from', [g.render_addr(draw(g.addr(('tag',))))]], ['to', [g.render_addr(draw(g.addr(('tag',))))]],
      ['call-id', [draw(st.text(g.ALNUM + "-.!%*_+`'~()<>:\\\"/[]?{}@", min_size = 1, max_size = 12))]],
      ['cseq', ['%d %s' % (draw(c02.num32), c.get('method') or draw(st.sampled_from(c02.METHODS)))]]]
    opt = draw(st.lists(hdr(), max_size = 6))
    rest = draw(st.permutations(mand + opt))
    c['hdrs'] = h + [list(x) for x in rest]
    # how each line is spelt: [form 0 canonical /1 compact / 2 upper / 3 lower, colon style, fold, split?]
    c['form'] = [[draw(st.integers(0, 3)), draw(st.integers(0, 3)), draw(st.integers(0, 3)), draw(st.integers(0, 1))] for _ in c['hdrs']]
    c['body'] = draw(st.one_of(st.none(), st.sampled_from(['v=0\r\no=- 1 1 IN IP4 192.0.2.1\r\ns=-\r\nc=IN IP4 192.0.2.1\r\nt=0 0\r\nm=audio 4000 RTP/AVP 0\r\n',
      'x', '\r\n', '\r\n\r\n\r\n', 'l\u00e9gende \u4e2d\u6587 text']), st.text(g.ALNUM + '\r\n :=-\u00e9\u4e2d', min_size = 1, max_size = 30)))
    c['ctype'] = draw(st.sampled_from(['application/sdp', 'text/plain;charset=UTF-8', 'message/sipfrag', 'multipart/mixed;boundary="b;c"', 'application/octet-stream']))
    c['cl'] = draw(st.sampled_from(['', '', 'l', 'absent', 'junk']))
    c['clpos'] = draw(st.integers(0, 4))
    return c

def spell_name(n, f):
    can = CANON.get(n, '-'.join(x.capitalize() for x in n.split('-')))
    if f == 1 and n in COMPACT: return COMPACT[n]
    return can if f < 2 else can.upper() if f == 2 else can.lower()

def fold(v, f):
    """Fold at white space outside of quoted strings (f: 0 none, 1 first, 2/3 every)."""
    if f == 0: return v
    parts = re.split(r'("(?:[^"\\]|\\.)*")', v, flags = re.S)
    done = False
    for i in range(0, len(parts), 2):
        if ' ' in parts[i] and not (f == 1 and done):
            parts[i] = parts[i].replace(' ', '\r\n ' if f < 3 else ' \r\n\t', -1 if f > 1 else 1)
            done = True
    return ''.join(parts)

def render(c):
    lines = []
    for (n, vals), (f, colon, fo, spl) in zip(c['hdrs'], c['form']):
        sep = [': ', ':', ' : ', ':  '][colon]
        if spl or len(vals) == 1:
            for v in vals:
                lines.append(spell_name(n, f) + sep + fold(v, fo if n != 'call-id' else 0))
        else:
            lines.append(spell_name(n, f) + sep + ', '.join(fold(v, fo) for v in vals))
    b = '' if c['body'] is None else c['body']
    extra = []
    if b:
        extra.append(('c' if c['cl'] == 'l' else 'Content-Type') + ': ' + c['ctype'])
    blen = len(b.encode('utf-8'))
    if c['cl'] != 'absent' or blen == 0:
        extra.append('%s: %d' % ('l' if c['cl'] == 'l' else 'Content-Length', blen))
    pos = min(c['clpos'], len(lines)) or len(lines)
    lines[pos:pos] = extra
    if c['req']:
        sl = '%s %s %s' % (c['method'], g.render_uri(c['ruri']), c['sipver'])
    else:
        sl = '%s %d %s' % (c['sipver'], c['code'], c['reason'])
    return sl + '\r\n' + '\r\n'.join(lines) + '\r\n\r\n' + b + ('trailing junk' if c['cl'] == 'junk' else '')

def read_msg(text):
    """Independent reader: start line, [(canonical name, [values])], content type, declared length, body."""
    head, _, body = text.partition('\r\n\r\n')
    lines = re.split('\r\n(?![ \t])', head)
    out, ct, cl = [], None, None
    for l in lines[1:]:
        n, _, v = l.partition(':')
        n = n.strip().lower()
        n = EXPAND.get(n, n)
        v = re.sub(r'\r\n[ \t]+', ' ', v).strip()
        if n == 'content-type': ct = v
        elif n == 'content-length': cl = int(v)
        elif n in MULTI:
            out += [(n, x.strip()) for x in split_top(v, ',', angles = True)]
        else: out.append((n, v))
    return lines[0], out, ct, cl, body

def compare(text, c, what):
    """Does `text` carry what the case says?"""
    sl, hdrs, ct, cl, body = read_msg(text)
    if c['req']:
        f = sl.split(' ')
        V(len(f) == 3 and f[0] == c['method'] and f[2] == c['sipver'] and norm_uri(read_uri(f[1])) == norm_uri(c['ruri']),
          '%s: request line is %r, was %s %s %s' % (what, sl, c['method'], g.render_uri(c['ruri']), c['sipver']), 'startline')
    else:
        V(sl == '%s %d %s' % (c['sipver'], c['code'], c['reason'] or 'Unspecified'), '%s: status line is %r, was %d %r' % (what, sl, c['code'], c['reason']), 'startline')
    want = [(n, v) for n, vals in c['hdrs'] for v in vals]
    V([x[0] for x in hdrs] == [x[0] for x in want], '%s: header fields are %r, were %r' % (what, [x[0] for x in hdrs], [x[0] for x in want]), 'header-list')
    for (n, v), (_, w) in zip(hdrs, want):
        try:
            nv = norm(n, v)
        except Exception as e:
            raise Violation('%s: value of %s unreadable: %r, was %r' % (what, n, v, w), 'header-value')
        V(nv == norm(n, w), '%s: value of %s is %r, was %r' % (what, n, v, w), 'header-value')
    b = c['body'] or ''
    if not c['req'] and (c['code'] == 100 or c['code'] >= 400):
        b = ''
    V(body == b, '%s: body is %r, was %r' % (what, body, b), 'body')
    V(cl == len(b.encode('utf-8')), '%s: Content-Length is %r for a body of %d bytes' % (what, cl, len(b.encode('utf-8'))), 'content-length')
    if b:
        V(ct is not None and c02_ct(ct) == c02_ct(c['ctype']), '%s: Content-Type is %r, was %r' % (what, ct, c['ctype']), 'content-type')

def c02_ct(s):
    a, sep, r = s.partition(';')
    return a.strip(), g.read_params(sep + r)

def parse(c, text):
    from sippy.SipRequest import SipRequest
    from sippy.SipResponse import SipResponse
    return (SipRequest if c['req'] else SipResponse)(text)

LOCAL = (('192.0.2.77', 5099), 'udp')
def run_msg(c, rec):
    text = render(c)
    if not c['req'] and c['reason'] == '':
        rec.cls('no-reason')
    m = parse(c, text)
    rec.nt(any(f[0] or f[2] for f in c['form']) or (c['body'] or 'x').encode() != (c['body'] or 'x').encode('ascii', 'replace') or len(c['hdrs']) > 6)
    rec.cls('req' if c['req'] else 'resp')
    if c['body']: rec.cls('body')
    if c['body'] and not c['body'].isascii(): rec.cls('body-nonascii')
    if any(f[2] for f in c['form']): rec.cls('folded')
    if any(f[0] == 1 for f in c['form']): rec.cls('compact')
    # raw
    out = str(m)
    compare(out, c, 'written as read')
    compare(m.localStr(LOCAL), c, 'written for a local address')
    compare(m.localStr(LOCAL, compact = True), c, 'written in compact form')
    out2 = str(parse(c, out))
    V(out2 == out, 'writing the result of parsing own output changes it: %r -> %r' % (out, out2), 'unstable')
    # access by name, whatever the spelling
    for n in set(x[0] for x in c['hdrs']):
        if n in EXPAND.values() and n not in KNOWN_COMPACT:
            continue
        k = sum(len(vals) for nn, vals in c['hdrs'] if nn == n)
        V(len(m.getHFs(n)) == k == m.countHFs(n), '%d %s values are found, %d sent' % (len(m.getHFs(n)), n, k), 'lookup')
    # copies before and after parsing
    from types import SimpleNamespace
    m.setSource(SimpleNamespace(address = ('203.0.113.9', 5099), transport = 'udp'))
    m.setTarget((('203.0.113.8', 5098), 'udp'))
    m.nated, m.rtime = True, 'moment of arrival'
    for stage in ('unparsed', 'parsed'):
        cp = m.getCopy()
        V((cp.getSource(2), cp.getTarget(), cp.nated, cp.rtime) == (m.getSource(2), m.getTarget(), True, 'moment of arrival'),
          'copy of %s message lost its source, target, NAT mark or time of arrival: %r' % (stage, (cp.getSource(), cp.getTarget(), cp.nated, cp.rtime)), 'copy')
        V(str(cp) == str(m), 'copy of %s message is %r, the original %r' % (stage, str(cp), str(m)), 'copy')
        before = str(m)
        mutate(cp)
        V(str(m) == before, 'changing a copy of a %s message changed the original from %r to %r' % (stage, before, str(m)), 'copy-shared')
        if stage == 'unparsed':
            for h in m.headers:
                h.getBody()
            compare(str(m), c, 'written after reading every header')
            compare(m.localStr(LOCAL), c, 'written for a local address after reading every header')
            compare(m.localStr(LOCAL, compact = True), c, 'written in compact form after reading every header')
            s = str(m)
            m3 = parse(c, s)
            for h in m3.headers: h.getBody()
            V(str(m3) == s, 'reading own output changes it: %r -> %r' % (s, str(m3)), 'unstable')
    cp = m.getCopy()
    s = str(cp)
    mutate(m)
    V(str(cp) == s, 'changing a message changed its copy from %r to %r' % (s, str(cp)), 'copy-shared')

def mutate(m):
    for h in m.headers:
        b = h.getBody()
        if hasattr(b, 'address') and b.address is not None:
            c02.mutate_addr(b, 3)
        elif h.name == 'via':
            b.setParam('mut', '1'); b.hostname = 'changed'
        elif h.name == 'cseq': b.cseq = 12345
        elif h.name in ('allow',): b.methods.append('MUT')
        elif h.name == 'supported': b.caps.append('mut')
        elif h.name in ('expires', 'max-forwards', 'rseq'): b.number += 1
        elif hasattr(b, 'otherparams') and b.otherparams is not None: b.otherparams.append(('m', 'm'))
    from sippy.SipHeader import SipHeader
    m.appendHeader(SipHeader(name = 'x-mutant', bodys = '1'))
    m.removeHeader(m.headers[0])
    if hasattr(m, 'ruri'):
        c02.mutate_url(m.ruri, 3)
        m.method = 'MUTANT'
    else:
        m.setSCode(699, 'Mutated')
    if m.body is not None:
        m.body.mtype.name = 'mut/mut'
        m.body.mtype.params['mut'] = '1'
        m.body.content = 'mutated'

CHECK = Check('C01', 'exploration', [
    Part('message', lambda: msg_case(), run_msg, quick = 900, thorough = 12000, shards = 8, rule = 'compact, folded or re-spelt header lines, a non-ASCII body or more than six header lines'),
  ], ['bodies of 100 and of responses >= 400 are dropped by design; Content-Type and Content-Length are written last',
      'compact event/subject (and other names the stack does not interpret) may stay compact'])
