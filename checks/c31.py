"""C31: multipart bodies keep every part, its type and its headers."""
import re
from hypothesis import strategies as st
from core import Check, Part, Violation
import sipgen as g, sdpgen as sg, wire

LOCAL = (('192.0.2.77', 5099), 'udp')
def V(cond, msg, key = None):
    if not cond:
        raise Violation(msg, key)

BCH = g.ALNUM + "'()+_,-./:=?"
bnd = st.one_of(st.sampled_from(['boundaryZZZ', 'OSS-unique-boundary-42', 'a;b c', 'b', '=_x']), st.text(BCH, min_size = 1, max_size = 10), st.text(BCH + ' ', min_size = 1, max_size = 8).map(lambda s: s + 'z'))
hn = st.sampled_from(['Content-ID', 'Content-Disposition', 'Content-Transfer-Encoding', 'X-Part', 'Content-Language'])
hv = st.text(g.ALNUM + ' ;="<>@/.,', min_size = 1, max_size = 12).map(str.strip)

@st.composite
def part(draw):
    k = draw(st.integers(0, 3))
    p = {'type': draw(st.sampled_from([None, 'text/plain', 'application/sdp', 'application/EmergencyCallData.Control+xml', 'message/sipfrag'])), 'params': draw(g.hparams(('charset',), 2)),
      'hdrs': [list(x) for x in draw(st.lists(st.tuples(hn, hv), max_size = 3))], 'pos': draw(st.integers(0, 3)), 'sep': draw(st.sampled_from(g.SEPS))}
    if p['type'] is None: p['params'] = {}
    if p['type'] == 'application/sdp':
        s = draw(sg.sdp(maxm = 2, minm = 1, plain = True))
        s['eol'] = '\r\n'
        p['content'] = sg.render(s)
    else:
        p['content'] = draw(st.text(g.ALNUM + '\r\n -:=\u00e9<>', max_size = 30)) + draw(st.sampled_from(['', '\r\n', '\r\n\r\n', '\n']))
    p['inb'] = draw(st.integers(0, 3)) == 0 and p['type'] != 'application/sdp'     # mention the boundary inside the text
    return p

@st.composite
def case(draw):
    return {'b': draw(bnd), 'parts': draw(st.lists(part(), min_size = 1, max_size = 4)), 'pre': draw(st.sampled_from(['', '', '', 'This is a preamble\r\n', '\r\n'])),
      'epi': draw(st.sampled_from(['', '\r\n', '\r\n', '\r\nepilogue', '\r\n--not a boundary\r\n'])), 'pad': draw(st.sampled_from(['', '', ' ', '\t '])), 'q': draw(st.booleans()),
      'extra': draw(st.booleans())}

def content_of(c, p):
    t = p['content']
    if p['inb']: t += 'see --%s--' % c['b'] + '\r\n'
    return t

def render(c):
    out = c['pre']
    for i, p in enumerate(c['parts']):
        h = [(n, v) for n, v in p['hdrs']]
        if p['type'] is not None:
            h.insert(min(p['pos'], len(h)), ('Content-Type', p['type'] + g.render_params(p['params'], p['sep'])))
        if out and not out.endswith('\r\n'): out += '\r\n'
        elif i: out += '\r\n'
        out += '--' + c['b'] + c['pad'] + '\r\n' + ''.join('%s: %s\r\n' % x for x in h) + '\r\n' + content_of(c, p)
    return out + '\r\n--' + c['b'] + '--' + c['epi']

def ctype(c):
    b = c['b']
    q = c['q'] or not re.match(r"^[A-Za-z0-9'+_.-]+$", b)
    return 'multipart/mixed' + (';x=y' if c['extra'] else '') + '; boundary=' + ('"%s"' % b if q else b)

def trim(s):
    """The line break before a delimiter belongs to the delimiter."""
    return s[:-2] if s.endswith('\r\n') else s

def read(text, b):
    """Independent RFC 2046 reader -> [(type, params, headers, content)]"""
    t = '\r\n' + text
    d = '\r\n--' + b
    chunks = t.split(d)
    out, closed = [], False
    for ch in chunks[1:]:
        if ch.startswith('--'):
            closed = True
            break
        m = re.match(r'[ \t]*\r\n', ch)
        if m is None: raise ValueError('text after delimiter: %r' % ch[:20])
        ch = ch[m.end():]
        if ch.startswith('\r\n'): head, cont = '', ch[2:]
        elif '\r\n\r\n' in ch: head, cont = ch.split('\r\n\r\n', 1)
        elif ch.endswith('\r\n'): head, cont = ch[:-2], ''      # the blank line's break belongs to the delimiter
        else: raise ValueError('part without blank line: %r' % ch)
        ct, hs = ('text/plain', {}), []
        for l in head.split('\r\n'):
            if not l: continue
            n, _, v = l.partition(':')
            n, v = n.strip().lower(), v.strip()
            if n == 'content-type':
                a, sep, r = v.partition(';')
                ct = (a.strip(), g.read_params(sep + r))
            else: hs.append((n, v))
        out.append((ct[0], ct[1], hs, cont))
    if not closed: raise ValueError('not closed')
    return out

def run(c, rec):
    from sippy.MsgBody import MsgBody
    from sippy.SipContentType import SipContentType
    from sippy.MultipartMixBody import MultipartMixBody
    from sippy.SipRequest import SipRequest
    text = render(c)
    # a delimiter can not be part of the contents: skip texts that contain one by chance
    for p in c['parts']:
        if ('\n--' + c['b']) in '\n' + content_of(c, p): return
    if c['epi'].strip().startswith('--' + c['b']): return
    rec.nt(len(c['parts']) > 1 or any(p['hdrs'] for p in c['parts']))
    rec.cls('n:%d' % len(c['parts']))
    if c['pre']: rec.cls('preamble')
    if any(p['inb'] for p in c['parts']): rec.cls('boundary-in-text')
    want = [(p['type'] or 'text/plain', g.norm_params(p['params']), [(n.lower(), v) for n, v in p['hdrs']], content_of(c, p)) for p in c['parts']]
    assert read(text, c['b']) == want, (text, read(text, c['b']), want)
    msg = wire.request('INFO', 'sip:a@b', 'SIP/2.0/UDP h;branch=z9hG4bK1', '<sip:a@b>;tag=1', '<sip:c@d>', 'cid', 1, [('Content-Type', ctype(c))], text)
    m = SipRequest(msg)
    mb = m.getBody()
    V(mb.localStr() == text, 'unparsed body is written as %r, was %r' % (mb.localStr(), text), 'raw')
    late = mb.getCopy()
    mb.parse()
    mp = mb.content
    V(isinstance(mp, MultipartMixBody), 'multipart body was not parsed', 'type')
    def exposed(mp):
        out = []
        for p, hs in zip(mp.parts, mp.part_headers):
            if not p.mtype.parsed: p.mtype.parse()
            out.append((p.mtype.name, {k: (None if v is None else g.unq(v)) for k, v in p.mtype.params.items()}, [(h.name, str(h.body)) for h in hs], trim(p.localStr())))
        return out
    w2 = [(a, b, d, trim(e)) if e.endswith('\r\n') else (a, b, d, e) for a, b, d, e in want]
    # the stack keeps the delimiter's line break at the end of a part: compare modulo one final line break
    def eq(x, y):
        return len(x) == len(y) and all(a[:3] == b[:3] and (a[3] == b[3] or a[3] + '\r\n' == b[3] or a[3] == b[3] + '\r\n') for a, b in zip(x, y))
    got = exposed(mp)
    exp = [(a, b, d, e) for a, b, d, e in want]
    V(len(mp.parts) == len(want) and got == exp, 'parts %r, expected %r' % (got, exp), 'parts')
    V(mp.boundary == c['b'], 'boundary is %r, expected %r' % (mp.boundary, c['b']), 'boundary')
    def check_out(t, ct, what, want):
        a, sep, r = str(ct).partition(';')
        pr = g.read_params(sep + r)
        V(a.strip().lower() == 'multipart/mixed' and 'boundary' in pr, '%s: Content-Type is %r' % (what, str(ct)), 'ctype')
        try:
            back = read(t, pr['boundary'])
        except Exception as e:
            raise Violation('%s: body %r can not be split by its Content-Type %r: %s' % (what, t, str(ct), e), 'write')
        V(back == want, '%s: parts %r, expected %r' % (what, back, want), 'write')
        ct2 = SipContentType(str(ct))
        ct2.parse()
        b2 = MultipartMixBody(t, ctype = ct2)
        V(str(b2) == t, '%s: reading own output and writing it changes it: %r -> %r' % (what, t, str(b2)), 'unstable')
    wm = wire.Msg(str(m))
    V(int(wm.get('content-length')) == len(wm.body.encode('utf-8')), 'Content-Length %s for %d bytes' % (wm.get('content-length'), len(wm.body.encode())), 'length')
    check_out(wm.body, wm.get('content-type'), 'message', want)
    wm = wire.Msg(m.localStr(LOCAL))
    check_out(wm.body, wm.get('content-type'), 'message for a local address', want)
    check_out(str(mp), mp.getContentType(), 'body alone', want)
    for x in (late, mb.getCopy()):
        x.parse()
        V(str(x) == str(mb), 'copy is %r, original %r' % (str(x), str(mb)), 'copy')
    V(str(mp.getContentType()) == str(mp.getCopy().getContentType()), 'copy has Content-Type %r, original %r' % (str(mp.getCopy().getContentType()), str(mp.getContentType())), 'copy')
    # independence
    s = str(mb)
    cp = mb.getCopy()
    def mutate(x):
        y = x.content
        for p in y.parts:
            p.parse()
            if type(p.content) is str: p.content = 'mutated'
            else: p.content.sections[0].m_header.port = 1; p.content.addHeader('a', 'mut')
            p.mtype.params['mut'] = '1'
        for hs in y.part_headers:
            for h in hs: h.body.body = 'mut'
        y.parts.append(MsgBody('new', y.parts[0].mtype.getCopy()))
        y.part_headers.append([])
        y.setBoundary('mutated')
    mutate(cp)
    V(str(mb) == s, 'changing a copy changed the original from %r to %r' % (s, str(mb)), 'copy-shared')
    c2 = mb.getCopy()
    mutate(mb)
    V(str(c2) == s, 'changing a body changed its copy from %r to %r' % (s, str(c2)), 'copy-shared')
    # a body with parsed, edited and added parts is still well formed
    back = read(str(mb.content), g.read_params(str(mb.content.getContentType()).partition(';')[1] + str(mb.content.getContentType()).partition(';')[2])['boundary'])
    V(len(back) == len(want) + 1 and back[-1][3] == 'new', 'after adding a part the body reads %r' % (back,), 'edit')
    for b, p, w in zip(back, mb.content.parts, want):
        V(b[2] == [(n, 'mut') for n, _ in w[2]], 'edited part headers are written as %r' % (b[2],), 'edit')
        V(b[3] == trim(p.localStr()), 'edited part is written as %r, holds %r' % (b[3], p.localStr()), 'edit')

@st.composite
def bad_case(draw):
    c = draw(case())
    t = render(c)
    ct = ctype(c)
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.integers(0, 5))
        p = draw(st.integers(0, max(0, len(t) - 1)))
        if k == 0: t = t[:p]
        elif k == 1: t = t[:p] + draw(st.text(g.ALNUM + '\r\n-: ', max_size = 4)) + t[p:]
        elif k == 2: t = t[:p] + t[p + draw(st.integers(1, 6)):]
        elif k == 3: t = t.replace('\r\n', '\n', draw(st.integers(1, 6)))
        elif k == 4: ct = draw(st.sampled_from(['multipart/mixed', 'multipart/mixed;boundary=', 'multipart/mixed;boundary', 'multipart/mixed;boundary=""', 'multipart/mixed;boundary=zz', 'Multipart/Mixed;Boundary=b']))
        else: t = t.replace('\r\n\r\n', '\r\n')
    return {'text': t, 'ct': ct}

def run_bad(c, rec):
    from sippy.MsgBody import MsgBody
    from sippy.SipContentType import SipContentType
    from sippy.Exceptions.SipHandlingError import SipHandlingError
    rec.nt()
    ct = SipContentType(c['ct'])
    ct.parse()
    mb = MsgBody(c['text'], ct)
    try:
        mb.parse()
    except SipHandlingError as e:
        rec.cls('refused')
        return
    rec.cls('accepted')
    x = str(mb)
    mb2 = MsgBody(x, mb.content.getContentType())
    mb2.parse()
    V(str(mb2) == x, 'reading own output and writing it changes it: %r -> %r' % (x, str(mb2)), 'unstable')

CHECK = Check('C31', 'exploration', [
    Part('wellformed', lambda: case(), run, quick = 1200, thorough = 15000, shards = 5, rule = 'several parts, or parts with headers besides their type'),
    Part('malformed', lambda: bad_case(), run_bad, quick = 1500, thorough = 20000, shards = 3, rule = 'every case (a mutated multipart body)'),
  ], ['a part edited in memory is written with exactly one line break before the next delimiter'])
