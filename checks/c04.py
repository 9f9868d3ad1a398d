"""C04: SDP bodies survive parsing, copying and rewriting."""
import re
from hypothesis import strategies as st
from core import Check, Part, Violation
import sipgen as g, sdpgen as sg

LOCAL = (('192.0.2.77', 5099), 'udp')
def V(cond, msg, key = None):
    if not cond:
        raise Violation(msg, key)

def same(text, want, what, key):
    try:
        got = sg.read(text)
    except Exception as e:
        raise Violation('%s: unreadable SDP %r (%s)' % (what, text, e), key)
    V(got == want, '%s: %s' % (what, sg.diff(got, want)), key)

@st.composite
def case(draw):
    s = draw(sg.sdp())
    ops = []
    for _ in range(draw(st.integers(0, 6))):
        i = draw(st.integers(0, 3))
        k = draw(st.sampled_from(['port', 'formats', 'addattr', 'insattr', 'delattr', 'iadd', 'c', 'caddr', 'transport', 'o', 'sattr', 'siadd', 'copy', 'reparse', 'b', 'delsect', 'oaddr']))
        ops.append([k, i, draw(st.integers(1, 65535)), draw(sg.addr), draw(sg.tokn), draw(st.integers(0, 3))])
    return {'sdp': s, 'ops': ops, 'mode': draw(st.sampled_from(['sdp', 'msg', 'msg-late']))}

def expect_parsed(b, want, what):
    V(len(b.sections) == len(want['m']), '%s: %d sections, expected %d' % (what, len(b.sections), len(want['m'])), 'expose')
    for i, (x, m) in enumerate(zip(b.sections, want['m'])):
        got = [x.m_header.stype, x.m_header.port, x.m_header.transport, [str(f) for f in x.m_header.formats], [str(a) for a in x.a_headers], [x.c_header.ntype, x.c_header.atype, x.c_header.addr]]
        exp = [m['type'], m['port'], m['transport'], m['formats'], m['a'], m['c']]
        V(got == exp, '%s: section %d exposes %r, expected %r' % (what, i, got, exp), 'expose')
        hold = m['c'][2] in ('0.0.0.0', '::') or 'sendonly' in m['a'] or 'inactive' in m['a']
        V(bool(x.isOnHold()) == hold, '%s: section %d isOnHold() is %r' % (what, i, x.isOnHold()), 'hold')

def run(c, rec):
    from sippy.SdpBody import SdpBody
    from sippy.SdpConnecton import SdpConnecton
    from sippy.MsgBody import MsgBody
    text = sg.render(c['sdp'])
    want = sg.norm(c['sdp'])
    assert sg.read(text) == want, (text, sg.diff(sg.read(text), want))
    rec.nt(len(want['m']) > 1 or len(c['ops']) > 1)
    rec.cls('m:%d' % len(want['m']))
    for o in c['ops']: rec.cls('op:' + o[0])
    mb = None
    if c['mode'] == 'sdp':
        b = SdpBody(text)
    else:
        mb = MsgBody(text)
        same(str(mb), want, 'unparsed body', 'body-raw')
        cp = mb.getCopy()
        mb.parse()
        V(cp.content == text, 'parsing a body changed its copy', 'copy')
        b = mb.content
        V(isinstance(b, SdpBody), 'body of type application/sdp was not parsed as SDP', 'body-type')
        if c['mode'] == 'msg-late':
            mb = mb.getCopy()
            b = mb.content
    expect_parsed(b, want, 'parsed')
    def out(what, o = None, w = None):
        o = b if o is None else o
        w = want if w is None else w
        same(str(o), w, what, 'write')
        same(o.localStr(LOCAL), w, what + ' (local address)', 'write')
        if mb is not None and o is b:
            same(str(mb), w, what + ' (body)', 'write')
            same(mb.localStr(LOCAL), w, what + ' (body, local address)', 'write')
    out('written')
    s1 = str(b)
    V(str(SdpBody(s1)) == s1, 'reading and writing own output changes it: %r -> %r' % (s1, str(SdpBody(s1))), 'unstable')
    import copy as cpy
    others = []
    for k, i, n, a, t, pos in c['ops']:
        m = want['m']
        if k in ('o', 'sattr', 'copy', 'reparse', 'oaddr', 'siadd') or len(m) > 0:
            j = i % len(m) if len(m) else None
        else:
            continue
        sec = b.sections[j] if j is not None else None
        if k == 'port': sec.m_header.port = n; m[j]['port'] = n
        elif k == 'transport': sec.m_header.transport = 'RTP/' + t; m[j]['transport'] = 'RTP/' + t
        elif k == 'formats':
            if m[j]['type'] in ('audio', 'video'):
                sec.m_header.formats.append(n % 128); m[j]['formats'].append(str(n % 128))
            else:
                sec.m_header.formats.append(t); m[j]['formats'].append(t)
        elif k == 'addattr': sec.addHeader('a', t + ':x:y'); m[j]['a'].append(t + ':x:y')
        elif k == 'insattr': sec.insertHeader(pos, 'a', t); m[j]['a'].insert(pos, t)
        elif k == 'delattr':
            if m[j]['a']:
                p = pos % len(m[j]['a'])
                sec.a_headers.remove(sec.a_headers[p]); del m[j]['a'][p]
        elif k == 'iadd': sec += 'a=%s:1\r\n' % t; m[j]['a'].append(t + ':1')
        elif k == 'siadd':
            if len(m): b += 'a=%s:2' % t; m[-1]['a'].append(t + ':2')
            else: b += 'a=%s:2' % t; want['a'].append(t + ':2')
        elif k == 'c': sec.c_header = SdpConnecton(' '.join(a)); m[j]['c'] = list(a)
        elif k == 'caddr': sec.c_header.atype, sec.c_header.addr = a[1], a[2]; m[j]['c'] = [m[j]['c'][0], a[1], a[2]]
        elif k == 'b': sec.addHeader('b', 'AS:%d' % n); m[j]['b'].append('AS:%d' % n)
        elif k == 'o': b.o_header.version = str(n); want['o'][2] = str(n)
        elif k == 'oaddr': b.o_header.address_type, b.o_header.address = a[1], a[2]; want['o'][4:6] = a[1:]
        elif k == 'sattr': b.addHeader('a', t); want['a'].append(t)
        elif k == 'delsect':
            if len(m) > 1: del b.sections[j]; del m[j]
            else: continue
        elif k == 'copy':
            others.append((b, cpy.deepcopy(want)))
            if mb is not None:
                mb = mb.getCopy(); b = mb.content
            else: b = b.getCopy()
            want = cpy.deepcopy(want)
        elif k == 'reparse':
            b = SdpBody(str(b)); mb = None
        out('after %s' % k)
        expect_parsed(b, want, 'after %s' % k)
        for o, w in others:
            out('another copy, after %s of this one' % k, o, w)

# ---- malformed text -------------------------------------------------------
@st.composite
def bad_case(draw):
    text = sg.render(draw(sg.sdp(maxm = 2)))
    for _ in range(draw(st.integers(1, 4))):
        lines = text.split('\n')
        i = draw(st.integers(0, len(lines) - 1))
        k = draw(st.integers(0, 7))
        if k == 0: del lines[i]
        elif k == 1: lines.insert(draw(st.integers(0, len(lines))), lines[i])
        elif k == 2: lines[i] = lines[i][:draw(st.integers(0, max(0, len(lines[i]))))]
        elif k == 3: lines[i] = draw(st.text(g.ALNUM + '=:/ mvoctab', max_size = 10)) + lines[i]
        elif k == 4: lines[i] = draw(st.sampled_from('vosiuepcbtrzkamqX')) + '=' + draw(st.text(g.ALNUM + ' :/-', max_size = 12))
        elif k == 5:
            f = lines[i].split(' ')
            f[draw(st.integers(0, len(f) - 1))] = draw(st.sampled_from(['', 'x', '-1', '99999999999', '0x10', '1/2', '\u0663', '1.5', 'IN IP4']))
            lines[i] = ' '.join(f)
        elif k == 6:
            p = draw(st.integers(0, len(text)))
            lines = (text[:p] + draw(st.text(max_size = 3)) + text[p + draw(st.integers(0, 3)):]).split('\n')
        else: lines = lines[:i]
        text = '\n'.join(lines)
    return {'text': text}

def run_bad(c, rec):
    from sippy.SdpBody import SdpBody
    from sippy.MsgBody import MsgBody
    from sippy.Exceptions.SdpParseError import SdpParseError
    rec.nt()
    for mk in (lambda: SdpBody(c['text']), lambda: MsgBody(c['text'])):
        try:
            b = mk()
            if isinstance(b, MsgBody):
                b.parse()
                b = b.content
        except SdpParseError as e:
            rec.cls('refused')
            V(e.code == 488, 'SDP error carries code %r' % e.code, 'code')
            r = e.getReason()
            from wire import Addr
            if r is not None:
                rs = str(r)
                V(g.split_top(rs, ',') == [rs] and [x.strip().split('=')[0] for x in g.split_top(rs, ';')][1:] == ['cause', 'text'] and
                  re.search(r'text="((?:[^"\\]|\\.)*)"$', rs, re.S) is not None, 'Reason for an SDP error is not well formed: %r' % rs, 'reason')
            continue
        rec.cls('accepted')
        s = str(b)
        V(str(SdpBody(s)) == s, 'reading and writing own output changes it: %r -> %r' % (s, str(SdpBody(s))), 'unstable')
        V(str(b.getCopy()) == s, 'copy of %r is %r' % (s, str(b.getCopy())), 'copy')

CHECK = Check('C04', 'exploration', [
    Part('wellformed', lambda: case(), run, quick = 1200, thorough = 15000, shards = 5, rule = 'at least two media sections or two edits'),
    Part('malformed', lambda: bad_case(), run_bad, quick = 1500, thorough = 20000, shards = 3, rule = 'every case (a mutated SDP body)'),
  ], ['numeric formats for audio/video; no port ranges (port/count); at most one c= per section'])
