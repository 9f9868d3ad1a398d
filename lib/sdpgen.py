"""Generator, renderer and independent reader of SDP bodies."""
import re
from hypothesis import strategies as st
import sipgen as g

txt = st.text(g.ALNUM + ' .,:;=/()-+\u00e9\u2028', min_size = 1, max_size = 10)
tokn = st.text(g.ALNUM + '-', min_size = 1, max_size = 6)
num = st.integers(0, 2 ** 63 - 1).map(str)
v4 = st.one_of(st.sampled_from(['0.0.0.0', '192.0.2.1', '192.0.2.2', '192.0.2.2']), g.ipv4)
v6 = st.sampled_from(['::', '::1', '2001:db8::1', '2001:db8::2'])
addr = st.one_of(v4.map(lambda a: ['IN', 'IP4', a]), v4.map(lambda a: ['IN', 'IP4', a]), v6.map(lambda a: ['IN', 'IP6', a]), g.hostname.map(lambda a: ['IN', 'IP4', a]))
bw = st.tuples(st.sampled_from(['AS', 'TIAS', 'CT', 'RS', 'RR']), st.integers(0, 99999)).map(lambda t: '%s:%d' % t)
PTNAMES = {0: 'PCMU/8000', 3: 'GSM/8000', 8: 'PCMA/8000', 9: 'G722/8000', 18: 'G729/8000', 101: 'telephone-event/8000', 96: 'opus/48000/2', 97: 'H264/90000', 34: 'H263/90000', 13: 'CN/8000'}
AUDIO_PT = [0, 3, 8, 9, 18, 96, 101, 13, 100, 110, 127]
VIDEO_PT = [34, 97, 98, 99, 31]

@st.composite
def attrs(draw, formats = (), maxn = 5):
    out = []
    for f in formats:
        if isinstance(f, int) and draw(st.integers(0, 2)):
            out.append('rtpmap:%d %s' % (f, PTNAMES.get(f, 'x-foo/8000')))
        if isinstance(f, int) and draw(st.integers(0, 3)) == 0:
            out.append('fmtp:%d %s' % (f, draw(st.sampled_from(['0-16', 'mode=20', 'annexb=no', 'a=b;c=d:e']))))
    for _ in range(draw(st.integers(0, maxn))):
        k = draw(st.integers(0, 3))
        if k == 0: out.append(draw(st.sampled_from(['sendrecv', 'sendonly', 'recvonly', 'inactive', 'rtcp-mux', 'ptime:20', 'ptime:30', 'maxptime:60', 'rtcp:4001', 'setup:actpass'])))
        elif k == 1: out.append(draw(tokn))
        else: out.append(draw(tokn) + ':' + draw(txt).strip())
    return out

@st.composite
def media(draw, always_c = False, kinds = ('audio', 'audio', 'audio', 'video', 'image', 'application', 'message'), plain = False):
    k = draw(st.sampled_from(kinds))
    m = {'type': k, 'port': draw(st.one_of(st.sampled_from([0, 9, 4000, 65535]), st.integers(1, 65535)))}
    if k == 'audio':
        m['transport'] = draw(st.sampled_from(['RTP/AVP', 'RTP/AVP', 'RTP/SAVP', 'UDP/TLS/RTP/SAVPF']))
        m['formats'] = draw(st.lists(st.one_of(st.sampled_from(AUDIO_PT), st.integers(0, 127)), min_size = 1, max_size = 5, unique = True))
    elif k == 'video':
        m['transport'] = draw(st.sampled_from(['RTP/AVP', 'RTP/AVPF']))
        m['formats'] = draw(st.lists(st.sampled_from(VIDEO_PT), min_size = 1, max_size = 3, unique = True))
    else:
        m['transport'] = {'image': 'udptl', 'application': 'UDP/BFCP', 'message': 'TCP/MSRP'}[k]
        m['formats'] = draw(st.sampled_from([['t38'], ['*'], ['t38', '101'], ['webrtc-datachannel']]))
    m['i'] = None if plain else draw(st.one_of(st.none(), st.none(), txt))
    m['c'] = draw(addr) if always_c else draw(st.one_of(st.none(), addr))
    m['b'] = [] if plain else draw(st.lists(bw, max_size = 2))
    m['k'] = None if plain else draw(st.one_of(st.none(), st.none(), st.just('prompt')))
    m['a'] = draw(attrs(m['formats']))
    return m

@st.composite
def sdp(draw, maxm = 4, minm = 0, plain = False, kinds = ('audio', 'audio', 'audio', 'video', 'image', 'application', 'message')):
    n = draw(st.integers(minm, maxm))
    s = {'v': '0', 'o': [draw(st.sampled_from(['-', 'user', 'Sippy'])), draw(num), draw(num)] + draw(addr), 's': draw(st.one_of(st.just('-'), st.just(' '), txt))}
    opt = lambda x: None if plain else draw(st.one_of(st.none(), st.none(), x))
    s['i'], s['u'] = opt(txt), opt(st.just('http://x.example/a?b=c'))
    s['e'] = [] if plain else draw(st.lists(st.sampled_from(['j.doe@example.com (Jane)', 'x@y']), max_size = 2))
    s['p'] = [] if plain else draw(st.lists(st.sampled_from(['+1 617 555-6011', '+44']), max_size = 2))
    s['c'] = draw(st.one_of(st.none(), addr))
    s['b'] = draw(st.lists(bw, max_size = 2))
    s['t'] = [[draw(st.sampled_from(['0 0', '2873397496 2873404696'])), [] if plain else draw(st.lists(st.just('604800 3600 0 90000'), max_size = 1))]]
    if not plain and draw(st.integers(0, 5)) == 0:
        s['t'].append(['3034423619 3042462419', draw(st.lists(st.sampled_from(['7d 1h 0 25h', '1 2 3']), max_size = 2))])
    s['z'], s['k'] = opt(st.just('2882844526 -1h 2898848070 0')), opt(st.just('prompt'))
    s['a'] = draw(attrs((), 3))
    s['m'] = [draw(media(always_c = s['c'] is None, kinds = kinds, plain = plain)) for _ in range(n)]
    s['eol'] = draw(st.sampled_from(['\r\n', '\r\n', '\r\n', '\n']))
    return s

def render(s):
    l = ['v=' + s['v'], 'o=' + ' '.join(s['o']), 's=' + s['s']]
    for n in ('i', 'u'):
        if s[n] is not None: l.append('%s=%s' % (n, s[n]))
    for n in ('e', 'p'):
        l += ['%s=%s' % (n, x) for x in s[n]]
    if s['c'] is not None: l.append('c=' + ' '.join(s['c']))
    l += ['b=' + x for x in s['b']]
    for t, r in s['t']:
        l.append('t=' + t)
        l += ['r=' + x for x in r]
    for n in ('z', 'k'):
        if s[n] is not None: l.append('%s=%s' % (n, s[n]))
    l += ['a=' + x for x in s['a']]
    for m in s['m']:
        l.append('m=%s %d %s %s' % (m['type'], m['port'], m['transport'], ' '.join(map(str, m['formats']))))
        if m['i'] is not None: l.append('i=' + m['i'])
        if m['c'] is not None: l.append('c=' + ' '.join(m['c']))
        l += ['b=' + x for x in m['b']]
        if m['k'] is not None: l.append('k=' + m['k'])
        l += ['a=' + x for x in m['a']]
    return s['eol'].join(l) + s['eol']

def read(text):
    """-> normalised dict; the connection address of each section is the effective one."""
    s = {k: None for k in 'vosiuczk'}
    s.update(e = [], p = [], b = [], t = [], a = [], m = [])
    cur = s
    for line in re.split('\r\n|\n', text):
        if not line: continue
        n, e, v = line.partition('=')
        if not e or len(n) != 1: raise ValueError('bad SDP line %r' % line)
        if n == 'm':
            f = v.split()
            cur = {'type': f[0], 'port': int(f[1]), 'transport': f[2], 'formats': f[3:], 'i': None, 'c': None, 'b': [], 'k': None, 'a': []}
            s['m'].append(cur)
        elif n in 'abep': cur[n].append(v)
        elif n == 't': cur['t'].append([v, []])
        elif n == 'r': cur['t'][-1][1].append(v)
        elif n in ('o', 'c'):
            if cur.get(n) is not None: raise ValueError('repeated %s=' % n)
            cur[n] = v.split()
        else:
            if cur.get(n) is not None: raise ValueError('repeated %s=' % n)
            cur[n] = v
    return norm(s)

def norm(s):
    o = {k: s[k] for k in ('v', 'o', 's', 'i', 'u', 'e', 'p', 'b', 't', 'z', 'k', 'a')}
    o['t'] = [list(x) for x in s['t']]
    o['m'] = []
    for m in s['m']:
        mm = {k: m[k] for k in ('type', 'port', 'transport', 'i', 'b', 'k', 'a')}
        mm['formats'] = [str(f) for f in m['formats']]
        mm['c'] = m['c'] if m['c'] is not None else s['c']
        o['m'].append(mm)
    if len(o['m']) == 0: o['c'] = s['c']
    return o

def diff(a, b):
    out = []
    for k in a:
        if k == 'm':
            if len(a['m']) != len(b['m']): out.append('sections: %d, expected %d' % (len(a['m']), len(b['m'])))
            for i, (x, y) in enumerate(zip(a['m'], b['m'])):
                out += ['section %d %s=: %r, expected %r' % (i, f, x[f], y[f]) for f in x if x[f] != y[f]]
        elif a[k] != b.get(k): out.append('%s=: %r, expected %r' % (k, a[k], b.get(k)))
    return '; '.join(out)
