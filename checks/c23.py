"""C23: media-relay control commands and statistics: structured generation, independent reading."""
from hypothesis import strategies as st
from core import Check, Part, Violation

def V(cond, msg, key = None):
    if not cond:
        raise Violation(msg, key)

ip4 = st.sampled_from(['10.0.0.1', '192.0.2.77', '1.2.3.4', '255.255.255.255'])
tok = st.text('abcdefRLcUG0189.@-_%:;=', min_size = 1, max_size = 10)
opts = st.text('wseiazpt6EIASZ', max_size = 4)

@st.composite
def ul(draw):
    c = {'k': 'ul', 'type': draw(st.sampled_from('ULul')), 'R': draw(st.one_of(st.none(), ip4)), 'L': draw(st.one_of(st.none(), ip4)), 'codecs': draw(st.one_of(st.none(), st.lists(st.integers(0, 127), min_size = 1, max_size = 4))),
      'o': [draw(opts), draw(opts), draw(opts), draw(opts)], 'order': draw(st.permutations(['R', 'L', 'c'])), 'call_id': draw(tok), 'ip': draw(st.sampled_from(['10.1.1.1', '2001:db8::1', '0.0.0.0'])), 'port': draw(st.integers(0, 65535)),
      'ft': draw(tok), 'tt': draw(st.one_of(st.none(), tok)), 'n': draw(st.one_of(st.none(), st.tuples(tok, tok).map(list))), 'sub': draw(st.one_of(st.none(), st.sampled_from(['M0:0', 'M1:2 xx', 'M4']))), 'ws': draw(st.sampled_from([' ', ' ', '  ', '\t']))}
    return c

@st.composite
def other(draw):
    k = draw(st.sampled_from(['call', 'call', 'G', 'plain']))
    c = {'k': k, 'opts': draw(st.text('abw019.,', max_size = 4)), 'ws': draw(st.sampled_from([' ', ' ', '  ']))}
    if k == 'call':
        c.update(type = draw(st.sampled_from('DPSRCQdpq')), call_id = draw(tok), args = draw(st.lists(st.one_of(tok, st.just('&&')), min_size = 1, max_size = 4)))
    elif k == 'G':
        c.update(type = draw(st.sampled_from('Gg')), args = draw(st.one_of(st.none(), st.lists(tok, min_size = 1, max_size = 3))))
    else:
        c.update(type = draw(st.sampled_from('VIXNi')))
    return c

def render(c, norm = False):
    ws = ' ' if norm else c['ws']
    if c['k'] == 'ul':
        d = {'R': 'R' + c['R'] if c['R'] else '', 'L': 'L' + c['L'] if c['L'] else '', 'c': 'c' + ','.join(str(x) for x in c['codecs']) if c['codecs'] is not None else ''}
        if norm: o = others(c) + d['R'] + d['L'] + d['c']
        else:
            o = c['o'][0]
            for i, k in enumerate(c['order']): o += d[k] + c['o'][i + 1].lstrip('6')
        f = [(c['type'].upper() if norm else c['type']) + o, c['call_id'], c['ip'], str(c['port']), c['ft']]
        if c['tt'] is not None: f.append(c['tt'])
        if c['n'] is not None: f += c['n']
        return ws.join(f) + (' && ' + c['sub'] if c['sub'] is not None else '')
    f = [(c['type'].upper() if norm else c['type']) + c['opts']]
    if c['k'] == 'call': f += [c['call_id']] + c['args']
    elif c['k'] == 'G': f += c['args'] or []
    return ws.join(f)

def others(c):
    """Options without a value, in order ('6' never directly follows an address or codec list)."""
    o = c['o'][0]
    return o + ''.join(x.lstrip('6') for x in c['o'][1:])

def canon(text, ul):
    import re
    f = text.split()
    if not ul: return f
    d, o = {}, ''
    for m in re.finditer(r'R[\d.]+|L[\d.]+|c[\d,]+|.', f[0][1:]):
        t = m.group(0)
        if len(t) > 1:
            assert t[0] not in d, text
            d[t[0]] = t
        else: o += t
    return [f[0][0], d, o] + f[1:]

def run(c, rec):
    from sippy.Rtp_proxy.cmd import Rtp_proxy_cmd
    text = render(c)
    rec.cls(c['k'], 'type:' + c['type'].upper())
    rec.nt(c['k'] != 'plain')
    r = Rtp_proxy_cmd(text)
    def check(r, what):
        V(r.type == c['type'].upper(), '%s of %r: type %r' % (what, text, r.type), 'type')
        if c['k'] == 'ul':
            u = r.ul_opts
            want = {'destination_ip': c['R'], 'local_ip': c['L'], 'codecs': c['codecs'], 'otherparams': others(c), 'remote_ip': c['ip'], 'remote_port': str(c['port']), 'from_tag': c['ft'], 'to_tag': c['tt'],
              'notify_socket': c['n'] and c['n'][0], 'notify_tag': c['n'] and c['n'][1], 'subargs': c['sub']}
            for k, v in want.items():
                g = getattr(u, k)
                if k == 'codecs' and g is not None: g = list(g)
                V(g == v, '%s of %r: %s is %r, expected %r' % (what, text, k, g, v), 'field:' + k)
            V(r.call_id == c['call_id'], '%s of %r: call_id %r' % (what, text, r.call_id), 'field:call_id')
        else:
            V((r.command_opts or '') == c['opts'], '%s of %r: options %r' % (what, text, r.command_opts), 'field:opts')
            if c['k'] == 'call':
                V(r.call_id == c['call_id'] and r.args.split() == c['args'], '%s of %r: call id %r arguments %r' % (what, text, r.call_id, r.args), 'field:args')
            elif c['k'] == 'G':
                V((r.args or '').split() == (c['args'] or []), '%s of %r: arguments %r' % (what, text, r.args), 'field:args')
    check(r, 'reading')
    out = str(r)
    V(canon(out, c['k'] == 'ul') == canon(render(c, True), c['k'] == 'ul'), '%r is written as %r, expected %r' % (text, out, render(c, True)), 'write')
    r2 = Rtp_proxy_cmd(out)
    check(r2, 'reading the output')
    V(str(r2) == out, 'writing the command again gives %r, was %r' % (str(r2), out), 'write')
    if c['k'] == 'ul':
        s = r.ul_opts.getstr(r.call_id, skipnotify = True)
        cc = dict(c, n = None)
        V(canon(c['type'].upper() + s, True) == canon(render(cc, True), True), 'without notification %r gives %r' % (text, s), 'getstr')
        if c['tt'] is not None:
            s = r.ul_opts.getstr(r.call_id, swaptags = True)
            cc = dict(c, ft = c['tt'], tt = c['ft'])
            V(canon(c['type'].upper() + s, True) == canon(render(cc, True), True), 'with tags swapped %r gives %r' % (text, s), 'getstr')
        V(str(r) == out, 'getstr() changed the command', 'getstr')

names = st.lists(st.sampled_from(['nsess_created', 'nsess_destroyed', 'nsess_timeout', 'ncmds_rcvd', 'npkts_rcvd', 'total_duration', 'packets_per_second']), min_size = 1, max_size = 6, unique = True)

@st.composite
def scase(draw):
    ns = draw(names)
    rows = [[draw(st.integers(0, 2 ** 40)) if n != 'total_duration' else draw(st.integers(0, 10 ** 9)) / 64.0 for n in ns] for _ in range(draw(st.integers(0, 5)))]
    return {'names': ns, 'rows': rows, 'how': draw(st.lists(st.booleans(), min_size = 5, max_size = 5)), 'verbose': draw(st.booleans()), 'pad': draw(st.sampled_from([' ', '  ', '\t']))}

def run_stats(c, rec):
    from sippy.Rtp_proxy.cmd import Rtpp_stats
    a = Rtpp_stats(c['names'])
    a.verbose = c['verbose']
    tot = [0] * len(c['names'])
    rec.nt(len(c['rows']) > 0)
    for row, how in zip(c['rows'], c['how']):
        text = c['pad'].join(repr(x) for x in row)
        if how:
            a.parseAndAdd(text)
        else:
            b = Rtpp_stats(c['names'])
            b.parseAndAdd(text)
            s = str(b)
            a += b
            V(str(b) == s, 'adding changed the right hand side', 'stats')
        tot = [x + y for x, y in zip(tot, row)]
    out = str(a).split(' ')
    V(len(out) == len(tot), 'statistics %r print as %r' % (c['names'], out), 'stats')
    for n, t, o in zip(c['names'], tot, out):
        if c['verbose']:
            V(o.startswith(n + '='), 'field %s prints as %r' % (n, o), 'stats')
            o = o[len(n) + 1:]
        if n == 'total_duration': V('.' in o and float(o) == t, 'field %s prints as %r, expected %r' % (n, o, float(t)), 'stats')
        else: V(o == str(t), 'field %s prints as %r, expected %r' % (n, o, t), 'stats')
    z = Rtpp_stats(c['names'])
    V(all(float(x) == 0 for x in str(z).split(' ')), 'fresh statistics are %r' % str(z), 'stats')

CHECK = Check('C23', 'exploration', [
    Part('ul', lambda: ul(), run, quick = 4000, thorough = 40000, shards = 3, rule = 'every update/lookup command'),
    Part('other', lambda: other(), run, quick = 4000, thorough = 40000, shards = 3, rule = 'commands with a call id or arguments'),
    Part('stats', lambda: scase(), run_stats, quick = 2500, thorough = 20000, shards = 2, rule = 'at least one row added'),
  ], ['addresses in the R and L options are IPv4 (their notation ends at the first other character)', 'runs of white space between fields are equivalent'])
