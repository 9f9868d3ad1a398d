"""C19: routing entries: structured specification -> text -> attributes, against an independent reading of the documentation."""
from hypothesis import strategies as st
from core import Check, Part, Violation
import socket, copy
from urllib.parse import quote

def V(cond, msg, key = None):
    if not cond:
        raise Violation(msg, key)

A4, A6 = socket.AF_INET, socket.AF_INET6
HOSTS = {'gw.example.com': [(A4, '198.51.100.1')], 'dual.example.com': [(A4, '198.51.100.2'), (A6, '2001:db8::2')], 'six.example.com': [(A6, '2001:db8::3')],
  'dual6.example.com': [(A6, '2001:db8::4'), (A4, '198.51.100.4'), (A4, '198.51.100.5')], '203.0.113.7': [(A4, '203.0.113.7')], '2001:db8::9': [(A6, '2001:db8::9')], '::1': [(A6, '::1')]}

def fake_gai(host, port, family = 0, type = 0, *a, **kw):
    if host not in HOSTS:
        raise socket.gaierror(-2, 'Name or service not known: %r' % (host,))
    return [(af, type, 6, '', (ip, int(port)) if af == A4 else (ip, int(port), 0, 0)) for af, ip in HOSTS[host] if family in (0, af)]

num = st.text('0123456789+*#', min_size = 1, max_size = 8)
word = st.text('abcdefgXYZ019.-_', min_size = 1, max_size = 8)
qtxt = st.text('abcXYZ019 ;:=@%,/"<>\u00e9', min_size = 0, max_size = 10)
secs = st.sampled_from([-1, 0, 1, 5, 30, 180, 3600, 100000])
hdrname = st.sampled_from(['X-Foo', 'X-Bar', 'Subject', 'X-Baz'])
def hval():
    return st.text('abcXYZ019 ;:=@%,/', min_size = 1, max_size = 10).map(str.strip).filter(bool)

@st.composite
def case(draw):
    h = draw(st.sampled_from(sorted(HOSTS) + ['sip-ua']))
    c = {'host': h, 'port': None if h == 'sip-ua' else draw(st.sampled_from([None, 5060, 5070, 65535, 1])), 'cld': draw(st.one_of(st.none(), st.none(), st.just(''), num, word)), 'params': []}
    names = draw(st.lists(st.sampled_from(['credit-time', 'expires', 'np_expires', 'nr_expires', 'hs_scodes', 'forward_on_fail', 'auth', 'cli', 'cnam', 'ash', 'rtpp', 'op', 'rid', 'bill-to', 'bill-cli', 'gt', 'po_proc']), max_size = 6, unique = True))
    for n in names:
        for _ in range(draw(st.integers(1, 2)) if n == 'ash' else 1):
            if n in ('credit-time', 'expires', 'np_expires', 'nr_expires'): v = draw(secs)
            elif n == 'hs_scodes': v = draw(st.lists(st.integers(400, 699), max_size = 3))
            elif n == 'forward_on_fail': v = '1'
            elif n == 'auth': v = draw(st.one_of(st.none(), st.tuples(word, st.text('abcXY019:=@ /', min_size = 0, max_size = 6)).map(list)))
            elif n == 'cli': v = draw(st.one_of(st.just(''), num, word))
            elif n == 'cnam': v = draw(qtxt)
            elif n == 'ash': v = [draw(hdrname), draw(hval())]
            elif n == 'rtpp': v = draw(st.sampled_from([0, 1, 2]))
            elif n == 'op': v = draw(st.tuples(st.sampled_from(['op.example.com', '192.0.2.9', '[2001:db8::8]']), st.sampled_from([None, 5060, 5099])).map(list))
            elif n == 'gt': v = [draw(st.integers(1, 60)), draw(st.integers(0, 3))]
            elif n == 'po_proc': v = draw(st.sampled_from(['VAL2Xattrs[a=b]', 'VAL2XattrsO[x=1,y=2]']))
            else: v = draw(word)
            c['params'].append([n, v])
    c['safe'] = draw(st.sampled_from(['', '/ ', ' :,@']))
    c['cust'] = draw(st.one_of(st.none(), st.fixed_dictionaries({'rnum': st.integers(1, 4), 'cld': num, 'cli': st.one_of(st.none(), num), 'credit': st.one_of(st.none(), st.sampled_from([0, 7, 60, 7200])),
      'max': st.one_of(st.none(), st.sampled_from([1, 30, 3600])), 'pass': st.lists(st.tuples(hdrname, hval()).map(list), max_size = 2)})))
    c['mut'] = draw(st.integers(0, 2))
    c['srcs'] = draw(st.lists(st.sampled_from(['198.51.100.77', '[2001:db8::77]', '203.0.113.1']), min_size = 1, max_size = 2))
    return c

def render(c):
    h = '[%s]' % c['host'] if ':' in c['host'] else c['host']
    out = h + ('' if c['port'] is None else ':%d' % c['port'])
    hp = out
    if c['cld'] is not None: out = c['cld'] + '@' + out
    for n, v in c['params']:
        if n == 'hs_scodes': v = ','.join(str(x) for x in v)
        elif n == 'auth': v = 'nopass' if v is None else '%s:%s' % tuple(v)
        elif n == 'cnam': v = quote(v, safe = c['safe'])
        elif n == 'ash': v = quote('%s: %s' % tuple(v) if c['safe'] else '%s:%s' % tuple(v), safe = c['safe'])
        elif n == 'op': v = v[0] if v[1] is None else '%s:%d' % tuple(v)
        elif n == 'gt': v = '%d,%d' % tuple(v)
        out += ';%s=%s' % (n, v)
    return out, hp, h

def expect(c):
    """What the documentation says the entry means."""
    e = {'cld': c['cld'] or None, 'cld_set': c['cld'] is not None, 'cli': None, 'cli_set': False, 'credit_time': None, 'crt': False, 'expires': None, 'no_progress_expires': None, 'no_reply_expires': None,
      'forward_on_fail': False, 'user': None, 'passw': None, 'pass_auth': True, 'headers': [], 'params': {}}
    for n, v in c['params']:
        t = None if n in ('credit-time', 'expires', 'np_expires', 'nr_expires') and v < 0 else v
        if n == 'credit-time': e['credit_time'], e['crt'] = t, True
        elif n == 'expires': e['expires'] = t
        elif n == 'np_expires': e['no_progress_expires'] = t
        elif n == 'nr_expires': e['no_reply_expires'] = t
        elif n == 'hs_scodes': e['params']['huntstop_scodes'] = tuple(v)
        elif n == 'forward_on_fail': e['forward_on_fail'] = True
        elif n == 'auth':
            e['pass_auth'] = False
            if v is not None: e['user'], e['passw'] = v
        elif n == 'cli': e['cli'], e['cli_set'] = v or None, True
        elif n == 'cnam': e['params']['caller_name'] = v or None
        elif n == 'ash': e['headers'].append((v[0].lower(), v[1]))
        elif n == 'rtpp': e['params']['rtpp'] = v != 0
        elif n == 'op': e['params']['outbound_proxy'] = (v[0], 5060 if v[1] is None else v[1])
        elif n == 'gt': e['params']['gt'] = '%d,%d' % tuple(v)
        elif n == 'po_proc': pass
        else: e['params'][n] = v
    return e

def observe(r):
    return {'cld': r.cld, 'cli': r.cli, 'credit_time': r.credit_time, 'expires': r.expires, 'no_progress_expires': r.no_progress_expires, 'no_reply_expires': r.no_reply_expires,
      'forward_on_fail': r.forward_on_fail, 'user': r.user, 'passw': r.passw, 'pass_auth': r.pass_auth, 'headers': [(h.name, str(h.body)) for h in (r.extra_headers or ())],
      'params': {k: v for k, v in r.params.items() if k != 'po_proc'}}

def run(c, rec):
    import socket
    import sim
    socket.getaddrinfo = fake_gai
    import sippy.B2B.Route as R
    R.getaddrinfo = fake_gai
    from sippy.SipHeader import SipHeader
    sim.World()
    text, hp, h = render(c)
    rec.nt(len(c['params']) > 1 or c['cust'] is not None)
    for n, _ in c['params']: rec.cls(n)
    r = R.B2BRoute(text)
    e = expect(c)
    ek = {k: v for k, v in e.items() if k not in ('cld_set', 'cli_set', 'crt')}
    def cmp(r, ek, what):
        o = observe(r)
        for k in ek:
            V(o[k] == ek[k], '%s of %r: %s is %r, expected %r' % (what, text, k, o[k], ek[k]), 'route:' + k)
        V(r.hostport == hp and r.hostonly == h, '%s of %r: destination is %r/%r' % (what, text, r.hostport, r.hostonly), 'route:host')
        if c['host'] != 'sip-ua':
            port = c['port'] or 5060
            for src in c['srcs']:
                af = A6 if src.startswith('[') else A4
                have = [(f, ip) for f, ip in HOSTS[c['host']]]
                same = [x for x in have if x[0] == af]
                f, ip = (same or have)[0]
                na, sa = r.getNHAddr((src, 5060))
                V(tuple(na) == (('[%s]' % ip) if f == A6 else ip, port) and bool(sa) == bool(same), '%s of %r: next hop for caller %s is %r, same family %r' % (what, text, src, na, sa), 'route:nh')
        po = [v for n, v in c['params'] if n == 'po_proc']
        V(('po_proc' in r.params) == bool(po), '%s of %r: po_proc is %r' % (what, text, r.params.get('po_proc')), 'route:po')
        if po:
            want = {'VAL2Xattrs[a=b]': ('VAL2Xattrs', [('a', 'b')]), 'VAL2XattrsO[x=1,y=2]': ('VAL2XattrsO', [('x', '1'), ('y', '2')])}[po[0]]
            p = r.params['po_proc']
            V(type(p).__name__ == want[0] and list(p.radius_parameters) == want[1], 'po_proc of %r is %r %r' % (text, p, p.radius_parameters), 'route:po')
    cmp(r, ek, 'reading')
    first = r.getCopy()
    cmp(first, ek, 'copy')
    k = c['cust']
    if k is not None:
        ph = [SipHeader('%s: %s' % tuple(x)) for x in k['pass']]
        phs = [str(x) for x in ph]
        r.customize(k['rnum'], k['cld'], k['cli'], k['credit'], ph, k['max'])
        ec = copy.deepcopy(ek)
        if not e['cld_set']: ec['cld'] = k['cld']
        if not e['cli_set']: ec['cli'] = k['cli']
        if not e['crt']: ec['credit_time'] = k['credit']
        if k['max'] is not None and (ec['credit_time'] is None or ec['credit_time'] > k['max']): ec['credit_time'] = k['max']
        ec['headers'] = ec['headers'] + [(n.lower(), v) for n, v in k['pass']]
        if 'gt' in ec['params']:
            a, b = [int(x) for x in ec['params']['gt'].split(',')]
            ec['params']['group_timeout'] = (a, k['rnum'] + b)
        cmp(r, ec, 'customized entry')
        V(r.rnum == k['rnum'], 'rnum is %r' % (r.rnum,), 'route:rnum')
        V([str(x) for x in ph] == phs, 'headers passed to customize() changed', 'copy')
        cmp(first, ek, 'copy made before customize()')
        ek = ec
    cp = r.getCopy()
    cmp(cp, ek, 'copy')
    V(cp.rnum == r.rnum, 'copy has rnum %r, original %r' % (cp.rnum, r.rnum), 'copy')
    if c['mut'] == 0 and k is None:
        # a copy of a not customized entry leaves the same things open as the original
        cp.customize(2, '777', '888', 55, [], None)
        ec = copy.deepcopy(ek)
        if not e['cld_set']: ec['cld'] = '777'
        if not e['cli_set']: ec['cli'] = '888'
        if not e['crt']: ec['credit_time'] = 55
        if 'gt' in ec['params']:
            a, b = [int(x) for x in ec['params']['gt'].split(',')]
            ec['params']['group_timeout'] = (a, 2 + b)
        cmp(cp, ec, 'customized copy')
        cmp(r, ek, 'original after customizing its copy')
    else:
        x, y = (cp, r) if c['mut'] == 1 else (r, cp)
        x.params['new'] = 'mut'
        x.cld, x.cli, x.credit_time, x.expires, x.user = 'mut', 'mut', 1, 2, 'mut'
        for hd in x.extra_headers or ():
            hd.body.body = 'mut'
        cmp(y, ek, 'original after changing its copy' if c['mut'] == 1 else 'copy after changing the original')

CHECK = Check('C19', 'exploration', [
    Part('route', lambda: case(), run, quick = 2500, thorough = 30000, shards = 8, rule = 'more than one parameter, or defaults applied'),
  ], ['name resolution is replaced by a fixed table', 'limits below zero mean "no limit", as the code base has always treated them'])
