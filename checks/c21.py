"""C21: configuration values through every way of setting them, against an independent model."""
import os, re, sys, tempfile
from hypothesis import strategies as st
from core import Check, Part, Violation

def V(cond, msg, key = None):
    if not cond:
        raise Violation(msg, key)

BOOL = {'1': True, 'yes': True, 'true': True, 'on': True, '0': False, 'no': False, 'false': False, 'off': False}
B = ['acct_enable', 'precise_acct', 'auth_enable', 'digest_auth', 'foreground', 'hide_call_id', 'start_acct_enable', 'digest_auth_only', 'nat_traversal', 'ui']
I = ['alive_acct_int', 'keepalive_ans', 'keepalive_orig', 'max_credit_time', 'max_radiusclients', 'sip_port', 'xmpp_b2bua_id']
S = ['b2bua_socket', 'logfile', 'pidfile', 'radiusclient.conf', 'static_tr_in', 'static_tr_out', 'sip_proxy', 'wss_socket', 'uiparams', 'static_route']
L = ['allowed_pts', 'pass_headers', 'accept_ips', 'rtp_proxy_clients']
X = ['sip_address', 'pre_auth_proc']
DERIVED = ['_allowed_pts', '_pass_headers', '_accept_ips', '_rtp_proxy_clients', '_sip_address', '_sip_port', '_pre_auth_proc']

stext = st.one_of(st.text('abcXYZ019/.:;=#%[]{}$&, \\\u00e9', max_size = 10).map(str.strip), st.sampled_from(['/var/run/x.sock', 'udp:1.2.3.4:22', 's/^0/44/g;s/x//', '%(logfile)s', '# no comment', '; neither', 'a = b', '[general]']))
ptok = st.one_of(st.integers(0, 127).map(str), st.sampled_from(['[G729]', '[telephone-event]', '[opus]']))
htok = st.sampled_from(['X-Foo', 'x-bar', 'P-Asserted-Identity', 'Subject', 'DIVERSION'])
iptok = st.sampled_from(['1.2.3.4', '10.0.0.1', '2001:db8::1', '[[WSS]]', '192.0.2.9'])
rtok = st.sampled_from(['udp:1.2.3.4:22222', '/var/run/rtpp.sock', 'unix:/x', 'udp:h', 'rtp.io:'])
sep = st.sampled_from([',', ', ', ' ,', ' , '])

@st.composite
def item(draw, lists = True):
    """(key, text, ok)"""
    grp = draw(st.sampled_from('BBIISSLLLX'))
    pad = draw(st.sampled_from(['', '', ' ', '  ']))
    if grp == 'B':
        k = draw(st.sampled_from(B))
        w = draw(st.sampled_from(sorted(BOOL)))
        v, ok = draw(st.sampled_from([(w, True), (w.upper(), True), (w.capitalize(), True), ('maybe', False), ('', False), ('2', False), ('yes please', False)]))
    elif grp == 'I':
        k = draw(st.sampled_from(I))
        n = draw(st.one_of(st.integers(-3, 70000), st.sampled_from([0, 1, 5060, 65535, 65536, -1])))
        v, ok = draw(st.sampled_from([(str(n), True), (str(n), True), ('+%d' % abs(n), True), ('1.5', False), ('', False), ('0x10', False), ('ten', False)]))
        if ok:
            n = int(v)
            if k.startswith('keepalive'): ok = n >= 0
            elif k == 'max_credit_time': ok = n > 0
            elif k == 'sip_port': ok = 0 < n < 65536
    elif grp == 'S':
        k, v, ok = draw(st.sampled_from(S)), draw(stext), True
    elif grp == 'L':
        k = draw(st.sampled_from(L))
        toks = draw(st.lists({'allowed_pts': ptok, 'pass_headers': htok, 'accept_ips': iptok, 'rtp_proxy_clients': rtok}[k], min_size = 1, max_size = 4))
        v, ok = draw(sep).join(toks), True
        if k == 'allowed_pts' and draw(st.integers(0, 5)) == 0:
            v, ok = v + draw(st.sampled_from([',x', ',1.5', ',[G729', ',PCMU'])), False
    else:
        k = draw(st.sampled_from(X))
        if k == 'sip_address': v, ok = draw(st.sampled_from([('*', True), ('0.0.0.0', True), ('::', True), ('192.0.2.1', True), ('[2001:db8::1]', True)]))
        else: v, ok = draw(st.sampled_from([('HDR2Xattrs[X-foo]', True), ('Nop[x]', True), ('HDR2Xattrs', False), ('NoSuch[x]', False), ('VAL2Xattrs[x]', False)]))
    return [k, pad + v + pad, ok]

def split(v):
    return [x.strip() for x in v.split(',')]

class Model(object):
    def __init__(self):
        self.v, self.d = {}, {}
    def set(self, k, text):
        t = text.strip()
        self.v[k] = BOOL[t.lower()] if k in B else int(t) if k in I else t
        if k == 'allowed_pts': self.d['_allowed_pts'] = [x[1:-1] if x.startswith('[') else int(x) for x in split(t)]
        elif k == 'pass_headers': self.d['_pass_headers'] = [x.lower() for x in split(t)]
        elif k in ('accept_ips', 'rtp_proxy_clients'): self.d['_' + k] = split(t)
        elif k == 'sip_address': self.d['_sip_address'] = 'MY' if t in ('*', '0.0.0.0', '::') else t
        elif k == 'sip_port': self.d['_sip_port'] = int(t)
        elif k == 'pre_auth_proc': self.d['_pre_auth_proc'] = 'set'
    def add(self, k, text):
        """-r / -h: adds to the list"""
        t = text.strip()
        lk, dk = k + 's', '_' + k + 's'
        self.v[lk] = self.v[lk] + ',' + t if self.v.get(lk) is not None else t
        self.d[dk] = (self.d.get(dk) or []) + [t.lower() if k == 'pass_header' else t]

def observe(m):
    from sippy.MyConfigParser import SUPPORTED_OPTIONS
    from sippy.SipConf import SipConf
    v = {k: m[k] for k in SUPPORTED_OPTIONS if k in m}
    for k in v:
        V(m.get(k) == v[k] and m.getdefault(k, object()) == v[k] and m.has_key(k), 'different accessors give different values for %s' % k, 'access')
    d = {}
    for k in DERIVED:
        if k in m:
            x = m[k]
            if k == '_sip_address': x = 'MY' if x is SipConf.my_address else x
            elif k == '_pre_auth_proc': x = 'set'
            d[k] = list(x) if isinstance(x, (list, tuple)) else x
    return v, d

def same(m, mod, what, derived = True):
    v, d = observe(m)
    for k in set(v) | set(mod.v):
        a, b = v.get(k, '<unset>'), mod.v.get(k, '<unset>')
        V(a == b and type(a) is type(b), '%s: %s is %r, expected %r' % (what, k, a, b), 'value')
    if derived:
        for k in set(d) | set(mod.d):
            a, b = d.get(k, '<unset>'), mod.d.get(k, '<unset>')
            V(a == b, '%s: %s is %r, expected %r' % (what, k, a, b), 'derived')

def reread(m, mod, what):
    """Write to a file, read back."""
    from sippy.MyConfigParser import MyConfigParser
    fd, fn = tempfile.mkstemp(prefix = 'c21')
    os.close(fd)
    try:
        with open(fn, 'w', encoding = 'utf-8') as f: m.write(f)
        m2 = MyConfigParser()
        m2.read(fn)
    finally:
        os.unlink(fn)
    same(m2, mod, what, False)
    mm = Model()
    for k, v in observe(m)[0].items(): mm.set(k, str(v))
    same(m2, mm, what)

def scase():
    return st.fixed_dictionaries({'ops': st.lists(st.tuples(st.sampled_from(['check', 'check', 'check', 'prog', 'compat', 'unknown']), item(), rtok, htok).map(list), min_size = 1, max_size = 8)})

def run_set(c, rec):
    from sippy.MyConfigParser import MyConfigParser
    m, mod = MyConfigParser(), Model()
    bad = 0
    for how, (k, text, ok), r, h in c['ops']:
        if how == 'compat':
            if len(text) % 2: m.check_and_set('rtp_proxy_client', r); mod.add('rtp_proxy_client', r)
            else: m.check_and_set('pass_header', h); mod.add('pass_header', h)
        elif how == 'unknown':
            before = observe(m)
            try: m.check_and_set('no_such_option', text)
            except Exception: pass
            else: raise Violation('unknown option was accepted', 'unknown')
            V(observe(m) == before, 'unknown option altered the configuration', 'unknown')
        elif how == 'prog' and ok and k in B + I + S:
            mm = Model(); mm.set(k, text)
            m[k] = mm.v[k]
            mod.v[k] = mm.v[k]
        else:
            before = observe(m)
            try:
                m.check_and_set(k, text)
            except Exception as e:
                V(not ok, 'value %r of %s was refused: %r' % (text, k, e), 'refused')
                V(observe(m) == before, 'refused value %r of %s altered the configuration: %r -> %r' % (text, k, before, observe(m)), 'altered')
                bad += 1
            else:
                V(ok, 'invalid value %r of %s was accepted' % (text, k), 'accepted')
                mod.set(k, text)
        same(m, mod, 'after %r' % (c['ops'],))
    rec.nt(len(mod.v) > 1 or bad)
    rec.cls('with-refusal' if bad else 'all-valid')
    reread(m, mod, 'written and read back')
    same(m, mod, 'after writing')

def fcase():
    return st.fixed_dictionaries({'pre': st.lists(item(), max_size = 2), 'items': st.lists(item(), min_size = 1, max_size = 7, unique_by = lambda x: x[0]), 'eq': st.lists(st.sampled_from([' = ', '=', ': ', ' =', ':']), min_size = 7, max_size = 7),
      'junk': st.sampled_from([None, None, '# comment', '; comment', '', '#k = v']), 'upper': st.booleans(), 'unknown': st.sampled_from([False] * 6 + [True]), 'other': st.booleans()})

def run_file(c, rec):
    from sippy.MyConfigParser import MyConfigParser
    m, mod = MyConfigParser(), Model()
    for k, t, ok in c['pre']:
        if ok: m.check_and_set(k, t); mod.set(k, t)
    lines = ['[general]']
    for i, (k, t, ok) in enumerate(c['items']):
        if c['junk'] is not None: lines.append(c['junk'])
        lines.append((k.upper() if c['upper'] else k) + c['eq'][i] + t)
    if c['unknown']: lines.append('no_such_option = 1')
    if c['other']: lines = ['[other]', 'acct_enable = maybe'] + lines
    fd, fn = tempfile.mkstemp(prefix = 'c21')
    try:
        with os.fdopen(fd, 'w', encoding = 'utf-8') as f: f.write('\n'.join(lines) + '\n')
        ok = all(x[2] for x in c['items']) and not c['unknown']
        rec.nt(len(c['items']) > 1 or not ok)
        rec.cls('valid' if ok else 'invalid')
        try:
            m.read(fn)
        except Exception as e:
            V(not ok, 'file %r was refused: %r' % (lines, e), 'refused')
            same(m, mod, 'refused file %r altered the configuration' % (lines,))
            return
    finally:
        os.unlink(fn)
    V(ok, 'file with an invalid value was accepted: %r' % (lines,), 'accepted')
    for k, t, _ in c['items']: mod.set(k, t)
    same(m, mod, 'after reading %r' % (lines,))

class _Done(BaseException):
    pass

@st.composite
def acase(draw):
    args = []
    for _ in range(draw(st.integers(1, 7))):
        k = draw(st.integers(0, 15))
        if k < 6:
            it = draw(item())
            if it[0] == 'foreground': continue
            args.append(['--', it[0], it[1], it[2]])
        else:
            o = draw(st.sampled_from('flpPLsaDAtTkmurFRhxcMH'))
            v = {'l': st.sampled_from(['*', '192.0.2.1']), 'p': st.sampled_from(['5060', '5099', '0', '70000']), 'P': stext, 'L': stext, 's': st.just('192.0.2.5'), 'a': st.lists(iptok, min_size = 1, max_size = 3).map(','.join),
              'A': st.sampled_from(['0', '1', '2', '3']), 't': stext, 'T': stext, 'k': st.sampled_from(['0', '1', '2', '3', '4']), 'm': st.sampled_from(['0', '10', '-1', '9999']), 'r': rtok, 'F': st.lists(ptok, min_size = 1, max_size = 3).map(','.join),
              'R': stext, 'h': st.lists(htok, min_size = 1, max_size = 3).map(','.join), 'x': st.sampled_from(['HDR2Xattrs[X-foo]', 'bad']), 'c': stext, 'M': st.sampled_from(['1', '20', 'x'])}.get(o)
            args.append(['-', o, None if v is None else draw(v), True])
    return {'args': args, 'auth': draw(st.booleans()), 'viafile': draw(st.integers(0, 3)) == 0}

SHORT = {'l': 'sip_address', 'p': 'sip_port', 'P': 'pidfile', 'L': 'logfile', 's': 'static_route', 'a': 'accept_ips', 't': 'static_tr_in', 'T': 'static_tr_out', 'm': 'max_credit_time', 'F': 'allowed_pts', 'R': 'radiusclient.conf', 'x': 'pre_auth_proc', 'c': 'b2bua_socket', 'M': 'max_radiusclients'}

def run_args(c, rec):
    """The real command line through main_func() up to the point where services start."""
    import sim
    sim.World()
    import sippy.b2bua as bb
    from sippy.MyConfigParser import MyConfigParser
    mod = Model()
    for k, v in (('digest_auth', 'True'), ('start_acct_enable', 'False'), ('keepalive_ans', '0'), ('keepalive_orig', '0'), ('auth_enable', 'True'), ('acct_enable', 'True'), ('foreground', 'False'), ('pidfile', '/var/run/b2bua.pid'), ('logfile', '/var/log/b2bua.log'), ('b2bua_socket', '/var/run/b2bua.sock')): mod.set(k, v)
    mod.d.update({'_sip_address': 'MY', '_pass_headers': []})
    del mod.d['_sip_address']
    argv, ok = [], True
    for kind, o, v, iok in c['args']:
        if kind == '--':
            if o == 'static_route': v = '192.0.2.5'
            argv.append('--%s=%s' % (o, v))
            ok = ok and iok
            if ok: mod.set(o, v)
            continue
        argv.append('-' + o)
        if v is not None: argv.append(v)
        if not ok: continue
        if o == 'f': mod.v['foreground'] = True
        elif o == 'D': mod.v['digest_auth'] = False
        elif o == 'u': mod.v['auth_enable'] = False
        elif o == 'H': mod.v['hide_call_id'] = True
        elif o == 'A':
            if v == '3': ok = False
            else: mod.v['acct_enable'], mod.v['start_acct_enable'] = v != '0', v == '2'
        elif o == 'k':
            if v == '4': ok = False
            if v in '13': mod.v['keepalive_ans'] = 32
            if v in '23': mod.v['keepalive_orig'] = 32
        elif o == 'r': mod.add('rtp_proxy_client', v)
        elif o == 'h':
            for x in v.split(','): mod.add('pass_header', x)
        else:
            if (o, v) in (('p', '0'), ('p', '70000'), ('m', '0'), ('m', '-1'), ('x', 'bad'), ('M', 'x')): ok = False
            else: mod.set(SHORT[o], v)
    if ok and 'static_route' not in mod.v and not mod.v['auth_enable']: ok = False      # nothing tells where to route
    saved = {k: getattr(bb, k) for k in ('SipLogger', 'daemonize', 'MyConfigParser')}
    insts = []
    class MCP(MyConfigParser):
        def __init__(self, *a, **kw):
            MyConfigParser.__init__(self, *a, **kw)
            insts.append(self)
    def stop(*a, **kw): raise _Done()
    fd, fn = tempfile.mkstemp(prefix = 'c21')
    os.close(fd)
    av = sys.argv
    rec.nt(len(c['args']) > 1)
    rec.cls('valid' if ok else 'invalid')
    err = sys.__stderr__
    try:
        bb.SipLogger, bb.daemonize, bb.MyConfigParser = stop, stop, MCP
        sys.argv = [av[0], '-W', fn] + argv
        sys.__stderr__ = open(os.devnull, 'w')
        try:
            bb.main_func()
        except _Done:
            V(ok, 'invalid command line %r was accepted' % (argv,), 'accepted')
        except (Exception, SystemExit) as e:
            V(not ok, 'command line %r was refused: %r' % (argv, e), 'refused')
            return
        m = insts[0]
        v, d = observe(m)
        mod2 = Model()
        mod2.v, mod2.d = mod.v, dict(mod.d)
        mod2.d.setdefault('_sip_address', 'MY')
        mod2.d.setdefault('_sip_port', d.get('_sip_port'))
        V(int(str(d['_sip_port'])) == mod.v.get('sip_port', 5060), 'port to listen at is %r after %r' % (d['_sip_port'], argv), 'derived')
        mod2.d['_sip_port'] = d['_sip_port']
        same(m, mod2, 'command line %r' % (argv,))
        # the saved configuration is the same configuration
        m2 = MyConfigParser()
        m2.read(fn)
        same(m2, mod, 'saved configuration of %r' % (argv,), False)
        mm = Model()
        for k, x in mod.v.items(): mm.set(k, str(x))
        same(m2, mm, 'saved configuration of %r' % (argv,))
        if c['viafile']:
            # -C file after it gives the same again
            sys.argv = [av[0], '-C', fn]
            rec.cls('via-file')
            del insts[:]
            try: bb.main_func()
            except _Done: pass
            same(insts[0], mod, 'b2bua -C file saved from %r' % (argv,), False)
    finally:
        sys.__stderr__ = err
        sys.argv = av
        for k, v in saved.items(): setattr(bb, k, v)
        os.unlink(fn)

CHECK = Check('C21', 'exploration', [
    Part('set', lambda: scase(), run_set, quick = 700, thorough = 8000, shards = 3, rule = 'several options set, or an invalid value refused'),
    Part('file', lambda: fcase(), run_file, quick = 700, thorough = 8000, shards = 2, rule = 'several options in the file, or an invalid one'),
    Part('args', lambda: acase(), run_args, quick = 700, thorough = 8000, shards = 3, rule = 'several command-line options'),
  ], ['values are single-line texts; white space around a value is not part of it', 'lists are given without empty items'])
