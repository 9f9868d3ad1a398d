"""C20: number translation rules and attribute transforms against independent readings."""
import re
from hypothesis import strategies as st
from core import Check, Part, Violation
import wire

def V(cond, msg, key = None):
    if not cond:
        raise Violation(msg, key)

PATS = ['^0', '^00', '^\\+', '1', '12', '[0-9]', '^(\\d{2})(\\d*)$', '(\\d)(\\d)', '$', '^', 'a*', '^1?2', '(?:3|4)5', '.', '^011(.*)', 'x', '\\D', '^(.)(.*)$', '\\*', 'b+', ';', ';s', 'g']
REPS = ['', '9', '44', '\\1', '\\2\\1', '+\\1', '0\\g<0>', 'sip', 'g', '001', '*', ';', ' ']
num = st.text('0123456789+*#ab;gx', max_size = 10)

@st.composite
def case(draw):
    rules = []
    for _ in range(draw(st.integers(1, 4))):
        p = draw(st.sampled_from(PATS))
        r = draw(st.sampled_from(REPS))
        n = re.compile(p).groups
        if ('\\1' in r and n < 1) or ('\\2' in r and n < 2): r = '7'
        rules.append([draw(st.sampled_from(['s', 's', 's', ' s'])), p, r, draw(st.sampled_from(['', '', 'g', 'g', 'G', ' ']))])
    return {'rules': rules, 's': draw(num)}

def run(c, rec):
    from sippy.b2bua import re_replace
    text = ';'.join('%s/%s/%s/%s' % tuple(x) for x in c['rules'])
    want = c['s'].split('#')[0]
    hits = 0
    for op, p, r, m in c['rules']:
        want, n = re.compile(p).subn(r, want, count = 0 if m.strip().lower() == 'g' else 1)
        hits += n > 0
    got = re_replace(text, c['s'])
    rec.nt(hits > 0)
    rec.cls('rules:%d' % len(c['rules']), 'hits:%d' % hits)
    V(got == want, 'rule %r turns %r into %r, expected %r' % (text, c['s'], got, want), 'translate')
    # a chain equals its rules applied one after the other
    x = c['s']
    for q in c['rules']:
        x = re_replace('%s/%s/%s/%s' % tuple(q), x) if '#' not in x or x is c['s'] else x
    if '#' not in want and not any('#' in q[2] for q in c['rules']):
        V(x == got, 'rule %r turns %r into %r, its parts one by one into %r' % (text, c['s'], got, x), 'chain')

key = st.text('abcXYZ019-_', min_size = 1, max_size = 6)
val = st.text('abcXYZ019-_=:/ .@"', min_size = 1, max_size = 6).map(str.strip).filter(bool)

@st.composite
def hcase(draw):
    name = draw(st.sampled_from(['X-foo-hdr', 'x-foo-hdr', 'X-FOO-HDR', 'Subject']))
    hs = draw(st.lists(st.tuples(st.sampled_from(['X-foo-hdr', 'X-Foo-Hdr', 'x-foo-hdr', 'X-Other', 'Subject']), st.lists(st.one_of(st.tuples(key, val), st.tuples(key, val), st.tuples(key, st.just('')), st.tuples(key, st.none())).map(list), min_size = 1, max_size = 3)).map(list), max_size = 4))
    return {'name': name, 'hs': hs, 'pre': draw(st.one_of(st.none(), st.lists(st.tuples(key, val).map(list), max_size = 2)))}

class CC(object):
    extra_attributes = None
    acctA = None
    acctO = None

def run_hdr(c, rec):
    from sippy.B2B.Transforms import getTransProc
    from sippy.SipRequest import SipRequest
    hs = [(n, ';'.join(k if v is None else '%s=%s' % (k, v) for k, v in ps)) for n, ps in c['hs']]
    req = SipRequest(wire.request('INVITE', 'sip:a@b', 'SIP/2.0/UDP h;branch=z9hG4bK1', '<sip:a@b>;tag=1', '<sip:c@d>', 'cid', 1, hs))
    before = str(req)
    want = [(k, v) for n, ps in c['hs'] if n.lower() == c['name'].lower() for k, v in ps if v]
    rec.nt(len(want) > 0)
    cc = CC()
    if c['pre'] is not None: cc.extra_attributes = [tuple(x) for x in c['pre']]
    pre = list(cc.extra_attributes or [])
    getTransProc('HDR2Xattrs[%s]' % c['name'])(cc, req)
    got = [tuple(x) for x in cc.extra_attributes or []]
    V(got == pre + want, 'HDR2Xattrs[%s] on %r gives %r, expected %r' % (c['name'], hs, got, pre + want), 'hdr')
    V(str(req) == before, 'the request was changed', 'hdr')

@st.composite
def vcase(draw):
    k2 = st.sampled_from(['a', 'b', 'h323-foo', 'x-attr'])
    v2 = st.one_of(st.sampled_from(['1', '2']), st.text('abc019=.:/; -', min_size = 1, max_size = 5).map(str.strip).filter(bool))
    return {'cls': draw(st.sampled_from(['VAL2Xattrs', 'VAL2XattrsA', 'VAL2XattrsO', 'Nop'])), 'pairs': draw(st.lists(st.tuples(k2, v2).map(list), min_size = 1, max_size = 4)),
      'haveA': draw(st.sampled_from([True, True, False])), 'haveO': draw(st.sampled_from([True, True, False])), 'times': draw(st.integers(1, 2)), 'bad': draw(st.sampled_from([None, None, None, 'nobr', 'noend', 'unk', 'noval', 'empty', 'sp']))}

def run_val(c, rec):
    from sippy.B2B.Transforms import getTransProc
    from sippy.RadiusAccounting import RadiusAccounting
    arg = ','.join('%s=%s' % tuple(x) for x in c['pairs'])
    spec = '%s[%s]' % (c['cls'], arg)
    rec.cls(c['cls'] if c['bad'] is None else 'bad:' + c['bad'])
    rec.nt()
    if c['bad'] is not None:
        spec = {'nobr': c['cls'] + arg, 'noend': spec[:-1], 'unk': 'NoSuch' + spec, 'noval': 'VAL2Xattrs[%s,x]' % arg, 'empty': 'VAL2Xattrs[]', 'sp': ''}[c['bad']]
        try:
            getTransProc(spec)
        except Exception:
            return
        raise Violation('malformed specification %r was accepted' % spec, 'badspec')
    sent = []
    class RC(object):
        def do_acct(self, attributes, *a):
            sent.append([tuple(x) for x in attributes])
    class L(object):
        def write(self, *a, **k): pass
    def mk(origin):
        a = RadiusAccounting({'_radius_client': RC(), '_sip_logger': L()}, origin)
        a.setParams('u', '1', '2', 'cid', '1.2.3.4')
        return a
    class UA(object):
        remote_ua = p1xx_ts = p100_ts = None
        def getAcct(self): return (1.0, 2.0, True, False)
    import sim
    from sippy.Time.MonoTime import MonoTime
    sim.World()
    UA.setup_ts = MonoTime()
    UA.connect_ts = MonoTime()
    cc = CC()
    if c['haveA']: cc.acctA = mk('answer')
    if c['haveO']: cc.acctO = mk('originate')
    p = getTransProc(spec)
    for _ in range(c['times']): p(cc, None)
    for leg, acct, on in (('A', cc.acctA, c['cls'] in ('VAL2Xattrs', 'VAL2XattrsA')), ('O', cc.acctO, c['cls'] in ('VAL2Xattrs', 'VAL2XattrsO'))):
        if acct is None: continue
        base = mk(acct.origin)
        del sent[:]
        base.disc(UA(), UA.connect_ts, 'caller', 0)
        acct.disc(UA(), UA.connect_ts, 'caller', 0)
        extra, rest = [], list(sent[1])
        b = list(sent[0])
        for x in rest:
            if b and x == b[0]: b.pop(0)
            else: extra.append(x)
        want = []
        if on:
            for x in c['pairs']:
                if tuple(x) not in want: want.append(tuple(x))
        V(extra == want and not b, '%s: leg %s accounts %r in addition, expected %r' % (spec, leg, extra, want), 'val')

CHECK = Check('C20', 'exploration', [
    Part('translate', lambda: case(), run, quick = 2500, thorough = 30000, shards = 4, rule = 'at least one rule of the chain matches'),
    Part('hdr', lambda: hcase(), run_hdr, quick = 800, thorough = 8000, shards = 2, rule = 'the named header holds at least one pair'),
    Part('val', lambda: vcase(), run_val, quick = 800, thorough = 8000, shards = 2, rule = 'every case'),
  ], ['regular expressions mean what Python\'s re module says', 'no "/" inside a pattern or replacement (the notation has no escape for it)', 'no white space around ";" or "=" in attribute headers'])
