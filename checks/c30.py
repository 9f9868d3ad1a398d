"""C30: requests to external AAA helpers, with real helper processes whose answers the harness times."""
import os, sys, json, socket, select, tempfile, threading, time, shutil
from hypothesis import strategies as st
from core import Check, Part, Violation

WAIT = 20.0
HELPER = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib', 'helper30.py')
AVPAIR = ('call-id', 'h323-session-protocol', 'h323-ivr-out', 'h323-incoming-conf-id', 'release-source', 'alert-timepoint', 'provisional-timepoint')
VSA = ('h323-remote-address', 'h323-conf-id', 'h323-setup-time', 'h323-call-origin', 'h323-call-type', 'h323-connect-time', 'h323-disconnect-time', 'h323-disconnect-cause',
  'h323-voice-quality', 'h323-credit-time', 'h323-return-code', 'h323-redirect-number', 'h323-preferred-lang', 'h323-billing-model', 'h323-currency')
PLAIN = ('User-Name', 'Password', 'Calling-Station-Id', 'Called-Station-Id', 'Acct-Session-Time', 'Digest-URI', 'h323-ivr-in', 'call-idx')

missed = []

def V(cond, msg, key = None):
    if not cond:
        raise Violation(msg, key)

# no line breaks; what separates a name from its value may well be in the value
val = st.one_of(st.text(alphabet = 'abz09 =;:,@#/\'"\\é\t', max_size = 14), st.sampled_from(['', 'x=y', ' = ', "it's", "'", "''", 'sip:1@2', '5', 'AUTH']))
ctl = st.one_of(val, val, val, st.sampled_from(['1\n2', 'a\n\nb', '\r\n', 'x\ny="z', '\n', 'a\r', '\n\nACCT\nUser-Name="z"\n\n']))
attr = st.tuples(st.sampled_from(AVPAIR + VSA + PLAIN + PLAIN), st.one_of(ctl, st.integers(0, 10 ** 6)))
text = st.text(alphabet = 'abz09 =\'"\\é\t', min_size = 1, max_size = 14).filter(lambda x: x.strip() != '')
ans = st.tuples(st.sampled_from(['plain', 'plain', 'vsa', 'pair', 'nopair', 'self', 'bare']), st.sampled_from(PLAIN), st.sampled_from(VSA), st.sampled_from(('h323-ivr-in', 'h323-credit-time', 'foo', 'call-id')), val)
reply = st.fixed_dictionaries({'attrs': st.lists(ans, max_size = 4), 'code': st.sampled_from([0, 0, 0, 1, 2, -1]), 'text': st.lists(text, max_size = 4), 'cut': st.lists(st.integers(1, 30), max_size = 4),
  'noise': st.sampled_from([0, 0, 0, 0, 10, 70000]), 'bad': st.sampled_from([None] * 12 + ['empty', 'noise', 'nocode'])})
op = st.one_of(
  st.tuples(st.just('req'), st.sampled_from(['auth', 'auth', 'acct', 'rauth', 'mute']), st.lists(attr, max_size = 6), st.lists(text, min_size = 1, max_size = 5), st.integers(0, 3)),
  st.tuples(st.just('req'), st.sampled_from(['auth', 'auth', 'acct', 'rauth', 'mute']), st.lists(attr, max_size = 6), st.lists(text, min_size = 1, max_size = 5), st.integers(0, 3)),
  st.tuples(st.just('reply'), st.integers(0, 5), reply),
  st.tuples(st.just('reply'), st.integers(0, 5), reply),
  st.tuples(st.just('cancel'), st.integers(0, 9)),
  st.tuples(st.just('settle')), st.tuples(st.just('run'), st.integers(1, 3)))

def tolist(x): return [tolist(y) for y in x] if isinstance(x, (tuple, list)) else {k: tolist(v) for k, v in x.items()} if isinstance(x, dict) else x

def strategy():
    return st.fixed_dictionaries({'mode': st.sampled_from(['raw', 'radius', 'radius']), 'n': st.sampled_from([1, 1, 2, 3, 4]), 'conf': st.booleans(),
      'ops': st.lists(op, min_size = 3, max_size = 16), 'rest': st.lists(reply, min_size = 1, max_size = 3), 'fail': st.sampled_from([0, 0, 0, 3])}).map(tolist)

class Logger(object):
    def write(self, *a, **k): pass

class Config(dict):
    def getdefault(self, k, d): return self.get(k, d)

class Helpers(object):
    """The other ends of the helper processes."""
    def __init__(self, path):
        self.s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.s.bind(path); self.s.listen(32)
        self.conns = {}            # socket -> buffer
        self.busy = []             # (socket, request), oldest first
        self.seen = []             # every request shown
        self.idle = set()
        self.args = []
        self.over = 0
        self.wrong = []
    def poll(self, t = 0):
        r, _, _ = select.select([self.s] + list(self.conns), [], [], t)
        for x in r:
            if x is self.s:
                c, _ = self.s.accept()
                self.conns[c] = b''
                continue
            try: d = x.recv(65536)
            except OSError: d = b''
            if not d:
                del self.conns[x]; self.idle.discard(x); self.busy = [b for b in self.busy if b[0] is not x]
                x.close(); self.over += 1
                continue
            b = self.conns[x] + d
            while len(b) >= 4 and len(b) >= 4 + int.from_bytes(b[:4], 'big'):
                n = int.from_bytes(b[:4], 'big')
                m, b = b[4:4 + n], b[4 + n:]
                if m.startswith(b'hello '):
                    self.idle.add(x)
                    self.args.append(m.decode().split(' ')[2:])
                else:
                    if x not in self.idle: self.wrong.append('a helper got a request while it was working on another: %r' % m[4:][:80])
                    self.idle.discard(x)
                    self.busy.append((x, m[4:]))
                    self.seen.append(m[4:])
            self.conns[x] = b
        return len(r)
    def answer(self, k, chunks, noise):
        x, q = self.busy.pop(k)
        self.idle.add(x)
        d = json.dumps({'chunks': chunks, 'noise': noise}).encode()
        try: x.sendall(len(d).to_bytes(4, 'big') + d)
        except OSError: pass
        return q
    def close(self):
        for x in list(self.conns): x.close()
        self.s.close()

def run(case, rec):
    import boot, qelp
    elp = qelp.install()
    boot.exceptions[:] = []
    d = tempfile.mkdtemp(prefix = 'c30-')
    h = Helpers(os.path.join(d, 's'))
    ec = []
    try:
        with qelp.watchdog(): _run(case, rec, elp, d, h, ec)
    finally:
        for e in ec: threading.Thread(target = e.shutdown, daemon = True).start()
        h.close()
        shutil.rmtree(d, ignore_errors = True)
        elp.run()

def flat(s): return ''.join(c for c in s if c not in '\r\n')

def expected(kind, attrs):
    """The lines the radius helper is to see, line breaks inside values aside."""
    out = [kind]
    for a, v in attrs:
        if a in AVPAIR: out.append('Cisco-AVPair="%s=%s"' % (a, v))
        elif a in VSA: out.append('%s="%s=%s"' % (a, a, v))
        else: out.append('%s="%s"' % (a, v))
    return out

def squeeze(s):
    return ''.join(s.split())

def _run(case, rec, elp, d, h, ec):
    import boot
    from sippy.External_command import External_command
    from sippy.RadiusAuthorisation import RadiusAuthorisation
    owner = threading.get_ident()
    n = case['n']
    raw = case['mode'] == 'raw'
    wrong = h.wrong
    reqs = []            # dicts in order of submission
    base = [sys.executable, '-S', '-E', HELPER, os.path.join(d, 's')]
    if raw:
        ext = External_command(tuple(base), max_workers = n)
    else:
        # the helper is run with its options appended to the command, so the command is a tiny script
        sh = os.path.join(d, 'radiusclient')
        with open(sh, 'w') as f: f.write('#!/bin/sh\nexec %s -S -E %s %s "$@"\n' % (sys.executable, HELPER, os.path.join(d, 's')))
        os.chmod(sh, 0o700)
        gc = Config({'radiusclient': sh, 'max_radiusclients': n, '_sip_logger': Logger()})
        if case['conf']: gc['radiusclient.conf'] = '/none/x.conf'
        ext = RadiusAuthorisation(gc)
    ec.append(ext)

    def until(cond, what, key):
        end = time.monotonic() + (WAIT if not missed else 3.0)
        while True:
            while h.poll(): pass
            if cond(): return
            if time.monotonic() > end:
                missed.append(1)
                V(False, what() if callable(what) else what, key)
            h.poll(0.002)

    def claim(q):
        """The request this text is for."""
        try: ls = q.decode().split('\n')
        except UnicodeDecodeError: raise Violation('a helper was shown %r' % q, 'request')
        V(ls[-1] == '', 'a helper was shown an incomplete line: %r' % q, 'request')
        ls = ls[:-1]
        found = [r for r in reqs if any(('id-%d-' % r['id']) in l for l in ls)]
        V(len(found) == 1, 'a helper was shown %r, which is no request that was made' % ls, 'request')
        r = found[0]
        w = r['lines']
        ok = len(ls) == len(w) and all((a == b if '\n' not in b and '\r' not in b else squeeze(a) == squeeze(b)) for a, b in zip(ls, w))
        V(ok, 'request %d reached the helper as %r, made was %r' % (r['id'], ls, w), 'request')
        V(not r['seen'], 'request %d was given to helpers twice' % r['id'], 'twice')
        V(not r['gone'], 'request %d was cancelled before it was started, and yet executed' % r['id'], 'cancelled')
        r['seen'] = True
        return r
    fed = [0]
    def feed():
        while fed[0] < len(h.seen):
            claim(h.seen[fed[0]]); fed[0] += 1
    def outstanding(): return [r for r in reqs if not r['seen'] and not r['cancel']]
    def settle():
        until(lambda: len(h.args) == n, lambda: 'only %d of %d helpers were started' % (len(h.args), n), 'start')
        def done():
            feed()
            return len(h.idle) == 0 or not outstanding()
        until(done, lambda: '%d requests wait while %d helpers are idle' % (len(outstanding()), len(h.idle)), 'stuck')
        V(not wrong, '%s' % wrong[:2], 'mixed')

    def callback(result, rid, *params):
        r = reqs[rid]
        r['results'].append((result, params))
        if threading.get_ident() != owner: wrong.append('a result was reported from another thread')
        if case['fail'] and rid % 3 == 0: raise ValueError('callback failed')

    def do_reply(k, rp):
        feed()
        r = [x for x in reqs if ('id-%d-' % x['id']).encode() in h.busy[k][1]][0]
        if raw:
            lines = list(rp['text'])
            want = tuple(l.strip().encode() for l in lines)
        else:
            lines, want = [], []
            for form, pl, vsa, nm, v in rp['attrs']:
                if form == 'plain' and not v.startswith(pl + '='): lines.append("%s = '%s'" % (pl, v)); want.append((pl, v))
                elif form == 'vsa': lines.append("%s = '%s=%s'" % (vsa, vsa, v)); want.append((vsa, v))
                elif form == 'pair': lines.append("Cisco-AVPair = '%s=%s'" % (nm, v)); want.append((nm, v))
                elif form == 'nopair' and '=' not in v: lines.append("Cisco-AVPair = '%s'" % v); want.append(('Cisco-AVPair', v))
                elif form == 'self': lines.append("%s = '%s=%s'" % (pl, pl, v)); want.append((pl, v))
                elif form == 'bare' and v.strip() == v and v and v[0] != "'" and not v.startswith(pl + '='): lines.append('%s = %s' % (pl, v)); want.append((pl, v))
            lines.append(str(rp['code']))
            want = (tuple(want), rp['code'])
            if rp['bad']:
                lines = {'empty': [], 'noise': ['what a mess'] + lines, 'nocode': lines[:-1] + ['oops']}[rp['bad']]
                want = None
                rec.cls('bad-reply')
        # (the reply is cut by bytes, as a pipe may cut it)
        t = ''.join(l + '\n' for l in lines) + '\n'
        t = t.encode('utf-8').decode('latin-1')
        chunks = []
        for c in rp['cut']:
            chunks.append(t[:c]); t = t[c:]
        chunks.append(t)
        r['want'] = want; r['answered'] = True
        h.answer(k, [c for c in chunks if c], rp['noise'])
        if rp['noise'] > 60000: rec.cls('noisy')

    for o in case['ops']:
        k = o[0]
        if k == 'req':
            rid = len(reqs)
            r = {'id': rid, 'seen': False, 'gone': False, 'cancel': False, 'results': [], 'answered': False, 'want': None, 'params': tuple('p%d.%d' % (rid, i) for i in range(o[4]))}
            reqs.append(r)
            tag = 'id-%d-' % rid
            if raw:
                r['lines'] = [tag + x for x in o[3]]
                r['cb'] = True
                r['wi'] = ext.process_command([l.encode() for l in r['lines']] if o[1] == 'mute' else list(r['lines']), callback, rid, *r['params'])
            else:
                attrs = [('User-Name', tag)] + [tuple(a) for a in o[2]]
                if o[1] == 'acct' or o[1] == 'mute':
                    r['lines'] = expected('ACCT', attrs)
                    r['cb'] = o[1] == 'acct'
                    if r['cb']: ext.do_acct(attrs, callback, rid, *r['params'])
                    else: ext.do_acct(attrs)
                    r['wi'] = None
                elif o[1] == 'auth':
                    from sippy.Radius_client import Radius_client
                    r['lines'] = expected('AUTH', attrs)
                    r['cb'] = True
                    r['wi'] = Radius_client.do_auth(ext, attrs, callback, rid, *r['params'])
                else:
                    vs = [str(a[1]) for a in o[2]] + ['', '']
                    extra = [tuple(a) for a in o[2]]
                    dg = len(o[2]) % 2 == 1
                    r['params'] = ()
                    r['cb'] = True
                    cid = tag + 'c'
                    full = ([('User-Name', 'bob'), ('Digest-Realm', 'r'), ('Digest-Nonce', 'n'), ('Digest-Method', 'INVITE'), ('Digest-URI', 'sip:u'), ('Digest-Algorithm', 'MD5'), ('Digest-User-Name', 'bob'), ('Digest-Response', '0f')] if dg else [('User-Name', '192.0.2.1'), ('Password', 'cisco')]) \
                      + [('Calling-Station-Id', vs[0]), ('Called-Station-Id', vs[1]), ('call-id', cid), ('h323-remote-address', '192.0.2.1'), ('h323-session-protocol', 'sipv2')] + extra
                    r['lines'] = expected('AUTH', full)
                    cb = (lambda rid: lambda res: callback(res, rid))(rid)
                    r['wi'] = ext.do_auth('bob', vs[0], vs[1], cid, '192.0.2.1', cb, *(['r', 'n', 'sip:u', '0f'] if dg else []), extra_attributes = extra or None)
                    V(r['wi'] is not None, 'an authorisation request cannot be cancelled: nothing to cancel it with is returned', 'cancel')
                    rec.cls('rauth')
                if any(c in l for l in r['lines'] for c in '\r\n'): rec.cls('line break in value')
        elif k == 'reply':
            settle()
            if h.busy: do_reply(o[1] % len(h.busy), o[2])
        elif k == 'cancel':
            cand = [r for r in reqs if r['wi'] is not None and not r['cancel'] and not r['answered']]
            if not cand: continue
            r = cand[-1 - o[1] % len(cand)]
            settle()
            # all helpers are busy with others now, if this one was not shown yet
            if not r['seen']: r['gone'] = True; rec.cls('cancel-queued')
            else: rec.cls('cancel-started')
            r['cancel'] = True
            r['wi'].cancel()
        elif k == 'settle': settle()
        elif k == 'run': elp.run(o[1])
    settle()
    if len(h.busy) >= 2: rec.cls('parallel')
    # shutdown is asked for while requests are queued: they are served, then all helpers end
    ext.shutdown(); del ec[:]
    rest = case['rest']
    i = 0
    while True:
        until(lambda: feed() or h.busy or not outstanding(), lambda: '%d requests made before the shutdown are not served' % len(outstanding()), 'stuck')
        if not h.busy: break
        do_reply(i % len(h.busy), rest[i % len(rest)])
        i += 1
    until(lambda: h.over == n, lambda: '%d of %d helpers ended after the shutdown' % (h.over, n), 'shutdown')
    feed()
    def reported():
        elp.run()
        return all(r['results'] or not r['cb'] or not r['answered'] or r['cancel'] for r in reqs)
    until(reported, lambda: 'no result is reported for request(s) %s: %s' % ([r['id'] for r in reqs if not r['results']], [str(e)[:80] for e in boot.exceptions][:2]), 'no-result')
    time.sleep(0.001)
    elp.run()
    for r in reqs:
        if not r['cb']: continue
        V(len(r['results']) <= 1, 'request %d is reported %d times' % (r['id'], len(r['results'])), 'twice')
        if r['gone']: V(not r['results'], 'request %d was cancelled before it was started, and yet reported' % r['id'], 'cancelled')
        for res, params in r['results']:
            V(params == r['params'], 'the result of request %d comes with parameters %r instead of %r' % (r['id'], params, r['params']), 'params')
            if r['want'] is not None: V(res == r['want'], 'request %d: reported is %r, answered was %r' % (r['id'], res, r['want']), 'result')
            else: V(len(res) == 2 and res[1] not in (0, 1), 'request %d: a garbled answer is reported as %r' % (r['id'], res), 'garbled')
    if not raw:
        for a in h.args: V(a == (['-f', '/none/x.conf', '-s'] if case['conf'] else ['-s']), 'helper started with %r' % a, 'args')
    V(not wrong, '%s' % wrong[:2], 'mixed')
    rec.nt(len([r for r in reqs if r['answered']]) >= 2)
    rec.cls(case['mode'], 'helpers:%d' % n)

CHECK = Check('C30', 'exploration', [
  Part('helpers', strategy, run, quick = 250, thorough = 2500, shards = 8, boot = 'real', rule = 'at least two requests were executed by helpers'),
])
