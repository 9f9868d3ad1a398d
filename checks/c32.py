"""C32: an RTP endpoint against a recording RTP server, and against real loopback sockets."""
import errno, gc, json, os, random, socket, time, traceback
from hypothesis import strategies as st
from core import Check, Part, Violation, Inconclusive

def V(cond, msg, key = None):
    if not cond:
        raise Violation(msg, key)

# hosts by meaning, with the ways to write them
H4 = [['192.0.2.10', '[192.0.2.10]'], ['192.0.2.11'], ['198.51.100.7', '[198.51.100.7]'], ['127.0.0.1']]
H6 = [['2001:db8::a', '2001:DB8::A', '2001:db8:0:0:0:0:0:a', '[2001:db8::a]', '[2001:0db8:0000::000A]'],
      ['2001:db8::b', '2001:db8:0::b', '[2001:DB8:0:0::B]'],
      ['::1', '0:0:0:0:0:0:0:1', '[::1]', '0000:0000:0000:0000:0000:0000:0000:0001'],
      ['2001:db8::1:0:0:1', '2001:db8:0:0:1:0:0:1', '[2001:DB8:0:0:1::1]']]
PORTS = [4000, 4002, 40000, 9]
PTIMES = [10, 20, 30, 40]

def hosts(fam): return H4 if fam == 4 else H6
def meaning(fam, t): return None if t is None else (hosts(fam)[t[0] % 4][0], PORTS[t[2] % 4])
def spelled(fam, t):
    if t is None: return None
    h = hosts(fam)[t[0] % 4]
    p = PORTS[t[2] % 4]
    return (h[t[1] % len(h)], str(p) if t[3] else p)

small = st.integers(0, 3)
target = st.one_of(st.none(), st.tuples(small, st.integers(0, 4), small, st.booleans()).map(list), st.tuples(small, st.integers(0, 4), small, st.booleans()).map(list), st.tuples(small, st.integers(0, 4), small, st.booleans()).map(list))
params = st.fixed_dictionaries({'fam': st.sampled_from([4, 4, 6]), 't': target, 'pt': small, 'co': st.integers(0, 1), 'sr': st.sampled_from([8000, 16000]), 'low': st.booleans(), 'lport': st.sampled_from([0, 0, 0, 0, 30000, 30002])})
ep = st.integers(0, 1)
keep = st.sampled_from(['fam', 't', 'pt', 'co'])
op = st.one_of(
    st.tuples(st.just('new'), ep, params),
    st.tuples(st.just('upd'), ep, params),
    st.tuples(st.just('upd'), ep, params),
    st.tuples(st.just('mod'), ep, st.lists(keep, min_size = 1, max_size = 2, unique = True), params),
    st.tuples(st.just('mod'), ep, st.lists(keep, min_size = 1, max_size = 2, unique = True), params),
    st.tuples(st.just('say'), ep, st.integers(1, 3)),
    st.tuples(st.just('in'), ep, target, st.integers(0, 2), st.booleans()),
    st.tuples(st.just('in'), ep, target, st.integers(0, 2), st.booleans()),
    st.tuples(st.just('busy'), ep),
    st.tuples(st.just('fault'), st.sampled_from(['EMFILE', 'EADDRNOTAVAIL', 'EADDRINUSE', 'EADDRINUSE', 'target']), st.integers(1, 3)),
    st.tuples(st.just('shut'), ep), st.tuples(st.just('del'), ep)).map(list)

@st.composite
def strategy(draw):
    ops = draw(st.lists(op, min_size = 3, max_size = 24))
    lo = draw(st.sampled_from([1024, 10000, 10001, 35000, 65000]))
    return {'range': [lo, min(65535, lo + draw(st.sampled_from([8, 9, 40, 1001])))], 'first': draw(params), 'ops': ops, 'race': draw(st.booleans())}

class FakeChannel(object):
    def __init__(self, srv, pkt_in, host, port, family):
        self.srv, self.pkt_in, self.host, self.port, self.family = srv, pkt_in, host, port, family
        self.closed, self.target = False, None
        self.local_addr = (host, port)
    def set_target(self, host, port):
        if self.closed: raise RuntimeError('channel is closed')
        w = self.srv.w
        if w.fault is not None and w.fault[0] == 'target':
            w.fault = None
            w.hit = True
            raise OSError('getaddrinfo failed: scripted')
        try: socket.inet_pton(self.family, host)
        except OSError: raise OSError('getaddrinfo failed: Address family for hostname not supported')
        self.target = (host, int(port))
    def send_pkt(self, pkt):
        if self.closed: raise RuntimeError('channel is closed')
        if self.target is None: raise RuntimeError('channel target is not set')
        self.srv.w.sent.append((self, self.target, bytes(pkt)))
    def close(self):
        if self.closed: raise RuntimeError('channel is already closed')
        self.closed = True

class World(object):
    def __init__(self):
        self.servers, self.channels, self.sent, self.writers, self.heard = [], [], [], [], []
        self.fault, self.busy, self.race, self.hit = None, set(), False, False
    def opened(self): return [c for c in self.channels if not c.closed]

def world_classes(w):
    class Server(object):
        def __init__(self):
            self.w, self.down = w, False
            w.servers.append(self)
        def create_channel(self, pkt_in = None, bind_host = None, bind_port = 0, bind_family = None, **kw):
            if self.down: raise RuntimeError('server is down')
            if w.fault is not None and w.fault[0] != 'target':
                name, n = w.fault
                w.hit = True
                if name == 'EADDRINUSE' and n > 1: w.fault[1] = n - 1
                else: w.fault = None
                raise OSError(getattr(errno, name), name)
            try: socket.inet_pton(bind_family, bind_host)
            except OSError: raise OSError('getaddrinfo failed: Address family for hostname not supported')
            if (bind_family, bind_port) in w.busy or any(c.family == bind_family and c.port == bind_port for c in w.opened()):
                raise OSError(errno.EADDRINUSE, 'Address already in use')
            c = FakeChannel(self, pkt_in, bind_host, bind_port, bind_family)
            w.channels.append(c)
            return c
        def shutdown(self):
            V(not self.down, 'server shut down twice', 'server')
            self.down = True
    class Writer(object):
        send = None
        def __init__(self, rp):
            self.codec, self.ptime = rp.codec, rp.out_ptime
            self.q, self.started, self.over, self.gone = [], False, False, False
            w.writers.append(self)
        def set_pkt_send_f(self, f): self.send = f
        def enable_datalog(self, f): pass
        def start(self): self.started = True
        def ended(self): return self.over
        def end(self):
            # the pacing thread may be in the middle of a packet when it is told to stop
            if w.race and self.q and not self.over: self.out(1)
            self.over = True
        def join(self, timeout = None):
            if w.race and self.q and not self.gone: self.out(1)
            self.gone = True
        def soundout(self, chunk):
            self.q.append(chunk)
            return (len(self.q), False)
        def out(self, n = None):
            n = len(self.q) if n is None else n
            for c in self.q[:n]: self.send(c)
            self.q = self.q[n:]
        @property
        def live(self): return self.started and not self.gone
    class Stream(object):
        def __init__(self, rp, audio_in): self.audio_in = audio_in
        def rtp_received(self, data, address, rtime): w.heard.append(bytes(data))
        def stream_update(self): pass
        def stream_connect(self, audio_in): self.audio_in = audio_in
    return Server, Writer, Stream

class Chunk(bytes):
    nframes, audio, debug = 160, b'x', False

def l4r(host, family = socket.AF_INET):
    """Stand-in for misc.local4remote(): which local address leads there."""
    if family == socket.AF_INET:
        try: socket.inet_pton(family, host)
        except OSError: raise socket.gaierror(-9, 'Address family for hostname not supported')
        return '127.0.0.1' if host.startswith('127.') else '192.0.2.2'
    try: b = socket.inet_pton(family, host)
    except OSError: raise socket.gaierror(-9, 'Address family for hostname not supported')
    return '[::1]' if b == b'\0' * 15 + b'\1' else '[2001:db8::2]'

def mkparams(P, c):
    from sippy.Rtp.Codecs.G711 import G711Codec
    from sippy.Rtp.Codecs.G722 import G722Codec
    proto = 'IP4' if c['fam'] == 4 else 'IP6'
    p = P(spelled(c['fam'], c['t']), out_ptime = PTIMES[c['pt']], out_sr = c['sr'], rtp_proto = proto.lower() if c['low'] else proto)
    p.codec = (G711Codec, G722Codec)[c['co']]
    return p

def reraise(ex): raise ex

def sut(what, f, *a):
    """Errors of the stand-ins are errors of their use."""
    try: return f(*a)
    except Violation: raise
    except Exception as ex:
        raise Violation('%s: unexpected %r: %s' % (what, ex, ''.join(traceback.format_tb(ex.__traceback__)[-5:])), 'exc')

class Ep(object):
    ep = obj = chan = None
    broken = dead = False
    want = None

def run(case, rec):
    random.seed(json.dumps(case, sort_keys = True))
    import sippy.misc, sippy.Rtp.Params as M, sippy.Rtp.Singletons as S
    saved = sippy.misc.local4remote, getattr(M, 'local4remote', None)
    sippy.misc.local4remote = l4r
    if saved[1] is not None: M.local4remote = l4r
    w = World()
    eps = [Ep(), Ep()]
    try:
        drive(case, rec, w, eps)
        for e in eps:
            if e.ep is not None:
                w.fault = None
                sut('shutdown', e.ep.shutdown)
            e.ep = None
        gc.collect()
        V(not w.opened(), 'sockets left open after every endpoint was shut down: %s' % [c.local_addr for c in w.opened()], 'leak')
        V(not [x for x in w.writers if x.live], 'a writer is left running after every endpoint was shut down', 'leak')
        V(all(s.down for s in w.servers), 'the RTP server is left running after the last endpoint is gone', 'leak')
    finally:
        w.race, w.fault = False, None
        sippy.misc.local4remote = saved[0]
        if saved[1] is not None: M.local4remote = saved[1]
        for e in eps:
            if e.ep is not None:
                try: e.ep.shutdown()
                except Exception: pass
            e.ep = None
        gc.collect()
        S._rtp_server_singleton, S._rtp_server_refcount = None, 0

def drive(case, rec, w, eps):
    from sippy.Rtp.EPoint import RTPEPoint
    from sippy.Rtp.Params import RTPParams
    from sippy.Rtp.Conf import RTPConf
    from sippy.Rtp.Handlers import RTPHandlers
    Server, Writer, Stream = world_classes(w)
    h = RTPHandlers()
    h.rtp_server_cls, h.writer_cls, h.rtp_instream_cls = Server, Writer, Stream
    lo, hi = case['range']
    rc = RTPConf(lo, hi)
    w.race = case['race']
    ser = [0]
    nupd = nfam = 0
    def tag(n):
        ser[0] += 1
        return b'%s-%d' % (n, ser[0])
    def af(c): return socket.AF_INET if c['fam'] == 4 else socket.AF_INET6
    def checkports(e, c):
        lp = c.port
        if e.first['lport']: return
        V(lp % 2 == 0 and lo <= lp <= hi, 'port %d outside of even ports in %d..%d' % (lp, lo, hi), 'port')
    def settle(e, prev, before, what):
        """After a successful constructor or update: one socket of the right kind."""
        mine = [c for c in w.opened() if not any(o is not e and o.chan is c for o in eps)]
        V(len(mine) == 1, '%s: endpoint has %d open sockets' % (what, len(mine)), 'sockets')
        c = mine[0]
        V(c.family == af(e.want), '%s: socket family does not match %s' % (what, e.want['fam']), 'family')
        if prev is not None:
            free = (c.family, prev.port) not in before
            if prev.family == c.family:
                V(c.port == prev.port, '%s: local port moved %d -> %d with no family change' % (what, prev.port, c.port), 'port')
            elif free:
                V(c.port == prev.port, '%s: local port moved %d -> %d though it was free in the new family' % (what, prev.port, c.port), 'port')
        if prev is None or c.port != prev.port:
            if prev is None and e.first['lport']: V(c.port == e.first['lport'], '%s: bound to %d, asked for %d' % (what, c.port, e.first['lport']), 'port')
            checkports(e, c)
        e.chan = c
        V(int(e.ep.rtp_params.rtp_lport) == c.port, '%s: endpoint says its port is %s, it is %d' % (what, e.ep.rtp_params.rtp_lport, c.port), 'port')
    def probe(e, what, n = 1):
        """Say something and see where it goes."""
        if e.ep is None: return
        t = None if e.dead else meaning(e.want['fam'], e.want['t'])
        live = [x for x in w.writers if x.live and x.owner is e]
        V(len(live) <= 1, '%s: %d writers are running' % (what, len(live)), 'writers')
        at = len(w.sent)
        tags = [tag(b'a') for _ in range(n)]
        for x in tags: sut(what, e.ep.soundout, Chunk(x))
        for x in live: sut(what, x.out)
        got = w.sent[at:]
        if t is None or e.broken:
            # a failed update leaves the endpoint silent, as it was, or as it was to be
            ok = [t, meaning(e.prev['fam'], e.prev['t'])] if e.broken else []
            V(all(norm(g[1]) in ok for g in got), '%s: audio sent to %s, current target is %s' % (what, got and got[0][1], t), 'target')
            return
        for c, to, pkt in got:
            V(norm(to) == t, '%s: audio sent to %s, current target is %s' % (what, to, t), 'target')
            V(c is e.chan, '%s: audio sent from another socket' % what, 'target')
        V([g[2] for g in got][-n:] == tags, '%s: %d chunks were queued, %s was sent' % (what, n, [g[2] for g in got]), 'lost')
        x = live[0]
        V(x.ptime == PTIMES[e.want['pt']], '%s: packets of %s ms, configured are %s ms' % (what, x.ptime, PTIMES[e.want['pt']]), 'ptime')
        V(x.codec.__name__ == ('G711Codec', 'G722Codec')[e.want['co']], '%s: audio is encoded with %s after switching codecs' % (what, x.codec.__name__), 'codec')
    def adopt(e):
        for x in w.writers:
            if getattr(x, 'owner', None) is None: x.owner = e
    for o in [['new', 0, case['first']]] + case['ops']:
        k = o[0]
        if k == 'fault':
            w.fault = [o[1], o[2]]
            continue
        e = eps[o[1]]
        if k != 'new' and e.ep is None: e = eps[1 - o[1]]
        what = '%s %s' % (k, o[2:])
        if k == 'new':
            if e.ep is not None: continue
            c = o[2]
            if c['lport'] and c['lport'] in [x.port for x in w.opened()] + [x[1] for x in w.busy]: continue
            e = eps[o[1]] = Ep()
            e.want = e.first = c
            p = mkparams(RTPParams, c)
            p.rtp_lport = c['lport']
            w.hit = False
            before = set(w.opened())
            try:
                e.ep = RTPEPoint(rc, p, lambda chunk: None, handlers = h)
            except Exception as ex:
                if not w.hit and 'PortAllocation' not in type(ex).__name__: sut(what, reraise, ex)
                w.fault = None
                del ex
                gc.collect()
                V(set(w.opened()) == before, 'an endpoint that failed to start leaves a socket behind', 'leak')
                adopt(e)
                V(not [x for x in w.writers if x.live and x.owner is e], 'an endpoint that failed to start leaves a writer behind', 'leak')
                e.ep = None
                rec.cls('start failed')
                continue
            adopt(e)
            settle(e, None, set(), what)
            probe(e, what)
            continue
        if e.ep is None: continue
        if k in ('upd', 'mod'):
            if k == 'upd': c = dict(o[2])
            else:
                c = dict(e.want)
                for f in o[2]: c[f] = o[3][f]
            old = dict(e.want)
            p = mkparams(RTPParams, c)
            prev = e.chan
            pending = []
            live = [x for x in w.writers if x.live and x.owner is e]
            same = all(c[f] == old[f] for f in ('fam', 'pt', 'co')) and c['t'] is not None and old['t'] is not None
            if same and not e.broken and not e.dead:
                pending = [tag(b'q')]
                e.ep.soundout(Chunk(pending[0]))
            before = {(x.family, x.port) for x in w.opened()} | set(w.busy)
            if not e.broken: e.prev = old
            e.want = c
            w.hit = False
            at = len(w.sent)
            try:
                e.ep.update(p)
            except Exception as ex:
                if not w.hit and 'PortAllocation' not in type(ex).__name__: sut(what, reraise, ex)
                w.fault = None
                e.broken = True
                rec.cls('update failed')
                adopt(e)
                probe(e, what + ' (failed)')
                continue
            hit = w.hit
            adopt(e)
            nupd += 1
            if e.dead:
                V(not [x for x in w.writers if x.live and x.owner is e], '%s after shutdown: a writer is running' % what, 'leak')
                V(not [x for x in w.opened() if not any(q is not e and q.chan is x for q in eps)], '%s after shutdown: a socket is open' % what, 'leak')
                continue
            if c['fam'] != old['fam']: nfam += 1; rec.cls('family')
            if hit or e.broken: settle_any(e, w, eps, af, what)
            else: settle(e, prev, before, what)
            e.broken = False
            if e.chan is not prev: V(prev.closed, '%s: the previous socket stays open' % what, 'leak')
            if pending:
                at = len(w.sent)
                for x in w.writers:
                    if x.live and x.owner is e: sut(what, x.out)
                V([g[2] for g in w.sent[at:]] == pending, '%s: audio queued before a mere change of target is lost' % what, 'lost')
                V(norm(w.sent[at][1]) == meaning(c['fam'], c['t']), '%s: queued audio sent to %s' % (what, w.sent[at][1]), 'target')
            probe(e, what)
            if c['co'] != old['co']: rec.cls('codec')
            if c['pt'] != old['pt']: rec.cls('ptime')
            if (c['t'] is None) != (old['t'] is None): rec.cls('hold')
        elif k == 'say': probe(e, what, o[2])
        elif k == 'in':
            if e.dead: continue
            fam = e.want['fam']
            t = meaning(fam, e.want['t'])
            src = o[2] if o[2] is not None else e.want['t']
            if src is None: continue
            if o[3] == 0 and e.want['t'] is not None: src = [e.want['t'][0], src[1], e.want['t'][2], False]
            m, a = meaning(fam, src), spelled(fam, src[:3] + [False])
            if fam == 6 and o[4]: a = a + (0, 0)
            data = tag(b'in')
            ch = e.chan
            if e.broken or ch.closed: continue
            at = len(w.heard)
            sut(what, ch.pkt_in, data, a, 1000000000)
            got = data in w.heard[at:]
            if t is not None:
                V(got == (m == t), 'packet from %s %s, current target is %s' % (a, 'accepted' if got else 'refused', t), 'source')
                rec.cls('in-right' if m == t else 'in-wrong')
        elif k == 'busy':
            if e.chan is None or e.dead: continue
            w.busy.add((socket.AF_INET6 if e.want['fam'] == 4 else socket.AF_INET, e.chan.port))
        elif k in ('shut', 'del'):
            at = len(w.sent)
            if k == 'shut':
                if not e.dead and e.want['t'] is not None and not e.broken: e.ep.soundout(Chunk(tag(b'z')))
                sut(what, e.ep.shutdown)
            else:
                e.ep = None
                gc.collect()
            t = meaning(e.want['fam'], e.want['t'])
            V(e.broken or all(norm(g[1]) == t for g in w.sent[at:]), '%s: audio sent to %s' % (what, w.sent[at:]), 'target')
            V(e.chan is None or e.chan.closed, '%s: socket stays open' % what, 'leak')
            V(not [x for x in w.writers if x.live and x.owner is e], '%s: writer is left running' % what, 'leak')
            e.chan, e.dead = None, True
            rec.cls(k)
            if e.ep is not None: probe(e, what)
            at = len(w.sent)
    V(len([s for s in w.servers if not s.down]) <= 1, 'more than one RTP server runs', 'server')
    rec.nt(nupd >= 2)

def settle_any(e, w, eps, af, what):
    mine = [c for c in w.opened() if not any(o is not e and o.chan is c for o in eps)]
    V(len(mine) == 1, '%s: endpoint has %d open sockets' % (what, len(mine)), 'sockets')
    V(mine[0].family == af(e.want), '%s: socket family does not match' % what, 'family')
    e.chan = mine[0]

def norm(t):
    h, p = t
    for hs in H4 + H6:
        if h in hs: return (hs[0], int(p))
    return (h, int(p))

# ---- real loopback sockets and the real writer

rstep = st.fixed_dictionaries({'fam': st.sampled_from([4, 4, 6]), 'r': st.sampled_from([0, 1, 0, 1, None]), 'sp': st.integers(0, 4), 'pt': small, 'co': st.integers(0, 1), 'n': st.integers(1, 4), 'long': st.sampled_from([False, False, True])})
rstrategy = st.fixed_dictionaries({'steps': st.lists(rstep, min_size = 2, max_size = 5), 'end': st.sampled_from(['shut', 'del'])})
RHOSTS = {4: [['127.0.0.1'], ['127.0.0.2', '[127.0.0.2]']], 6: [H6[2], H6[2]]}

def rsock(fam, host):
    s = socket.socket(socket.AF_INET if fam == 4 else socket.AF_INET6, socket.SOCK_DGRAM)
    s.bind((host, 0))
    s.setblocking(False)
    return s

def drain(s):
    r = []
    while True:
        try: r.append(s.recv(4096))
        except BlockingIOError: return r

def until(f, t = 10.0):
    end = time.monotonic() + t
    while time.monotonic() < end:
        if f(): return True
        time.sleep(0.004)
    return bool(f())

def run_real(case, rec):
    from array import array
    from sippy.Rtp.EPoint import RTPEPoint
    from sippy.Rtp.Params import RTPParams
    from sippy.Rtp.Conf import RTPConf
    from sippy.Rtp.Handlers import RTPHandlers
    from sippy.Rtp.Core.AudioChunk import AudioChunk
    from sippy.Rtp.Codecs.G711 import G711Codec
    from sippy.Rtp.Codecs.G722 import G722Codec
    heard = []
    base = 20000 + os.getpid() % 20 * 1000
    class Stream(object):
        def __init__(self, rp, audio_in): pass
        def rtp_received(self, data, address, rtime): heard.append(bytes(data))
        def stream_update(self): pass
    h = RTPHandlers()
    h.rtp_instream_cls = Stream
    rx = {(f, i): rsock(f, RHOSTS[f][i][0]) for f in (4, 6) for i in (0, 1)}
    ep = None
    try:
        def params(s):
            t = None
            if s['r'] is not None:
                n = RHOSTS[s['fam']][s['r']]
                t = (n[s['sp'] % len(n)], rx[(s['fam'], s['r'])].getsockname()[1])
            p = RTPParams(t, out_ptime = PTIMES[s['pt']], out_sr = 8000, rtp_proto = 'IP%d' % s['fam'])
            p.codec = (G711Codec, G722Codec)[s['co']]
            return p
        def tone(ms): return AudioChunk(array('h', [1000, -1000]) * (ms * 4), 8000)
        prev = None
        running = 0
        for i, s in enumerate(case['steps']):
            what = 'step %d' % i
            if ep is None: ep = RTPEPoint(RTPConf(base, base + 998), params(s), lambda c: None, handlers = h)
            else: ep.update(params(s))
            at = time.monotonic()
            laddr = ep.rserv.local_addr
            V(laddr[1] % 2 == 0 and base <= laddr[1] <= base + 998, '%s: local port %d' % (what, laddr[1]), 'port')
            if prev is not None and prev[0] == s['fam']:
                V(prev[1] == laddr[1], '%s: local port moved %d -> %d' % (what, prev[1], laddr[1]), 'port')
            if prev is not None and prev[0] != s['fam']:
                fam, port = prev[0], prev[1]
                V(until(lambda: free(fam, prev[2], port), 5.0), '%s: the socket of the previous family stays open' % what, 'leak')
                rec.cls('family')
            prev = (s['fam'], laddr[1], laddr[0])
            if running:
                # what had left before the update is on its way
                time.sleep(max(0, at + 0.3 - time.monotonic()))
                for x in rx.values(): drain(x)
                rec.cls('moved while talking')
            who = rx.get((s['fam'], s['r']))
            ms = PTIMES[s['pt']]
            n = s['n'] if not s['long'] else 900 // ms
            c = tone(n * ms)
            ep.soundout(c)
            got = []
            def enough():
                got.extend(drain(who))
                return len(got) >= min(n, 4)
            if who is None: time.sleep(0.06)
            else:
                V(until(enough), '%s: %d packets of audio queued, %d arrived at the target' % (what, n, len(got)), 'lost')
                # a re-target keeps the writer and what it still has queued, everything else starts afresh
                for d in got:
                    V(d[1] & 127 == (0, 9)[s['co']], '%s: payload type %d' % (what, d[1] & 127), 'codec')
                    V(len(d) == 12 + 8 * ms, '%s: %d bytes of payload in a packet of %d ms' % (what, len(d) - 12, ms), 'ptime')
            for k, x in rx.items():
                if x is not who: V(not drain(x), '%s: audio arrives at %s, the target is %s' % (what, k, (s['fam'], s['r'])), 'target')
            running = who is not None and s['long']
            if who is not None:
                other = rx[(s['fam'], 1 - s['r'])]
                to = (RHOSTS[s['fam']][0][0], laddr[1])
                a, b = b'stray%d' % i, b'right%d' % i
                V(laddr[0] in ('0.0.0.0', '::', '127.0.0.1', '127.0.0.2', '::1'), 'bound to %s' % (laddr,))
                other.sendto(a, to)
                who.sendto(b, to)
                V(until(lambda: b in heard), '%s: packet from the target is not accepted' % what, 'source')
                V(a not in heard, '%s: packet from another source is accepted' % what, 'source')
        if case['end'] == 'shut': ep.shutdown()
        ep = None
        gc.collect()
        V(until(lambda: free(prev[0], prev[2], prev[1]), 5.0), 'socket stays open after %s' % case['end'], 'leak')
        for x in rx.values(): drain(x)
        if running:
            time.sleep(0.1)
            V(not any(drain(x) for x in rx.values()), 'audio is still sent after %s' % case['end'], 'leak')
        rec.nt(len(case['steps']) > 2)
    finally:
        for x in rx.values(): x.close()
        if ep is not None:
            try: ep.shutdown()
            except Exception: pass

def free(fam, host, port):
    s = socket.socket(socket.AF_INET if fam == 4 else socket.AF_INET6, socket.SOCK_DGRAM)
    try:
        if fam == 6: s.setsockopt(socket.IPPROTO_IPV6, socket.IPV6_V6ONLY, 1)
        s.bind((host, port))
        return True
    except OSError: return False
    finally: s.close()

CHECK = Check('C32', 'exploration', [
    Part('model', strategy(), run, quick = 500, thorough = 12000, shards = 8,
      rule = 'at least two updates took effect on a live endpoint'),
    Part('loopback', rstrategy, run_real, quick = 14, thorough = 200, shards = 8, boot = 'real',
      rule = 'three or more configurations, audio and packets through each'),
])
