"""C36: UDP servers on real loopback sockets."""
import errno, os, socket, threading, time
from hypothesis import strategies as st
from core import Check, Part, Violation

WAIT = 20.0
missed = []

def V(cond, msg, key = None):
    if not cond:
        raise Violation(msg, key)

small = st.integers(0, 3)
size = st.sampled_from([1, 2, 40, 500, 1400, 1473, 3000, 8191, 8192, 8193, 9000, 20000, 65000])
server = st.fixed_dictionaries({'fam': st.sampled_from([4, 4, 6]), 'port': st.sampled_from(['num', 'num', 'zero', 'my', 'alloc']), 'wild': st.sampled_from([False, False, True]),
  'workers': st.integers(1, 4), 'direct': st.sampled_from([False, False, False, True]), 'echo': st.booleans(), 'boom': st.sampled_from([0, 0, 2, 3]),
  'din': st.sampled_from([0, 0, 0, 0.01]), 'dout': st.sampled_from([0, 0, 0, 0.01]), 'loss': st.sampled_from([None] * 8 + ['in', 'out'])})
op = st.one_of(
  st.tuples(st.just('send'), small, small, size, st.sampled_from(['b', 'b', 's', 'u'])),
  st.tuples(st.just('send'), small, small, size, st.sampled_from(['b', 'b', 's', 'u'])),
  st.tuples(st.just('in'), small, size, st.sampled_from(['b', 'n'])),
  st.tuples(st.just('in'), small, size, st.sampled_from(['b', 'n'])),
  st.tuples(st.just('out'), small, size, st.sampled_from(['b', 's', 'u'])),
  st.tuples(st.just('bad'), small, st.sampled_from(['name', 'port', 'neg', 'str', 'none', 'zero'])),
  st.tuples(st.just('wrong'), small),
  st.tuples(st.just('empty'), small),
  st.tuples(st.just('rfault'), small, st.lists(st.sampled_from(['EINTR', 'ENOMEM', 'ENOBUFS', 'EAGAIN', 'ECONNREFUSED']), min_size = 1, max_size = 3)),
  st.tuples(st.just('sfault'), small, st.lists(st.sampled_from(['EAGAIN', 'ENOBUFS', 'EWOULDBLOCK', 'EAGAIN', 'EPERM', 'EHOSTUNREACH']), min_size = 1, max_size = 3)),
  st.tuples(st.just('run')), st.tuples(st.just('settle'))).map(lambda t: [list(x) if isinstance(x, tuple) else x for x in t])

def strategy():
    return st.fixed_dictionaries({'servers': st.lists(server, min_size = 1, max_size = 3), 'ops': st.lists(op, min_size = 2, max_size = 14), 'again': st.booleans()})

class Faulty(object):
    """A socket whose calls fail now and then, as system calls may."""
    def __init__(self, s):
        self._s, self.r, self.t, self.lock, self.hard = s, [], [], threading.Lock(), 0
    def __getattr__(self, n): return getattr(self._s, n)
    def recvfrom(self, *a):
        with self.lock: e = self.r.pop(0) if self.r else None
        if e: raise OSError(getattr(errno, e), 'scripted')
        return self._s.recvfrom(*a)
    def sendto(self, data, address):
        with self.lock:
            e = self.t.pop(0) if self.t else None
            if e in ('EPERM', 'EHOSTUNREACH'): self.hard += 1
        if e: raise OSError(getattr(errno, e), 'scripted')
        return self._s.sendto(data, address)

def fds(): return len(os.listdir('/proc/self/fd'))

ports = [0]
def port():
    ports[0] = (ports[0] + 1) % 100
    return 10000 + (os.getpid() % 200) * 100 + ports[0]
HOST4 = '127.%d.%d.1' % (1 + os.getpid() // 250 % 250, 1 + os.getpid() % 250)

def run(case, rec):
    import boot, qelp
    elp = qelp.install()
    boot.exceptions[:] = []
    t0, f0 = threading.active_count(), fds()
    live, raw = [], []
    try:
        with qelp.watchdog(60): _run(case, rec, elp, live, raw, t0, f0)
    finally:
        for s in raw: s.close()
        for s in live:
            try: s.srv.shutdown()
            except Exception: pass
        elp.run()

class S(object): pass

def _run(case, rec, elp, live, raw, t0, f0):
    from sippy.Udp_server import Udp_server, Udp_server_opts
    from sippy.Network_server import RTP_port_allocator, Remote_address
    from sippy.SipConf import MyPort
    from sippy.Time.MonoTime import MonoTime
    from sippy.Core.EventDispatcher import ED2
    owner = threading.get_ident()
    host4 = '127.%d.%d.1' % (1 + os.getpid() // 250 % 250, 1 + os.getpid() % 250)
    wrong, got, sent, lost = [], [], [], []
    lock = threading.Lock()
    peers, got_raw = {}, {4: [], 6: []}

    def pump():
        ED2.last_ts = MonoTime()
        ED2.dispatchTimers()
        elp.run()
        for f, p in peers.items():
            while True:
                try: got_raw[f].append(p.recvfrom(70000))
                except BlockingIOError: break

    def until(cond, what, key):
        end = time.monotonic() + (WAIT if not missed else 3.0)
        nap = 0.0005
        while True:
            pump()
            if cond(): return
            if time.monotonic() > end:
                missed.append(1)
                V(False, what(), key)
            time.sleep(nap)
            nap = min(nap * 1.5, 0.02)

    shared = [None]
    def make(c, i):
        s = S()
        s.c, s.i, s.n, s.calls = c, i, 0, 0
        af = 'wild' if c['wild'] else 'addr'
        s.host = {4: {'addr': host4, 'wild': '0.0.0.0'}, 6: {'addr': '[::1]', 'wild': '[::]'}}[c['fam']][af]
        s.dest = {4: {'addr': host4, 'wild': '127.0.0.1'}, 6: {'addr': '[::1]', 'wild': '[::1]'}}[c['fam']][af]
        kind = c['port'] if c['port'] != 'zero' or (c['fam'] == 4 and not c['wild']) else 'num'
        if kind == 'alloc' and (c['fam'] == 6 or c['wild']): kind = 'num'
        p = port()
        if c['wild']:
            # both families on one port are two servers
            if shared[0] is None: shared[0] = p
            else: p, shared[0] = shared[0], None
        s.port = p if kind in ('num', 'my') else None
        def cb(data, ra, srv, rtime):
            now = MonoTime()
            with lock: s.calls += 1; k = s.calls
            here = threading.get_ident() == owner
            if here == c['direct'] and not c['din']: wrong.append('server %d: handler called in %s thread' % (i, 'the main' if here else 'another'))
            if srv is not s.srv: wrong.append('server %d: handler told of another server' % i)
            addr = ra
            if not c['direct']:
                if ra.transport != 'udp' or ra.received != ra.address[0]: wrong.append('server %d: transport %r, received %r from %r' % (i, ra.transport, ra.received, ra.address))
                addr = ra.address
            if not (start <= rtime and (rtime <= now or c['din'])): wrong.append('server %d: time of arrival %s is not between %s and %s' % (i, rtime, start, now))
            with lock: got.append((i, bytes(data), tuple(addr)))
            if c['echo'] and data[:4] == b'echo':
                srv.send_to(b'back' + data[4:], addr)
            if c['boom'] and k % c['boom'] == 0: raise ValueError('handler failed')
        start = MonoTime()
        port_arg = {'num': p, 'zero': 0, 'alloc': RTP_port_allocator(30001, 32700)}.get(kind)
        if kind == 'my': port_arg = MyPort(p)
        o = Udp_server_opts((s.host, port_arg), cb)
        o.nworkers, o.direct_dispatch = c['workers'], c['direct']
        o.pdelay_in_max, o.pdelay_out_max = c['din'], c['dout']
        if c['loss']: setattr(o, 'ploss_%s_rate' % c['loss'], 1.0)
        s.srv = Udp_server({}, o)
        s.srv.skt = s.fk = Faulty(s.srv.skt)
        V(threading.active_count() == before + 2 * c['workers'], 'server with %d workers runs %d threads' % (c['workers'], threading.active_count() - before), 'workers')
        (h, pt), tr = s.srv.getSIPaddr()
        V(h == s.host and tr == 'udp', 'server bound to %s says it is at %s (%s)' % (s.host, h, tr), 'laddr')
        pt = int(str(pt))
        real = s.fk.getsockname()
        V(pt == real[1] and (s.port is None or s.port == pt), 'server says its port is %s, it is bound to %s (wanted %s)' % (pt, real[1], s.port), 'laddr')
        V(kind != 'alloc' or (30002 <= pt <= 32700 and pt % 2 == 0), 'allocated port %d' % pt, 'laddr')
        s.port = pt
        return s

    ss = []
    for c in case['servers']:
        before = threading.active_count()
        try: s = make(c, len(ss))
        except OSError as e:
            if e.errno in (errno.EADDRINUSE,): continue
            raise
        ss.append(s); live.append(s)
    for f, h in ((4, host4), (6, '::1')):
        p = socket.socket(socket.AF_INET if f == 4 else socket.AF_INET6, socket.SOCK_DGRAM)
        p.bind((h, port()))
        p.setblocking(False)
        p.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 21)
        raw.append(p); peers[f] = p
    if len(ss) == 0: return
    if len(set((s.c['fam'], s.port) for s in ss)) < len(ss): return
    budget = [0]
    seq = [0]
    want, want_raw = [], []            # (server, data, source or None), (family, data, source)
    maybe = []                         # hard send faults: how many datagrams of a server may be missing
    def body(n, kind, tag = 'd'):
        seq[0] += 1
        h = ('echo' if tag == 'e' else 'data') + '%d.%d:' % (os.getpid(), seq[0])
        if kind == 'u': return (h + '\u017e' * ((n - len(h)) // 2))
        if kind == 's': return (h + 'x' * (n - len(h)))
        if kind == 'n': return h.encode() + bytes((i * 7) & 255 for i in range(max(0, n - len(h))))
        return h.encode() + b'\0' * (n - len(h))
    def asbytes(d): return d.encode('utf-8') if isinstance(d, str) else d
    def settle():
        hard = {s.i: s.fk.hard for s in ss}
        nh = sum(hard.values())
        def diff(a, b):
            b = list(b)
            out = []
            for x in a:
                if x in b: b.remove(x)
                else: out.append(x)
            return out
        def gr(): return [(f, d, (('[%s]' % a[0]) if f == 6 else a[0], a[1])) for f in (4, 6) for d, a in got_raw[f]]
        def missing(): return len(diff(want, got)) + len(diff(want_raw, gr())) <= 2 * sum(s.fk.hard for s in ss)
        until(missing, lambda: 'datagrams that never came: %s' % [(x[0], len(x[1]), x[1][:20], x[2]) for x in (diff(want, got) + diff(want_raw, gr()))[:3]], 'lost')
        g = list(got)
        extra = diff(g, want) + diff(gr(), want_raw)
        V(not extra, 'datagrams nobody sent, or from elsewhere, or twice: %s' % [(x[0], len(x[1]), x[1][:20], x[2]) for x in extra[:3]], 'extra')
        V(not wrong, '%s' % wrong[:2], 'handler')
        budget[0] = 0
        # one worker at each end: what was sent first is sent and handed over first
        def single(s): return s.c['workers'] == 1 and not any(z.fk.hard for z in ss)
        own = {(x.dest, x.port): x for x in ss}
        for x in ss:
            if not single(x) or x.c['din']: continue
            for a in set(w[2] for w in want if w[0] == x.i):
                if a in own and (not single(own[a]) or own[a].c['dout']): continue
                w, r = [[d[1][:30] for d in l if d[0] == x.i and d[2] == a and d[1][:4] != b'back'] for l in (want, g)]
                V(w == r, 'server %d with one worker got from %s: %s, sent were %s' % (x.i, a, r, w), 'order')
                if len(w) > 1: rec.cls('ordered')
    def src(s, d):
        # a server on the wildcard address shows the address of the route
        if s.c['fam'] == 6: return ('[::1]', s.port)
        return (s.host if not s.c['wild'] else '127.0.0.1', s.port)
    def expect(i, data, source):
        """The datagram reaches server i; what follows from it."""
        s = ss[i]
        if s.c['loss'] == 'in': return
        want.append((i, data, source))
        if s.c['echo'] and data[:4] == b'echo' and s.c['loss'] != 'out':
            k = [j for j, x in enumerate(ss) if (x.dest, x.port) == source]
            back = b'back' + data[4:]
            if k: expect(k[0], back, src(s, source[0]))
            else: want_raw.append((s.c['fam'], back, src(s, source[0])))
    for o in case['ops']:
        k = o[0]
        if k == 'run': pump(); continue
        if k == 'settle': settle(); continue
        s = ss[o[1] % len(ss)]
        f = s.c['fam']
        if budget[0] > 60000: settle()
        if k == 'send':
            d = ss[o[2] % len(ss)]
            if d.c['fam'] != f: continue
            data = body(o[3], o[4], 'e' if o[3] % 2 == 0 else 'd')
            b = asbytes(data)
            budget[0] += len(b)
            s.srv.send_to(data, (d.dest, d.port))
            rec.cls('size:%d' % (len(b) > 8192))
            if s.c['loss'] != 'out': expect(d.i, b, src(s, d.dest))
        elif k == 'in':
            data = asbytes(body(o[2], o[3], 'e' if o[2] % 2 == 0 else 'd'))
            budget[0] += len(data)
            rec.cls('size:%d' % (len(data) > 8192))
            peers[f].sendto(data, (s.dest.strip('[]'), s.port))
            a = peers[f].getsockname()
            expect(s.i, data, (('[%s]' % a[0]) if f == 6 else a[0], a[1]))
        elif k == 'out':
            data = body(o[2], o[3])
            a = peers[f].getsockname()
            budget[0] += len(asbytes(data))
            s.srv.send_to(data, (('[%s]' % a[0]) if f == 6 else a[0], a[1]))
            if s.c['loss'] != 'out': want_raw.append((f, asbytes(data), src(s, host4 if f == 4 else '::1')))
        elif k == 'bad':
            h = '[::1]' if f == 6 else host4
            a = {'name': ('[no..name]' if f == 6 else 'no..name', 5060), 'port': (h, 70000), 'neg': (h, -1), 'str': (h, '5060'), 'none': (h, None), 'zero': (h, 0)}[o[2]]
            s.srv.send_to(b'nowhere', a)
            rec.cls('unsendable')
        elif k == 'wrong':
            for a in (['127.0.0.1', 5060], '127.0.0.1') + ((('127.0.0.1', 5060),) if f == 6 else ()):
                try: s.srv.send_to(b'x', a)
                except Exception: pass
                else: V(False, 'send_to(%r) was accepted by a server of family %d' % (a, f), 'wrong-address')
        elif k == 'empty':
            peers[f].sendto(b'', (s.dest.strip('[]'), s.port))
            rec.cls('empty')
            if s.c['wild'] and f == 6 and not [x for x in ss if x.c['fam'] == 4 and x.port == s.port]:
                # not its family
                peers[4].sendto(b'stray', ('127.0.0.1', s.port))
        elif k == 'rfault':
            with s.fk.lock: s.fk.r.extend(o[2])
            rec.cls('receive-error')
        elif k == 'sfault':
            with s.fk.lock: s.fk.t.extend(o[2])
            rec.cls('send-error')
    settle()
    # every worker still lives
    for s in ss:
        V(all(t.is_alive() for t in s.srv.areceivers), 'server %d: a receiver has died' % s.i, 'dead-worker')
        V(all(t.is_alive() for t in s.srv.asenders), 'server %d: a sender has died' % s.i, 'dead-worker')
    if case['again']:
        # nothing queued twice
        time.sleep(0.01)
        settle()
    # what arrived but was not handed to its handler before the shutdown is not handed over after it
    for s in ss:
        if not s.c['direct']: peers[s.c['fam']].sendto(b'late', (s.dest.strip('[]'), s.port))
    time.sleep(0.003)
    for s in ss:
        s.srv.shutdown()
        live.remove(s)
        V(s.fk.fileno() == -1, 'socket of server %d is open after its shutdown' % s.i, 'shutdown')
    pump()
    if any(s.c['din'] for s in ss): time.sleep(0.012)
    pump()
    V(not [x for x in got if x[1] == b'late'], 'handlers called after shutdown: %r' % ([x for x in got if x[1] == b'late'],), 'shutdown')
    until(lambda: threading.active_count() <= t0, lambda: '%d threads are left after shutdown' % (threading.active_count() - t0), 'leak')
    # the port can be used again
    s = ss[0]
    b = socket.socket(socket.AF_INET if s.c['fam'] == 4 else socket.AF_INET6, socket.SOCK_DGRAM)
    raw.append(b)
    try: b.bind((s.host.strip('[]'), s.port))
    except OSError as e: V(False, 'port of a server that was shut down cannot be used: %s' % e, 'shutdown')
    rec.nt(len(want) + len(want_raw) >= 3)
    for s in ss: rec.cls('v%d' % s.c['fam'], 'workers:%d' % s.c['workers'])
    if any(s.c['din'] or s.c['dout'] for s in ss): rec.cls('delays')

CHECK = Check('C36', 'exploration', [
  Part('net', strategy, run, quick = 500, thorough = 5000, shards = 8, boot = 'real', rule = 'at least three datagrams had to arrive'),
])
