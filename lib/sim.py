"""Owned time, event loop and datagram network for the real stack."""
import heapq, itertools, random
import boot
boot.boot(True)
from boot import clock
from core import Violation

import sippy.Core.EventDispatcher as _edm
from sippy.Core.EventDispatcher import ED2
from sippy.Time.MonoTime import MonoTime
from sippy.Network_server import Network_server, Remote_address
from sippy.Udp_server import Udp_server, Udp_server_opts

class _ELP(object):
    """Stands in for the native periodic sleeper: never sleeps, advances virtual time instead."""
    def __init__(self):
        self.calls = []
        self.world = None
    def call_from_thread(self, fn, *args):
        self.calls.append((fn, args))
    def addband(self, freq):
        return 1
    def useband(self, b):
        pass
    def CFT_enable(self, s):
        pass
    def procrastinate(self):
        self.world._step()

elp = _ELP()
ED2.elp = elp

class Limit(Exception):
    pass

class World(object):
    """One test case: starts with an empty event loop at a fixed-grid virtual time."""
    current = None
    def __init__(self, max_steps = 200000):
        World.current = self
        elp.world = self
        elp.calls = []
        del boot.exceptions[:]
        random.seed(7)
        ED2.tlisteners = []
        ED2.twasted = 0
        ED2.endloop = False
        ED2._exception = None
        clock.real_off = float(clock.REAL)
        g = 1 << 16
        clock.now = float((int(clock.now) // g + 1) * g)
        self.t0 = clock.now
        self.q = []                 # (time, n, fn, args)
        self.cnt = itertools.count()
        self.log = []               # wire log of Dgram
        self.servers = {}           # (host, port) -> SimUdp
        self.peers = {}             # (host, port) -> fn(dgram)
        self.target = None
        self.steps = 0
        self.max_steps = max_steps
        self.out_hook = None        # fn(dgram) -> list of delays (None = lost); default [0]
        self.undelivered = []
        MonoTime()
    # time ---------------------------------------------------------------
    @property
    def now(self):
        """Seconds since the case started."""
        return clock.now - self.t0
    def at(self, t, fn, *args):
        heapq.heappush(self.q, (self.t0 + t, next(self.cnt), fn, args))
    def after(self, dt, fn, *args):
        heapq.heappush(self.q, (clock.now + dt, next(self.cnt), fn, args))
    def timers(self):
        return [el for el in ED2.tlisteners if el.cb_func is not None]
    def _next_timer(self):
        t = None
        for el in ED2.tlisteners:
            if el.cb_func is None:
                continue
            m = el.etime.monot
            if t is None or m < t:
                t = m
        return t
    def _step(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Violation('event loop never becomes idle: more than %d iterations by virtual time +%.3f s' % (self.max_steps, self.now), key = 'livelock')
        if elp.calls:
            calls, elp.calls = elp.calls, []
            for fn, args in calls:
                fn(*args)
            return
        if self.q and self.q[0][0] <= clock.now:
            _, _, fn, args = heapq.heappop(self.q)
            fn(*args)
            return
        nt = self._next_timer()
        if nt is not None and nt <= clock.now:
            if self._spin == clock.now:
                clock.now += 4e-9
            self._spin = clock.now
            return
        cand = [self.target]
        if nt is not None: cand.append(nt)
        if self.q: cand.append(self.q[0][0])
        n = min(cand)
        if n >= self.target and (nt is None or nt > self.target) and (not self.q or self.q[0][0] > self.target):
            if clock.now < self.target:
                clock.now = self.target
            ED2.breakLoop()
            return
        if n > clock.now:
            clock.now = n
    def run(self, dt):
        self.run_until(self.now + dt)
    def run_until(self, t):
        self.target = self.t0 + t
        self._spin = None
        ED2.loop()
    # network ------------------------------------------------------------
    def peer(self, addr, fn):
        self.peers[addr] = fn
    def transmit(self, dg):
        dg.seq = len(self.log)
        self.log.append(dg)
        delays = [0] if self.out_hook is None else self.out_hook(dg)
        for d in delays:
            if d is None:
                continue
            if d == 0 and dg.dst in self.peers and not getattr(self, 'queue_zero', True):
                self.peers[dg.dst](dg)
            else:
                self.after(d, self._arrive, dg)
    def _arrive(self, dg):
        if dg.dst in self.peers:
            self.peers[dg.dst](dg)
        elif dg.dst in self.servers:
            self.servers[dg.dst].arrive(dg.data, dg.src)
        else:
            self.undelivered.append(dg)
    def inject(self, data, src, dst, delay = 0):
        """A datagram from a scripted endpoint to the stack."""
        if isinstance(data, str):
            data = data.encode('utf-8')
        self.after(delay, self._inject, data, src, dst)
    def _inject(self, data, src, dst):
        self.servers[dst].arrive(data, src)
    def check_exceptions(self, allow = ()):
        for msg, ex in boot.exceptions:
            if isinstance(ex, Violation):
                raise ex
            if type(ex).__module__ == 'core':
                raise ex
            import traceback
            import core
            if core.classify_exception(ex) == 'harness':
                raise ex
            if isinstance(ex, tuple(allow)):
                continue
            tb = ''.join(traceback.format_exception(type(ex), ex, ex.__traceback__)[-4:])
            raise Violation('internal error reported by the stack: %s: %s' % (msg, tb), key = 'internal:' + type(ex).__name__)

class Dgram(object):
    def __init__(self, t, src, dst, data):
        self.t, self.src, self.dst, self.data = t, src, dst, data
        self._m = None
    @property
    def text(self):
        return self.data.decode('utf-8')
    @property
    def m(self):
        if self._m is None:
            import wire
            self._m = wire.Msg(self.text)
        return self._m
    def __repr__(self):
        return '<%.4f %s->%s %s>' % (self.t, self.src, self.dst, self.data[:60])

class _Q(object):
    def __init__(self, srv):
        self.srv = srv
    def put(self, x):
        if x is None:
            return
        data, address = x
        w = World.current
        if w is not self.srv.world: return      # something left over from an earlier case
        w.transmit(Dgram(w.now, self.srv.addr, (address[0], address[1]), data))

class SimUdp(Udp_server):
    """Real Udp_server front end (addressing, encoding, loss emulation) without sockets."""
    def __init__(self, global_config, uopts):
        Network_server.__init__(self, uopts)
        la = self.uopts.laddress
        self.addr = (la[0], int(la[1])) if la is not None else ('127.0.0.1', 40000 + len(World.current.servers))
        self.sendqueue = _Q(self)
        self.down = False
        self.world = World.current
        self.world.servers[self.addr] = self
    def arrive(self, data, src):
        if self.down:
            return
        ra = Remote_address(src, self.transport)
        rtime = MonoTime()
        if not self.uopts.direct_dispatch:
            self.handle_read(data, ra, rtime)
        else:
            self.handle_read(data, src, rtime)
    def shutdown(self):
        self.down = True
        self.uopts.data_callback = None
    def join(self):
        pass

class Logger(object):
    def write(self, *a, **kw):
        pass

from sippy.SipTransactionManager import SipTransactionManager

class SimTM(SipTransactionManager):
    model_udp_server = (SimUdp, Udp_server_opts)

STACK = ('192.0.2.1', 5060)

def make_tm(req_cb, global_config = None, addr = STACK, **attrs):
    gc = {} if global_config is None else global_config
    gc['_sip_address'], gc['_sip_port'] = addr
    gc['_sip_logger'] = Logger()
    cls = SimTM
    if attrs:
        cls = type('SimTM_', (SimTM,), attrs)
    tm = cls(gc, req_cb)
    gc['_sip_tm'] = tm
    return tm, gc
