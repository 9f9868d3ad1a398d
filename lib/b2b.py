"""The real b2bua main program on the simulated network, with scripted AAA helper and management socket."""
import sys, socket, random
import sim, wire
from sim import STACK
import boot
import sippy.b2bua as bb
import sippy.B2B.Route as _R
from sippy.External_command import External_command
from sippy.RadiusAuthorisation import RadiusAuthorisation
from sippy.B2B.SimpleAPI import B2BSimpleAPI
from sippy.Core.EventDispatcher import ED2

def fake_gai(host, port, family = 0, type = 0, *a, **kw):
    h = str(host)
    if ':' in h:
        return [(socket.AF_INET6, type, 6, '', (h, int(port or 0), 0, 0))] if family in (0, socket.AF_INET6) else []
    if not all(x.isdigit() for x in h.split('.')):
        raise socket.gaierror(-2, 'Name or service not known: %r' % (host,))
    return [(socket.AF_INET, type, 6, '', (h, int(port or 0)))]

class _WI(object):
    cancelled = False
    def cancel(self): self.cancelled = True
    def is_cancelled(self): return self.cancelled

class FakeED2(object):
    def __init__(self, rig): self.rig = rig
    def loop(self, *a, **kw): pass
    def breakLoop(self, *a): self.rig.stopped = self.rig.w.now
    def __getattr__(self, n): return getattr(ED2, n)

class FakeSignal(object):
    """Records the handlers; Rig.signal() runs them as the real class would (from the event loop)."""
    rig = None
    def __init__(self, signum, callback, *parameters):
        self.signum, self.callback, self.parameters = signum, callback, parameters
        FakeSignal.rig.signals.setdefault(signum, []).append(self)
    def cancel(self): pass

class Clim(object):
    def __init__(self): self.out, self.closed = '', False
    def send(self, data): self.out += data
    def close(self): self.closed = True

class Rig(object):
    def __init__(self, args = (), aaa = None, seed = 0):
        """aaa(kind, attrs) -> (delay, [(attr, value) ...], rcode) or None (no answer ever)."""
        self.w = w = sim.World()
        self.aaa = aaa
        self.acct, self.auth = [], []
        self.signals = {}
        self.stopped = None
        self.api = None
        FakeSignal.rig = self
        rig = self
        class RA(RadiusAuthorisation):
            pass
        def ec_init(s, command, max_workers = 20):
            s.work = []
        def ec_process(s, data, result_callback = None, *params):
            return rig._aaa(s, list(data), result_callback, params)
        class API(B2BSimpleAPI):
            def __init__(s, gc):
                s.global_config = gc
                rig.api = s
            def shutdown(s): pass
        socket.getaddrinfo = _R.getaddrinfo = fake_gai
        saved = {k: getattr(bb, k) for k in ('SipLogger', 'SipTransactionManager', 'B2BSimpleAPI', 'Signal', 'ED2', 'CallMap')}
        sv = External_command.__init__, External_command.process_command, sys.argv
        gcs = []
        class CM(saved['CallMap']):
            def __init__(s, gc):
                gcs.append(gc)
                super().__init__(gc)
        External_command.__init__, External_command.process_command = ec_init, ec_process
        try:
            bb.SipLogger = lambda *a, **kw: sim.Logger()
            bb.SipTransactionManager = sim.SimTM
            bb.B2BSimpleAPI = API
            bb.Signal = FakeSignal
            bb.ED2 = FakeED2(self)
            bb.CallMap = CM
            sys.argv = [boot.REPO + '/sippy/b2bua.py', '-f', '-l', STACK[0], '-p', str(STACK[1])] + list(args)
            bb.main_func()
        finally:
            for k in saved: 
                if k not in ('ED2', 'Signal'): setattr(bb, k, saved[k])
            External_command.__init__ = sv[0]
            sys.argv = sv[2]
        self.gc = gcs[0]
        self.cmap = self.gc['_cmap']
        self.tm = self.gc['_sip_tm']
        self.base_timers = len(w.timers())
    def _aaa(self, master, data, cb, params):
        kind = data[0]
        attrs = []
        for l in data[1:]:
            a, _, v = l.partition('=')
            attrs.append((a, v[1:-1] if v[:1] == '"' else v))
        rec = {'t': self.w.now, 'kind': kind, 'attrs': attrs, 'wi': _WI(), 'raw': data}
        (self.acct if kind == 'ACCT' else self.auth).append(rec)
        r = self.aaa(kind, attrs) if self.aaa is not None else (0.01, [], 0)
        if r is not None:
            delay, out, rcode = r
            lines = tuple(("%s = '%s'" % av).encode() for av in out) + (str(rcode).encode(),)
            rec['done'] = lambda: None if rec['wi'].cancelled else master.process_result(cb, lines, *params)
            self.w.after(delay, rec['done'])
        return rec['wi']
    def cmd(self, line):
        c = Clim()
        self.api.recvCommand(c, line)
        return c.out
    def signal(self, signum):
        for s in self.signals.get(signum, ()):
            s.callback(*s.parameters)
    def leftovers(self):
        """What is still held once everything should be over."""
        tm, out = self.tm, []
        for n in ('tclient', 'tserver', 'req_consumers', 'l1rcache', 'l2rcache'):
            d = getattr(tm, n)
            if len(d): out.append('%s: %s' % (n, list(d.items())[:2] if n[0] == 't' else '%d entries' % len(d)))
        if self.cmap.ccmap: out.append('call records: %d' % len(self.cmap.ccmap))
        tl = self.w.timers()
        if len(tl) != self.base_timers:
            out.append('timers: %s' % sorted(getattr(t.cb_func, '__qualname__', repr(t.cb_func)) for t in tl))
        return out
    def close(self):
        bb.ED2, bb.Signal = ED2, self._sig() 
    def _sig(self):
        import sippy.Signal as S
        return S.Signal
