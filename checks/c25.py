"""C25: timers, thread hand-overs and signals of the event dispatcher."""
import signal, threading, time
from hypothesis import strategies as st
from core import Check, Part, Violation

EPS = 1e-6

def V(cond, msg, key = None):
    if not cond:
        raise Violation(msg, key)

def tolist(x): return [tolist(y) for y in x] if isinstance(x, (tuple, list)) else {k: tolist(v) for k, v in x.items()} if isinstance(x, dict) else x

ival = st.sampled_from([0, 0.001, 0.005, 0.01, 0.01, 0.02, 0.05, 0.1, 0.25, 1.0, 3.0, 7.5])
act = st.one_of(
  st.tuples(st.just('arm'), st.integers(0, 5)), st.tuples(st.just('arm'), st.integers(0, 5)),
  st.tuples(st.just('cancel'), st.integers(0, 30)), st.tuples(st.just('cancel'), st.integers(0, 30)), st.tuples(st.just('self')),
  st.tuples(st.just('go'), st.integers(0, 5)), st.tuples(st.just('raise')), st.tuples(st.just('exit'), st.booleans()), st.tuples(st.just('break'), st.integers(1, 9)),
  st.tuples(st.just('slow'), st.sampled_from([0.002, 0.03, 0.4, 2.0])), st.tuples(st.just('cft')))
sact = st.one_of(st.tuples(st.just('reg'), st.integers(0, 1), st.sampled_from(['', '', '', 'raise', 'break', 'unreg', 'again', 'reg'])), st.tuples(st.just('unreg'), st.integers(0, 6)), st.tuples(st.just('sig'), st.integers(0, 1)), st.tuples(st.just('sig'), st.integers(0, 1)), st.tuples(st.just('sig'), st.integers(0, 1)))
anyact = st.one_of(act, act, act, sact)
spec = st.fixed_dictionaries({'kind': st.sampled_from(['rel', 'rel', 'rel', 'inact', 'abs', 'ts', 'loose']), 'ival': ival, 'nt': st.sampled_from([1, 1, 1, 2, 3, 7, -1]), 'p': st.sampled_from([0.1, 0.5, 0.9]),
  'acts': st.lists(st.tuples(st.sampled_from([1, 1, 1, 2, 3, 5]), anyact), max_size = 4)})
wait = st.tuples(st.just('wait'), st.sampled_from([0.0, 0.004, 0.02, 0.2, 1.0, 5.0, 20.0]))
arm = st.tuples(st.just('arm'), st.integers(0, 5))
bulk = st.tuples(st.just('bulk'), st.lists(st.integers(1, 300), min_size = 5, max_size = 20), st.lists(st.integers(0, 39), max_size = 16))
top = st.one_of(arm, arm, arm, bulk, act, wait, wait, st.tuples(st.just('tloop'), st.sampled_from([0.0, 0.05, 1.0])))
stop = st.one_of(sact, sact, sact, st.tuples(st.just('wait'), st.sampled_from([0.0, 0.004, 0.02])), arm)
grains = st.lists(st.sampled_from([0.01, 0.01, 0.003, 0.01, 0.05, 1.5]), min_size = 1, max_size = 4)

def strategy():
    return st.fixed_dictionaries({'specs': st.lists(spec, min_size = 6, max_size = 6), 'ops': st.lists(top, min_size = 3, max_size = 14), 'grain': grains, 'end': st.sampled_from([2.0, 10.0, 30.0])}).map(tolist)
def sstrategy():
    return st.fixed_dictionaries({'specs': st.lists(spec, min_size = 6, max_size = 6), 'ops': st.lists(stop, min_size = 4, max_size = 20), 'grain': grains, 'end': st.sampled_from([0.0, 1.0])}).map(tolist)

class Timer(object):
    def __init__(self, n, sp): self.n, self.sp = n, sp; self.el = None; self.armed = False; self.dead = False; self.fired = 0; self.due = None; self.lo = self.hi = None
class Handler(object):
    def __init__(self, n, how, act): self.n, self.how, self.act = n, how, act; self.on = True; self.ran = self.lo = self.hi = 0; self.obj = None
class Hung(Exception): pass

def run(case, rec):
    import sim, boot
    from boot import clock
    from sippy.Core.EventDispatcher import ED2
    from sippy.Time.MonoTime import MonoTime
    from sippy.Time.Timeout import Timeout, TimeoutInact, TimeoutAbsMono
    from sippy.Signal import Signal
    w = sim.World()
    timers, handlers = [], []
    SIG = [signal.SIGUSR1, signal.SIGUSR2]
    raised_since = [0, 0]
    st_ = {'idle': clock.now, 'g': 0, 'steps': 0, 'target': None, 'brk': None, 'cft': 0, 'cftran': 0, 'cls': set(), 'sigs': 0, 'fires': 0}
    grain = case['grain']

    class Step(object):
        def _step(self):
            if viol: raise viol[0]
            # the dispatcher is done with everything that was due when it last looked at the clock
            late = [t for t in timers if t.armed and not t.dead and t.due is not None and t.due <= st_['idle'] - EPS]
            V(not late, 'the loop goes idle although timer %d was due %.4f s ago' % (late[0].n if late else 0, st_['idle'] - late[0].due if late else 0), 'late')
            late = [t for t in timers if t.armed and not t.dead and t.due is None and t.hi <= st_['idle'] - EPS]
            V(not late, 'a timer with a spread of its interval did not fire within it', 'late')
            st_['steps'] += 1
            V(st_['steps'] < 30000, 'too many loop cycles', 'livelock')
            calls, sim.elp.calls = sim.elp.calls, []
            for f, a in calls: f(*a)
            if clock.now >= st_['target'] - EPS:
                ED2.breakLoop(-1)
                st_['brk'] = -1
                return
            clock.now += min(grain[st_['g'] % len(grain)] * (1 if st_['target'] - clock.now < 2 else 20), max(st_['target'] - clock.now, 0.003))
            st_['g'] += 1
            st_['idle'] = clock.now
    sim.elp.world = Step()
    viol = []
    def noted(f):
        # the dispatcher catches what callbacks raise: keep what was found wrong in them
        def g(*a, **k):
            try: return f(*a, **k)
            except Violation as ex:
                viol.append(ex)
                raise
        return g

    @noted
    def callback(ts, t, *params):
        V(params == ('p', t.n), 'callback of timer %d got parameters %r' % (t.n, params), 'params')
        V((ts is not None) == (t.sp['kind'] == 'ts'), 'time stamp passed: %s' % (ts is not None), 'params')
        V(t.armed, 'timer %d fires although it was never started' % t.n, 'unarmed')
        V(not t.dead, 'timer %d fires after it was cancelled or has run out (%d ticks of %d)' % (t.n, t.fired, t.sp['nt']), 'dead')
        now = clock.now
        t.fired += 1
        st_['fires'] += 1
        if t.due is not None:
            V(now >= t.due - EPS, 'timer %d fires %.6f s early (tick %d)' % (t.n, t.due - now, t.fired), 'early')
            before = [x for x in timers if x is not t and x.armed and not x.dead and x.due is not None and x.due < t.due - EPS]
            V(not before, 'timer %d (due %.4f) fires before timer %d (due %.4f)' % (t.n, t.due - w.t0, before[0].n if before else 0, before[0].due - w.t0 if before else 0), 'order')
            if t.sp['nt'] != t.fired and t.sp['kind'] != 'abs': t.due += t.sp['ival']
            else: t.dead = True
        else:
            V(now >= t.lo - EPS, 'timer %d fires %.6f s early (tick %d)' % (t.n, t.lo - now, t.fired), 'early')
            if t.sp['nt'] != t.fired: t.lo += t.sp['ival'] * (1 - t.sp['p']); t.hi += t.sp['ival'] * (1 + t.sp['p'])
            else: t.dead = True
        if t.fired > 1: st_['cls'].add('periodic')
        for k, a in t.sp['acts']:
            if k == t.fired: do(a, t)

    def arm(i, ms = None):
        if len(timers) >= 60: return
        sp = case['specs'][i] if ms is None else {'kind': 'rel', 'ival': ms / 1000.0, 'nt': 1, 'p': 0.1, 'acts': []}
        # (endless chains of immediate timers would never let the loop go on)
        t = Timer(len(timers), sp)
        timers.append(t)
        now = clock.now
        iv = sp['ival'] if sp['ival'] > 0 or (sp['nt'] == 1 and len(timers) < 20) else 0.004
        if sp['nt'] == -1: iv = max(iv, 0.02)
        t.sp = dict(sp, ival = iv)
        k = sp['kind']
        par = (t, 'p', t.n)
        if k == 'abs':
            t.sp['nt'] = 1
            mt = MonoTime().getOffsetCopy(iv - 0.01)
            t.due, t.armed = now + iv - 0.01, True
            t.el = TimeoutAbsMono(lambda *a: callback(None, *a), mt, *par)
        elif k == 'inact':
            t.itime = now
            t.el = TimeoutInact(lambda *a: callback(None, *a), iv, sp['nt'], *par)
        elif k == 'ts':
            t.due, t.armed = now + iv, True
            t.el = TimeoutInact(lambda ts, *a: callback(ts, *a), iv, sp['nt'], *par)
            t.el.cb_with_ts = True
            t.el.go()
        elif k == 'loose':
            if iv < 0.1 or sp['nt'] == -1 and iv < 0.2: iv = t.sp['ival'] = 0.2
            t.lo, t.hi, t.armed = now + iv * (1 - sp['p']), now + iv * (1 + sp['p']), True
            t.el = TimeoutInact(lambda *a: callback(None, *a), iv, sp['nt'], *par)
            t.el.spread_runs(sp['p'])
            t.el.go()
        else:
            t.due, t.armed = now + iv, True
            t.el = Timeout(lambda *a: callback(None, *a), iv, sp['nt'], *par)
        st_['cls'].add(k)

    @noted
    def sighandler(h, tag):
        V(tag == 'tag%d' % h.n, 'signal handler %d got parameters %r' % (h.n, tag), 'params')
        V(h.on, 'signal handler %d runs after it was removed' % h.n, 'signal')
        h.ran += 1
        V(h.ran <= h.hi, 'signal handler %d ran %d times for %d signals' % (h.n, h.ran, h.hi), 'signal')
        st_['sigs'] += 1
        a, h.act = h.act, ''
        if a == 'raise': raise KeyError('handler failed')
        if a == 'break': do(['break', 3], None)
        elif a == 'unreg': unreg(h)
        elif a == 'again': do(['sig', h.how], None)
        elif a == 'reg': do(['reg', h.how, ''], None)

    def unreg(h):
        if not h.on: return
        if h.how == 0: ED2.unregSignal(h.obj)
        else: h.obj.cancel()
        h.on = False
        h.lo = min(h.lo, h.ran)
        if any(x.on and x.how == h.how and x.n > h.n for x in handlers): st_['cls'].add('unreg-first')

    def do(a, t):
        k = a[0]
        if k == 'arm': arm(a[1])
        elif k == 'cancel':
            if timers:
                x = timers[-1 - a[1] % len(timers)]
                x.dead = True
                x.el.cancel()
                st_['cls'].add('cancel')
        elif k == 'self':
            if t is not None:
                t.dead = True
                t.el.cancel()
                st_['cls'].add('cancel-self')
        elif k == 'go':
            c = [x for x in timers if x.sp['kind'] == 'inact' and not x.armed and not x.dead]
            if c:
                x = c[a[1] % len(c)]
                x.armed = True
                x.due = x.itime + x.sp['ival']
                x.el.go()
        elif k == 'raise':
            if t is not None: st_['cls'].add('raise'); raise ValueError('callback failed')
        elif k == 'exit':
            if t is not None: st_['cls'].add('exit'); raise SystemExit(3) if a[1] else KeyboardInterrupt()
        elif k == 'break':
            ED2.breakLoop(a[1])
            st_['brk'] = a[1]
        elif k == 'slow': clock.now += a[1]
        elif k == 'cft':
            n = st_['cft']; st_['cft'] += 1
            ED2.callFromThread(cft, n)
        elif k == 'reg':
            if len(handlers) >= 8: return
            h = Handler(len(handlers), a[1], a[2])
            h.hi = raised_since[a[1]]
            handlers.append(h)
            if a[1] == 0: h.obj = ED2.regSignal(SIG[0], sighandler, h, tag = 'tag%d' % h.n)
            else: h.obj = Signal(SIG[1], sighandler, h, 'tag%d' % h.n)
        elif k == 'unreg':
            if handlers: unreg(handlers[a[1] % len(handlers)])
        elif k == 'sig':
            on = [h for h in handlers if h.how == a[1] and h.on]
            if not on or raised_since[a[1]] > 20: return
            V(signal.getsignal(SIG[a[1]]) not in (signal.SIG_DFL, signal.SIG_IGN, None), 'signal handler(s) %s are registered, yet the signal is not caught' % [h.n for h in on], 'signal')
            for h in on: h.lo += 1; h.hi += 1
            raised_since[a[1]] += 1
            signal.raise_signal(SIG[a[1]])
            st_['cls'].add('signal%d' % a[1])

    @noted
    def cft(n):
        V(n == st_['cftran'], 'hand-over %d runs when it is the turn of %d' % (n, st_['cftran']), 'cft')
        st_['cftran'] += 1

    def loop(timeout = None):
        st_['brk'] = None
        st_['idle'] = max(st_['idle'], clock.now)
        try:
            r = ED2.loop(timeout) if timeout is not None else ED2.loop()
        except (SystemExit, KeyboardInterrupt): return False
        finally:
            if viol: raise viol[0]
        if st_['brk'] is None:
            V(timeout is not None, 'the loop ended for no reason', 'loop')
            return True
        V(r == st_['brk'], 'the loop returned %r, asked was %r' % (r, st_['brk']), 'loop')
        return st_['brk'] == -1

    def wait(dt):
        st_['target'] = clock.now + dt
        for _ in range(500):
            if loop(): break
        else: raise Violation('the loop does not go on', 'loop')
        settle()

    def settle():
        # one more full cycle, without time passing, lets whatever was handed over or raised in the last one run
        for _ in range(60):
            if not (sim.elp.calls or raised_since != [0, 0] and any(h.ran < h.lo for h in handlers)): break
            n = [h.ran for h in handlers], st_['cftran']
            st_['target'] = clock.now
            loop()
            if n == ([h.ran for h in handlers], st_['cftran']): break
        V(st_['cft'] == st_['cftran'], '%d hand-overs, %d ran' % (st_['cft'], st_['cftran']), 'cft')
        for h in handlers: V(h.lo <= h.ran, 'signal handler %d ran %d times for %d signals' % (h.n, h.ran, h.lo), 'signal')
        raised_since[:] = [0, 0]
        # what has run must not be demanded again
        for h in handlers: h.lo = h.hi = h.ran

    try:
        for o in case['ops']:
            if o[0] == 'wait': wait(o[1])
            elif o[0] == 'tloop':
                t0 = clock.now
                st_['target'] = clock.now + 1000.0
                if loop(o[1]):
                    V(clock.now >= t0 + o[1] - EPS, 'loop(%s) returned after %.4f s' % (o[1], clock.now - t0), 'loop')
                    late = [t for t in timers if t.armed and not t.dead and t.due is not None and t.due <= st_['idle'] - EPS]
                    V(not late, 'loop(%s) returns with due timers pending' % o[1], 'late')
            elif o[0] == 'bulk':
                for ms in o[1]: arm(0, ms)
                for k in o[2]: do(['cancel', k], None)
                st_['cls'].add('bulk')
            else: do(o, None)
        wait(case['end'])
        for t in timers:
            if t.armed and not t.dead and t.sp['nt'] > 0 and t.due is not None:
                V(t.due > clock.now - max(grain) - EPS - 0.0 or t.due > st_['idle'] - EPS, 'timer %d never fired %d of %d times' % (t.n, t.sp['nt'] - t.fired, t.sp['nt']), 'lost')
    finally:
        sim.elp.world = w
        ED2.tlisteners = []
        ED2.slisteners[:] = []
        ED2.signals_pending[:] = []
        for s in SIG: signal.signal(s, signal.SIG_DFL)
    rec.cls(*st_['cls'])
    rec.nt(st_['fires'] >= 4 or st_['sigs'] >= 2)

# --- real threads -----------------------------------------------------------
tact = st.sampled_from(['ret', 'ret', 'none', 'raise', 'raise', 'exit', 'sexit', 'nest', 'timer'])
top2 = st.one_of(st.tuples(st.just('cft'), tact), st.tuples(st.just('sync'), tact), st.tuples(st.just('sync'), tact), st.tuples(st.just('burst'), st.integers(2, 60)), st.tuples(st.just('nap'), st.integers(0, 4)))
def tstrategy():
    return st.fixed_dictionaries({'thr': st.lists(st.lists(top2, min_size = 1, max_size = 8), min_size = 1, max_size = 5), 'lock': st.booleans(), 'late': st.booleans()}).map(tolist)

class Boom(Exception): pass

def trun(case, rec):
    import qelp, boot
    with qelp.watchdog(): _trun(case, rec)

def _trun(case, rec):
    from sippy.Core.EventDispatcher import ED2
    from sippy.Time.Timeout import Timeout
    main = threading.get_ident()
    ED2.my_ident = main
    lock = threading.Lock()
    order = []             # ids in the order in which they were handed over, when that is known
    ran = []
    bad = []
    left = [len(case['thr'])]
    nid = [0]
    want_exit = [0]
    def cb(i, what, mine):
        if threading.get_ident() != main: bad.append('call %r ran in another thread' % (i,))
        if mine in ran: bad.append('call %r ran twice' % (mine,))
        ran.append(mine)
        if what == 'raise': raise Boom(mine)
        if what == 'exit': raise SystemExit(7) if i >= 0 else Boom(mine)
        if what == 'sexit': raise KeyboardInterrupt()
        if what == 'nest': ED2.callFromThread(cb, i, 'ret', ('nest',) + mine)
        if what == 'timer': Timeout(cb, 0.001, 1, i, 'ret', ('timer',) + mine)
        if what == 'none': return None
        return ('res',) + mine
    def done():
        left[0] -= 1
        if left[0] == 0: Timeout(ED2.breakLoop, 0.02, 1, 'over')
    extra = []
    def worker(n, ops):
        k = 0
        try:
            for o in ops:
                if o[0] == 'nap': time.sleep(o[1] / 1000.0); continue
                for j in range(o[1] if o[0] == 'burst' else 1):
                    mine = (n, k); k += 1
                    what = 'ret' if o[0] == 'burst' else o[1]
                    if what in ('nest', 'timer'): extra.append((what,) + mine)
                    if o[0] != 'sync' and what in ('exit', 'sexit'): want_exit[0] += 1
                    if case['lock']: lock.acquire()
                    order.append(mine)
                    try:
                        if o[0] != 'sync': ED2.callFromThread(cb, 0, what, mine)
                        else:
                            try: r = ED2.callFromThreadSync(cb, 0, what, mine)
                            except BaseException as ex:
                                e = {'raise': Boom, 'exit': SystemExit, 'sexit': KeyboardInterrupt}.get(what)
                                if e is None or type(ex) is not e or e is Boom and ex.args != (mine,): bad.append('synchronous call %r (%s) raised %r' % (mine, what, ex))
                            else:
                                e = None if what == 'none' else ('res',) + mine
                                if what in ('raise', 'exit', 'sexit') or r != e: bad.append('synchronous call %r (%s) returned %r' % (mine, what, r))
                            if mine not in ran: bad.append('synchronous call %r returned before it ran' % (mine,))
                    finally:
                        if case['lock']: lock.release()
        except BaseException as ex: bad.append('worker: %r' % ex)
        finally: ED2.callFromThread(done)
    thr = [threading.Thread(target = worker, args = (n, o), daemon = True) for n, o in enumerate(case['thr'])]
    for t in thr: t.start()
    if case['late']: time.sleep(0.003)
    exits = 0
    while True:
        try:
            r = ED2.loop()
        except (SystemExit, KeyboardInterrupt):
            exits += 1
            continue
        V(r == 'over', 'the loop returned %r' % r, 'loop')
        break
    for t in thr: t.join(5.0)
    V(not bad, '%s' % bad[:2], 'thread')
    base = [x for x in ran if not isinstance(x[0], str)]
    V(sorted(base) == sorted(order), 'handed over but not run: %s; run but not handed over: %s' % (sorted(set(order) - set(base))[:3], sorted(set(base) - set(order))[:3]), 'lost')
    V(sorted(x for x in ran if isinstance(x[0], str)) == sorted(extra), 'calls made by calls: %s, expected %s' % ([x for x in ran if isinstance(x[0], str)][:5], extra[:5]), 'lost')
    if case['lock']: V(base == order, 'handed over in the order %s, run in the order %s' % (order[:10], base[:10]), 'order')
    for n in range(len(case['thr'])):
        V([x for x in base if x[0] == n] == [x for x in order if x[0] == n], 'calls of one thread run in another order', 'order')
    V((exits > 0) == (want_exit[0] > 0) and exits <= want_exit[0], '%d exits were asked for by calls, the loop ended %d times' % (want_exit[0], exits), 'exit')
    rec.nt(len(order) >= 3)
    rec.cls('threads:%d' % len(thr), 'locked' if case['lock'] else 'free')
    if extra: rec.cls('nested')
    if exits: rec.cls('exit')

CHECK = Check('C25', 'exploration', [
  Part('timers', strategy, run, quick = 3000, thorough = 60000, shards = 4, rule = 'at least four timer ticks or two signal handler runs'),
  Part('signals', sstrategy, run, quick = 1500, thorough = 30000, shards = 2, rule = 'at least four timer ticks or two signal handler runs'),
  Part('threads', tstrategy, trun, quick = 150, thorough = 4000, shards = 2, boot = 'real', rule = 'at least three calls handed over'),
])
