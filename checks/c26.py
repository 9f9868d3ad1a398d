"""C26: time stamps under an owned monotonic and wall clock."""
import time, threading, calendar
from datetime import datetime
from hypothesis import strategies as st
from core import Check, Part, Violation

def V(cond, msg, key = None):
    if not cond:
        raise Violation(msg, key)

dts = st.sampled_from([0.0, 1e-6, 0.001, 0.25, 1.0, 59.999, 3600.0, 86400.5])
jump = st.sampled_from([-1e6, -3600.0, -1.5, -0.001, 0.0, 0.001, 2.0, 3600.0, 1e5])
idx = st.integers(0, 30)
num = st.sampled_from([0, 1, -1, 0.5, 2.25, -7.75, 3600, 1e-3])
op = st.one_of(st.tuples(st.just('wait'), dts), st.tuples(st.just('now'), st.just(0)), st.tuples(st.just('now'), st.just(0)), st.tuples(st.just('thread'), st.just(0)), st.tuples(st.just('jump'), jump), st.tuples(st.just('jump'), jump), st.tuples(st.just('off'), idx, num), st.tuples(st.just('offc'), idx, num), st.tuples(st.just('copy'), idx),
  st.tuples(st.just('cmp'), idx, idx), st.tuples(st.just('arith'), idx, idx, num), st.tuples(st.just('text'), idx), st.tuples(st.just('mono'), num), st.tuples(st.just('real'), st.sampled_from([-100.0, -5.0, -0.5, 0.0])), st.tuples(st.just('fut'), st.sampled_from([0.5, 100.0])), st.tuples(st.just('fmt'), idx, idx), st.tuples(st.just('ofn'), idx))

def strategy():
    return st.fixed_dictionaries({'ops': st.lists(op.map(list), min_size = 2, max_size = 25)})

def near(a, b, eps = 2e-6):
    return abs(a - b) <= eps

def run(c, rec):
    import sim
    from boot import clock
    from sippy.Time.MonoTime import MonoTime
    w = sim.World()
    start = clock.now
    m = MonoTime()
    obs = [(m, m.monot, m.realt)]              # (object, monotonic, real) as the model knows them
    off = clock.real_off = m.realt - m.monot   # the wall clock starts where the stack believes it to be
    last = m.monot
    wild = 0
    def add(m, mono, real, what):
        V(near(m.monot, mono) and near(m.realt, real), '%s: stamp is (%.6f, %.6f), expected (%.6f, %.6f)' % (what, m.realt, m.monot, real, mono), 'value')
        obs.append((m, m.monot, m.realt))
    def pick(i): return obs[i % len(obs)]
    def stamp():
        nonlocal off, last
        m = MonoTime()
        V(near(m.monot, clock.now) and m.monot >= last, 'new stamp has monotonic time %.6f, now %.6f, previous %.6f' % (m.monot, clock.now, last), 'monotonic')
        raw, new = clock.real_off, m.realt - m.monot
        step = new - off
        if near(raw, off, 1e-5): V(near(new, off, 1e-5), 'wall clock agrees, yet the offset moved from %.6f to %.6f' % (off, new), 'drift')
        else:
            # moves towards the clock, by a small part of the difference
            f = step / (raw - off)
            V(-1e-4 < f < 0.2, 'wall clock offset moved by %.6f while the clock is off by %.6f' % (step, raw - off), 'drift')
            if abs(raw - off) > 0.01: V(f > 1e-4, 'offset %.6f does not follow the clock (%.6f)' % (new, raw), 'drift')
        off, last = new, m.monot
        obs.append((m, m.monot, m.realt))
    for o in c['ops']:
        k = o[0]
        if k == 'wait': clock.now += o[1]
        elif k == 'jump': clock.real_off += o[1]; wild += 1
        elif k == 'now': stamp()
        elif k == 'thread':
            r = []
            def t(): r.append(MonoTime()); r.append(MonoTime())
            th = threading.Thread(target = t)
            th.start(); th.join()
            V(all(near(x.monot, clock.now) for x in r) and r[0] <= r[1], 'stamps made in a thread: %s, now %.6f' % (r, clock.now), 'monotonic')
            V(all(x >= obs_m for x in r for obs_m in [y[0] for y in obs if y[1] <= clock.now - 1e-6]), 'a stamp from a thread is before an earlier one', 'monotonic')
        elif k == 'off':
            m, a, b = pick(o[1])
            m.offset(o[2])
            obs[o[1] % len(obs)] = (m, a + o[2], b + o[2])
        elif k == 'offc':
            m, a, b = pick(o[1])
            add(m.getOffsetCopy(o[2]), a + o[2], b + o[2], 'getOffsetCopy(%r)' % o[2])
        elif k == 'copy':
            m, a, b = pick(o[1])
            add(m.getCopy(), a, b, 'getCopy()')
        elif k == 'cmp':
            (m, a, _), (n, b, _) = pick(o[1]), pick(o[2])
            got = (m < n, m <= n, m == n, m != n, m > n, m >= n)
            V(got == (a < b, a <= b, a == b, a != b, a > b, a >= b), 'comparing %r with %r gives %r' % (a, b, got), 'compare')
            V(not (m == None) and (m != None), 'a stamp equals None', 'compare')
        elif k == 'arith':
            (m, a, _), (n, b, _), x = pick(o[1]), pick(o[2]), o[3]
            for got, want in ((m - n, a - b), (m + n, a + b), (m + x, a + x), (m - x, a - x), (x + m, x + a), (x - m, x - a)):
                V(near(got, want), 'arithmetic on %r, %r, %r gives %r, expected %r' % (a, b, x, got, want), 'arith')
        elif k == 'text':
            m, a, b = pick(o[1])
            add(MonoTime(str(m)), a, b, 'reading back %r' % str(m))
        elif k == 'mono':
            x = clock.now + o[1]
            add(MonoTime(monot = x), x, x + off, 'MonoTime(monot)')
        elif k in ('real', 'fut'):
            # a wall-clock time in the past converts with the current offset; the future is clamped to now
            x = max(clock.now + o[1], start)
            want = min(x, clock.now)
            add(MonoTime(realt = x + off), want, x + off, 'MonoTime(realt) for %.6f s from now' % (x - clock.now))
            m2 = MonoTime('%.6f' % (x + off))
            V(near(m2.monot, want, 4e-6) and near(m2.realt, x + off), 'reading %.6f gives (%.6f, %.6f)' % (x + off, m2.realt, m2.monot), 'value')
            m3 = MonoTime(realt = x + off, trust_realt = True)
            V(near(m3.monot, x), 'MonoTime(realt, trust_realt) is at %.6f, expected %.6f' % (m3.monot, x), 'value')
        elif k == 'ofn':
            m, a, b = pick(o[1])
            V(near(m.offsetFromNow(), clock.now - a), 'offsetFromNow() is %r, expected %r' % (m.offsetFromNow(), clock.now - a), 'arith')
        elif k == 'fmt':
            (m, a, b), (n, ba, br) = pick(o[1]), pick(o[2])
            for base, real in ((None, b), (n, br - (ba - a))):
                t = calendar.timegm(time.strptime(m.ftime(base), '%Y-%m-%d %H:%M:%S+00'))
                V(abs(t - real) <= 0.5 + 1e-5, 'ftime() of %.6f is %r' % (real, m.ftime(base)), 'format')
                s = m.frtime(base)
                t = calendar.timegm(time.strptime(s, '%H:%M:%S.000 GMT %a %b %d %Y'))
                V(-1e-5 <= real - t < 1 + 1e-5, 'frtime() of %.6f is %r' % (real, s), 'format')
                s = m.fptime(base)
                lt = time.localtime(real)
                t = time.mktime(time.strptime('%d %s' % (lt.tm_year, s.rsplit('.', 1)[0]), '%Y %d %b %H:%M:%S')) + int(s.rsplit('.', 1)[1]) / 1000.0
                V(len(s.rsplit('.', 1)[1]) == 3 and -1e-5 <= real - t < 0.0011, 'fptime() of %.6f is %r' % (real, s), 'format')
        for m, a, b in obs:
            V(near(m.monot, a) and near(m.realt, b), 'a stamp changed from (%.6f, %.6f) to (%.6f, %.6f) after %r' % (b, a, m.realt, m.monot, o), 'changed')
    rec.nt(len(obs) > 2 and len(set(x[0] for x in c['ops'])) > 2)
    rec.cls('wall-clock-jumps' if wild else 'steady')

CHECK = Check('C26', 'exploration', [
    Part('stamps', strategy, run, quick = 1500, thorough = 20000, shards = 8, rule = 'at least three stamps and three kinds of operation'),
  ], ['the operating system clocks are replaced by owned ones', 'a stamp built from a wall-clock time uses the offset current at that moment'])
