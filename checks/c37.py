"""C37: the SIP log - every record once, whole, in order, in the right file."""
import datetime, fcntl, io, math, os, re, shutil, signal, sys, syslog, tempfile, threading, time
from hypothesis import strategies as st
from core import Check, Part, Violation

missed = []

def V(cond, msg, key = None):
    if not cond:
        raise Violation(msg, key)

LEVELS = ['DBUG', 'INFO', 'WARN', 'ERR', 'CRIT']
TSTART = 1700000000.25
text = st.one_of(st.sampled_from(['', 'x', '%s %d', 'INVITE sip:1@2 SIP/2.0\r\nVia: x\r\n\r\n', 'a\nb', 'é\u0416\U0001f600', '\x00\x01', ' ', '\\']), st.text(alphabet = 'ab \n\r%é\t', max_size = 20))
arg = st.one_of(text, text, text, st.integers(-5, 10 ** 9), st.none(), st.sampled_from([1.5, True]))
long = st.sampled_from([0] * 12 + [5000, 8192, 100000])
ltime = st.one_of(st.none(), st.sampled_from([0.25, 0.0, 59.875, 60, 3599.5, 3600, 86400.125, 400000.5, 1e6 + 0.625]), st.integers(0, 8 * 10 ** 7).map(lambda n: n / 8.0))
cid = st.sampled_from([None, None, None, 'GLOBAL', 'abc@1.2.3.4', '', 'a%sb', 'é'])
lvl = st.sampled_from([None, None, None, 0, 1, 2, 3, 4])
ix = st.integers(0, 2)
logger = st.fixed_dictionaries({'bend': st.sampled_from(['file', 'file', 'logfile', 'file', 'file', 'stderr', 'STDERR', 'syslog', 'none', None]), 'file': st.integers(0, 1), 'env': st.booleans(), 'app': st.sampled_from(['b2bua', 'x y', 'sip']),
  'cid': st.sampled_from([None, None, 'me']), 'pid': st.sampled_from([None, None, 0, 4711]), 'lvl': st.sampled_from([None, None, 0, 1, 2, 3, 4]), 'tform': st.sampled_from([None, 'abs', 'rel', 'REL', 'rel']), 'tstart': st.booleans()})
write = st.tuples(st.just('w'), ix, st.lists(arg, min_size = 1, max_size = 4), long, ltime, cid, lvl)
op = st.one_of(write, write, write, write,
  st.tuples(st.just('par'), st.lists(st.tuples(ix, st.integers(1, 40), long), min_size = 2, max_size = 4)),
  st.tuples(st.just('rot'), st.integers(0, 1), st.sampled_from(['call', 'call', 'signal'])),
  st.tuples(st.just('gone'), st.integers(0, 1)),
  st.tuples(st.just('stall'), ix, st.sampled_from([3, 30, 400, 990, 1000, 1300, 2500]), st.booleans()),
  st.tuples(st.just('drain')))

def tolist(x): return [tolist(y) for y in x] if isinstance(x, (tuple, list)) else {k: tolist(v) for k, v in x.items()} if isinstance(x, dict) else x

def strategy():
    return st.fixed_dictionaries({'loggers': st.lists(logger, min_size = 1, max_size = 3), 'ops': st.lists(op, min_size = 1, max_size = 12), 'down': st.sampled_from(['drain', 'now', 'now'])}).map(tolist)

def fds(): return len(os.listdir('/proc/self/fd'))

ENV = ('SIPLOG_BEND', 'SIPLOG_TFORM', 'SIPLOG_TSTART', 'SIPLOG_LVL', 'SIPLOG_LOGFILE_FILE')
OWN = re.compile(r'\d\d (?:Jan|Feb|Mar|Apr|May|Jun|Jul|Aug|Sep|Oct|Nov|Dec) \d\d:\d\d:\d\d\.\d{3}/[^\n]*: (?:Registering|Dispatching) signal 10 to handler [^\n]*\n|\d\d+:\d\d:\d\d\.\d{3}/[^\n]*: (?:Registering|Dispatching) signal 10 to handler [^\n]*\n')
MON = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()

def stamp(ms, rel):
    """The time in the log for a time in milliseconds."""
    s, ms = divmod(ms, 1000)
    if rel: return '%02d:%02d:%02d.%03d' % (s // 3600, s // 60 % 60, s % 60, ms)
    d = datetime.datetime.fromtimestamp(s)
    return '%02d %s %02d:%02d:%02d.%03d' % (d.day, MON[d.month - 1], d.hour, d.minute, d.second, ms)

class Rec(object): pass

def run(case, rec):
    import qelp
    elp = qelp.install()
    saved = {k: os.environ.get(k) for k in ENV}
    real_err, real_out, real_syslog = sys.__stderr__, sys.stdout, (syslog.openlog, syslog.syslog, syslog.closelog)
    old_sig = signal.signal(signal.SIGUSR1, signal.SIG_IGN)
    top = tempfile.mkdtemp(prefix = 'c37.')
    live, held = [], []
    t0, f0 = threading.active_count(), fds()
    try:
        with qelp.watchdog(60):
            sys.stdout = io.StringIO()
            _run(case, rec, elp, top, live, held, t0, f0)
    finally:
        sys.__stderr__, sys.stdout = real_err, real_out
        syslog.openlog, syslog.syslog, syslog.closelog = real_syslog
        for k, v in saved.items():
            if v is None: os.environ.pop(k, None)
            else: os.environ[k] = v
        for f in held:
            try: os.close(f)
            except OSError: pass
        for g in live:
            # unless the thread is dead already
            try:
                if g.log.logger is not None and g.log.logger.is_alive(): g.log.shutdown()
            except Exception: pass
        signal.signal(signal.SIGUSR1, signal.SIG_IGN)
        elp.run()
        signal.signal(signal.SIGUSR1, old_sig)
        shutil.rmtree(top)

class G(object): pass

def _run(case, rec, elp, top, live, held, t0, f0):
    from sippy.SipLogger import SipLogger
    err = sys.__stderr__ = io.StringIO()
    sysl, opened = [], []
    syslog.openlog = lambda *a: opened.append(a)
    syslog.syslog = lambda pri, s: sysl.append((pri, s))
    syslog.closelog = lambda: opened.append('closed')
    gen = [0, 0]                    # how many times each file has been moved away
    paths = []
    for i in (0, 1):
        os.mkdir('%s/d%d' % (top, i))
        paths.append('%s/d%d/sip.log' % (top, i))
    places = [[paths[0]], [paths[1]]]        # file -> where its generations are now
    gs, seq = [], [0]
    def filename(i, k): return places[i][k]
    def read(p):
        try: f = open(p, 'rb')
        except FileNotFoundError: return ''
        with f: return f.read().decode('utf-8', 'replace')

    nsys = 0
    for c in case['loggers']:
        if c['bend'] == 'syslog':
            nsys += 1
            if nsys > 1: continue
        for k in ENV: os.environ.pop(k, None)
        if c['bend']: os.environ['SIPLOG_BEND'] = c['bend']
        if c['tform']: os.environ['SIPLOG_TFORM'] = c['tform']
        if c['tstart']: os.environ['SIPLOG_TSTART'] = str(TSTART)
        if c['lvl'] is not None: os.environ['SIPLOG_LVL'] = LEVELS[c['lvl']]
        kw = {}
        if c['cid']: kw['call_id'] = c['cid']
        if c['env']: os.environ['SIPLOG_LOGFILE_FILE'] = paths[c['file']]
        kw['logfile'] = '%s/nowhere.log' % top if c['env'] else paths[c['file']]
        g = G()
        g.c, g.i, g.recs, g.kind = c, len(gs), [], {'file': 'file', 'logfile': 'file', 'syslog': 'syslog', 'none': 'none'}.get(c['bend'], 'stderr')
        g.level = 1 if c['lvl'] is None else c['lvl']
        g.rel = (c['tform'] or '').lower() == 'rel'
        g.t0 = time.time()
        g.log = SipLogger(c['app'], **kw)
        g.t1 = time.time()
        if c['tstart']: g.t0 = g.t1 = TSTART
        if c['pid'] is not None: g.log.pid = c['pid']
        gs.append(g); live.append(g)
    n_th = sum(g.kind in ('file', 'syslog') for g in gs)
    V(threading.active_count() == t0 + n_th, '%d loggers run %d threads' % (n_th, threading.active_count() - t0), 'threads')
    lock = threading.Lock()

    def put(g, args, lt, cid, lvl, lane):
        r = Rec()
        with lock: seq[0] += 1; n = seq[0]
        r.n, r.lane, r.may = n, lane, False
        r.text = '<%d>' % n + ''.join(str(x) for x in args) + '</%d>' % n
        kw = {}
        if cid is not None: kw['call_id'] = cid
        if lvl is not None: kw['level'] = lvl
        r.shown = (1 if lvl is None else lvl) >= g.level and g.kind != 'none'
        r.tail = '/%s%s%s: %s\n' % (cid if cid is not None else (g.c['cid'] or 'GLOBAL'), '' if g.kind == 'syslog' else '/' + g.c['app'], '[%d]' % g.c['pid'] if g.c['pid'] is not None else '', r.text)
        r.lo = gen[g.c['file']]
        r.at = None
        if lt is not None: kw['ltime'] = r.at = (g.t1 if g.rel and not g.c['tstart'] else TSTART) + lt
        r.a = time.time()
        try: ret = g.log.write('<%d>' % n, *(list(args) + ['</%d>' % n]), **kw)
        except Exception as e: raise Violation('write(%r, %r) raised %r' % (args, kw, e), 'raise')
        r.b = time.time()
        if r.at is not None: r.a = r.b = r.at
        with lock: g.recs.append(r)
        return r

    def heads(g, r):
        if r.at is not None and (not g.rel or g.c['tstart']):
            ms = int(round((r.at - (TSTART if g.rel else 0)) * 1000))
            return [stamp(ms, g.rel)]
        base = (g.t0, g.t1) if g.rel else (0, 0)
        lo, hi = int(math.floor((r.a - base[1]) * 1000)) - 1, int(math.floor((r.b - base[0]) * 1000)) + 1
        return (lo, hi)

    def whole(i):
        """Content of all the generations of a file: (text, starts)."""
        t, starts = '', []
        for k in range(gen[i] + 1):
            starts.append(len(t)); t += read(places[i][k])
        return t, starts

    def positions(g, content):
        out = []
        for r in g.recs:
            if not r.shown: continue
            p = content.find(r.tail)
            out.append((r, p))
        return out

    def done():
        for i in (0, 1):
            fg = [g for g in gs if g.kind == 'file' and g.c['file'] == i]
            if not fg: continue
            content, _ = whole(i)
            if any(p < 0 and not r.may for g in fg for r, p in positions(g, content)): return False
        return all(any(r.tail.rstrip('\n') in m.rstrip('\n') for _, m in sysl) for g in gs if g.kind == 'syslog' for r in g.recs if r.shown and not r.may)

    def drain():
        end = time.monotonic() + (10.0 if not missed else 2.0)
        nap = 0.0005
        while not done():
            if time.monotonic() > end: missed.append(1); break
            time.sleep(nap); nap = min(nap * 2, 0.05)
        check(False)
        for g in gs:
            for r in g.recs: r.hi = gen[g.c['file']] if r.hi is None else r.hi

    def check(final):
        for i in (0, 1):
            fg = [g for g in gs if g.kind == 'file' and g.c['file'] == i]
            if not fg: continue
            content, starts = whole(i)
            spans = []
            for g in fg:
                lanes = {}
                for r, p in positions(g, content):
                    what = 'record %d of logger %d (%s)' % (r.n, g.i, r.tail[:60])
                    if p < 0:
                        q = content.find('<%d>' % r.n)
                        V(q < 0 or (r.may and not final), '%s is in the file as %r' % (what, content[max(0, q - 40):q + 60]), 'mangled')
                        V(r.may, '%s is not in the file' % what, 'lost')
                        continue
                    V(content.count('<%d>' % r.n) == 1, '%s is there %d times' % (what, content.count('<%d>' % r.n)), 'twice')
                    k = max(j for j in range(len(starts)) if starts[j] <= p)
                    hd = heads(g, r)
                    if isinstance(hd, list):
                        V(content[:p].endswith(hd[0]), '%s is stamped %r, not %r' % (what, content[max(0, p - 19):p], hd[0]), 'time')
                        q = p - len(hd[0])
                    else:
                        m = re.search(r'(\d\d+:\d\d:\d\d\.\d{3}|\d\d \w\w\w \d\d:\d\d:\d\d\.\d{3})\Z', content[max(0, p - 30):p])
                        V(m, '%s has no time: %r' % (what, content[max(0, p - 30):p]), 'time')
                        ok = any(stamp(x, g.rel) == m.group(1) for x in range(max(0, hd[0]), hd[1] + 1))
                        V(ok, '%s is stamped %r, it was written between %s and %s' % (what, m.group(1), stamp(max(0, hd[0]), g.rel), stamp(max(0, hd[1]), g.rel)), 'time')
                        q = p - len(m.group(1))
                    V(k >= r.lo, '%s was written after %d rotations, it is in the file of before (%d)' % (what, r.lo, k), 'rotation')
                    V(r.hi is None or k <= r.hi, '%s is in file %d, it was on the disk by %s' % (what, k, r.hi), 'rotation')
                    V(lanes.get(r.lane, -1) < p, '%s is not in order' % what, 'order')
                    lanes[r.lane] = p
                    spans.append((q, p + len(r.tail)))
                for r in g.recs:
                    V(r.shown or '<%d>' % r.n not in content, 'record %d of level below %d is in the file of logger %d' % (r.n, g.level, g.i), 'level')
            if final:
                spans.sort()
                rest, last = [], 0
                for a, b in spans:
                    V(a >= last, 'records overlap in %r' % content[a:b][:80], 'mangled')
                    rest.append(content[last:a]); last = b
                rest.append(content[last:])
                for x in rest:
                    left = OWN.sub('', x)
                    V(left == '', 'nobody wrote %r to the log' % left[:120], 'extra')
        if not final: return
        errs = [g for g in gs if g.kind == 'stderr']
        compare(errs, [(None, x) for x in [err.getvalue()]], True)
        compare([g for g in gs if g.kind == 'syslog'], sysl, False)

    def compare(gg, out, ordered):
        joined = ''.join(x for _, x in out)
        total = 0
        for g in gg:
            last = -1
            for r in g.recs:
                p = joined.find(r.tail)
                if not r.shown:
                    V('<%d>' % r.n not in joined, 'record %d of level below %d is there' % (r.n, g.level), 'level'); continue
                if r.may and p < 0: continue
                V(p >= 0, 'record %d (%r) is not there: %r' % (r.n, r.tail[:50], joined[-200:]), 'lost')
                V(p > last or r.lane, 'record %d is not in order' % r.n, 'order')
                if not r.lane: last = p
                hd = heads(g, r)
                got = re.search(r'(\d\d+:\d\d:\d\d\.\d{3}|\d\d \w\w\w \d\d:\d\d:\d\d\.\d{3})\Z', joined[max(0, p - 30):p])
                V(got, 'record %d has no time' % r.n, 'time')
                ok = got.group(1).endswith(hd[0]) if isinstance(hd, list) else any(stamp(x, g.rel) == got.group(1) for x in range(max(0, hd[0]), hd[1] + 1))
                V(ok, 'record %d is stamped %r, not %r' % (r.n, got.group(1), hd), 'time')
                total += 1
                V(joined.count('<%d>' % r.n) == 1, 'record %d is there twice' % r.n, 'twice')
        if not ordered: V(len(sysl) == total, '%d records sent to syslog, %d written' % (len(sysl), total), 'extra')

    cls = set()
    n_rot = 0
    for o in case['ops']:
        if o[0] in ('w', 'stall'): g = gs[o[1] % len(gs)]
        if o[0] == 'w':
            args = o[2] + (['y' * o[3]] if o[3] else [])
            put(g, args, o[4], o[5], o[6], 0).hi = None
        elif o[0] == 'par':
            ths = []
            rdy = threading.Barrier(len(o[1]))
            bad = []
            def work(lane, spec):
                gg = gs[spec[0] % len(gs)]
                rdy.wait()
                for j in range(spec[1]):
                    try: put(gg, ['p', lane, j, 'z' * (spec[2] if j % 8 == 0 else 0)], 12345.5, None, None, lane).hi = None
                    except Violation as e: bad.append(e)
            for j, spec in enumerate(o[1]):
                ths.append(threading.Thread(target = work, args = (seq[0] * 10 + j + 1, spec)))
            for t in ths: t.start()
            for t in ths: t.join()
            for e in bad: raise e
            cls.add('par')
        elif o[0] == 'rot':
            # what logrotate does
            i = o[1]
            fg = [g for g in gs if g.kind == 'file' and g.c['file'] == i]
            if not fg: continue
            if not os.path.exists(paths[i]): drain()
            if not os.path.exists(paths[i]): continue
            to = '%s/d%d/sip.log.%d' % (top, i, gen[i])
            os.rename(paths[i], to)
            places[i][gen[i]] = to
            places[i].append(paths[i])
            if o[2] == 'signal':
                os.kill(os.getpid(), signal.SIGUSR1)
                t = time.monotonic() + 5
                while elp.q.empty() and time.monotonic() < t: time.sleep(0.001)
                elp.run()
            else:
                for g in fg: g.log.reopen()
            gen[i] += 1
            n_rot += 1
            cls.add('rotated'); cls.add(o[2])
        elif o[0] == 'gone':
            # reopened while there is nowhere to put the file: the old one goes on
            i = o[1]
            fg = [g for g in gs if g.kind == 'file' and g.c['file'] == i]
            if not fg: continue
            # all of them have got their file
            for g in fg: put(g, ['here'], None, None, 4, 0).hi = None
            drain()
            if not os.path.exists(paths[i]): continue
            away = '%s/away%d' % (top, i)
            os.rename('%s/d%d' % (top, i), away)
            old = list(places[i])
            places[i][:] = [p.replace('%s/d%d/' % (top, i), away + '/') for p in places[i]]
            for g in fg: g.log.reopen()
            for g in fg: put(g, ['gone'], None, None, 4, 0).hi = None
            drain()
            os.rename(away, '%s/d%d' % (top, i))
            places[i][:] = old
            cls.add('gone')
        elif o[0] == 'stall':
            # somebody holds the file while many records come
            if g.kind != 'file': continue
            drain()
            i = g.c['file']
            f = os.open(places[i][gen[i]], os.O_WRONLY | os.O_APPEND | os.O_CREAT)
            held.append(f)
            fcntl.flock(f, fcntl.LOCK_EX)
            rs = []
            was = len(g.recs)
            rs.append(put(g, ['first'], None, None, 4, 0)); rs[-1].hi = None
            time.sleep(0.02)
            for j in range(o[2]):
                if o[3] and j == o[2] // 3 and gen[i] < 5:
                    to = '%s/d%d/sip.log.%d' % (top, i, gen[i])
                    os.rename(paths[i], to); places[i][gen[i]] = to; places[i].append(paths[i])
                    for h in gs:
                        if h.kind == 'file' and h.c['file'] == i: h.log.reopen()
                    gen[i] += 1; n_rot += 1
                rs.append(put(g, [j], None if j % 200 == 0 else 777.125, None, 4, 0)); rs[-1].hi = None
            for r in rs[:-1000]: r.may = True
            time.sleep(0.03)
            fcntl.flock(f, fcntl.LOCK_UN)
            os.close(f); held.remove(f)
            drain()
            if len(rs) <= 1000: V(g.log.discarded == 0 or any(x.may for x in g.recs[:was]), '%d records discarded out of %d' % (g.log.discarded, len(rs)), 'lost')
            cls.add('stalled')
            if o[2] > 1000: cls.add('too slow')
        elif o[0] == 'drain': drain()
    if case['down'] == 'drain': drain()
    for g in gs: g.log.shutdown()
    V(threading.active_count() == t0, '%d threads are left' % (threading.active_count() - t0), 'threads')
    check(True)
    lost = 0
    for g in gs:
        content = whole(g.c['file'])[0] if g.kind == 'file' else ''
        if g.kind == 'file':
            lost = sum(r.shown and r.tail not in content for r in g.recs)
            V(lost == g.log.discarded, 'logger %d counted %d discarded records, %d are missing' % (g.i, g.log.discarded, lost), 'count')
    for g in gs:
        g.log.shutdown()
        if g.kind != 'stderr': g.log.write('late')
    V(fds() == f0, '%d file descriptors are left' % (fds() - f0), 'fds')
    V(signal.getsignal(signal.SIGUSR1) == signal.SIG_IGN, 'the handler of SIGUSR1 is still there', 'signal')
    V(not os.path.exists('%s/nowhere.log' % top), 'the file of the parameter was used in spite of the environment', 'file')
    kinds = set(g.kind for g in gs)
    total = sum(len(g.recs) for g in gs)
    rec.nt(total >= 3 and kinds != {'none'})
    rec.cls(*(sorted(cls) + sorted(kinds)))
    if len([g for g in gs if g.kind == 'file']) > 1: rec.cls('several on file')

CHECK = Check('C37', 'exploration', [
  Part('log', strategy, run, quick = 120, thorough = 1500, shards = 8, boot = 'real', rule = 'at least three records written'),
])
