"""Runner for property checks: parts, shards, evidence, replay files, known findings."""
import gc, sys, os, json, time, hashlib, traceback, importlib, multiprocessing, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS_DIRS = (os.path.join(VERIF, 'lib') + os.sep, os.path.join(VERIF, 'checks') + os.sep)

class Violation(Exception):
    """The property is broken for this case.  `key` names the class of failure (used by known findings)."""
    def __init__(self, msg, key = None):
        super().__init__(msg)
        self.key = key

class Inconclusive(Exception):
    """This case could not be judged (e.g. a wall-clock wait ran out)."""

class _Stop(KeyboardInterrupt):
    pass

class Part(object):
    def __init__(self, name, strategy, fn, quick = 400, thorough = 4000, shards = 2, tshards = 8,
      rule = '', boot = 'virtual', quick_s = 150.0, thorough_s = 1500.0, steps = None):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough, self.shards, self.tshards = quick, thorough, shards, tshards
        self.rule, self.boot, self.quick_s, self.thorough_s = rule, boot, quick_s, thorough_s

class Rec(object):
    """Per-shard statistics; .nt()/.cls() are called by the case function."""
    def __init__(self):
        self.n = 0
        self.classes = {}
        self.seen = set()
        self.samples = []
        self.known = {}
        self.inconclusive = 0
        self._nt = False
    def begin(self):
        self._nt = False
        self._cls = set()
    def nt(self, cond = True):
        if cond:
            self._nt = True
    def cls(self, *names):
        for n in names:
            self._cls.add(n)
    def end(self, case):
        self.n += 1
        for c in self._cls:
            self.classes[c] = self.classes.get(c, 0) + 1
        if self._nt:
            h = hashlib.sha1(json.dumps(case, sort_keys = True, default = str).encode()).hexdigest()[:16]
            if h not in self.seen:
                self.seen.add(h)
                if len(self.samples) < 2 or (len(self.samples) < 4 and len(self.seen) % 97 == 0):
                    self.samples.append(case)

class Check(object):
    def __init__(self, id, level, parts, assumptions = ()):
        self.id, self.level, self.parts, self.assumptions = id, level, parts, list(assumptions)

def check_module(pid):
    for p in (os.path.join(VERIF, 'lib'), os.path.join(VERIF, 'checks')):
        if p not in sys.path:
            sys.path.insert(0, p)
    return importlib.import_module(pid.lower())

def classify_exception(ex):
    """'sut' if the innermost frame among harness and repository frames belongs to the repository."""
    where = None
    tb = ex.__traceback__
    rp = os.path.realpath(REPO) + os.sep
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(rp):
            where = 'sut'
        elif any(fn.startswith(d) for d in HARNESS_DIRS):
            where = 'harness'
        tb = tb.tb_next
    return where or 'harness'

def known_findings(pid):
    fn = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(fn):
        return {}
    with open(fn) as f:
        return {k['key']: k for k in json.load(f).get('findings', []) if k['property'] == pid}

def run_case(part, case, rec):
    """Execute one case; returns None or (message, key)."""
    rec.begin()
    try:
        part.fn(case, rec)
    except Violation as ex:
        return (str(ex), ex.key)
    except Inconclusive:
        rec.inconclusive += 1
        return None
    except (_Stop, MemoryError, SystemExit):
        raise
    except Exception as ex:
        if type(ex).__module__.startswith('hypothesis'):
            raise
        if classify_exception(ex) == 'sut':
            tb = traceback.format_exception(type(ex), ex, ex.__traceback__)
            return ('unexpected exception from the code under test: ' + ''.join(tb[-6:]), 'exc:' + type(ex).__name__)
        raise
    rec.end(case)
    return None

def boot_part(part):
    import boot
    boot.boot(virtual = (part.boot == 'virtual'))

def shard_main(pid, pidx, shard, nshards, seed, tier, conn):
    """Child process: run one shard of one part."""
    devnull = os.open(os.devnull, os.O_WRONLY)
    if os.environ.get('VERIF_DEBUG') is None:
        os.dup2(devnull, 1)
        sys.stdout = open(os.devnull, 'w')
    res = {'part': pidx, 'shard': shard}
    try:
        mod = check_module(pid)
        part = mod.CHECK.parts[pidx]
        boot_part(part)
        rec = Rec()
        known = known_findings(pid)
        viol = _explore(mod, part, rec, known, shard, nshards, seed, tier)
        res.update(n = rec.n, seen = sorted(rec.seen), classes = rec.classes, samples = rec.samples,
          known = rec.known, inconclusive = rec.inconclusive, violation = viol)
    except BaseException as ex:
        res['error'] = ''.join(traceback.format_exception(type(ex), ex, ex.__traceback__))[-6000:]
    try:
        conn.send(json.dumps(res, default = str))
        conn.close()
    finally:
        sys.stderr.flush()
        os._exit(0)

def regress_cases(pid, part):
    d = os.path.join(VERIF, 'regress')
    out = []
    if os.path.isdir(d):
        for fn in sorted(os.listdir(d)):
            if fn.startswith(pid + '-') and fn.endswith('.json'):
                with open(os.path.join(d, fn)) as f:
                    r = json.load(f)
                if r['part'] == part.name:
                    out.append(r['case'])
    return out

ROUND = 2500

def _explore(mod, part, rec, known, shard, nshards, seed, tier):
    import hypothesis
    from hypothesis import settings, given, HealthCheck, Phase
    pid = mod.CHECK.id
    best = []           # [size, case, msg, key]
    first_fail = [None]
    t0 = time.monotonic()
    budget = part.quick_s if tier == 'quick' else part.thorough_s
    shrink_s = float(os.environ.get('VERIF_SHRINK_S') or (45.0 if tier == 'quick' else 120.0))

    def one(case):
        now = time.monotonic()
        if first_fail[0] is not None and now - first_fail[0] > shrink_s:
            raise _Stop()
        if first_fail[0] is None and now - t0 > budget:
            raise _Stop()
        r = run_case(part, case, rec)
        if r is None:
            return
        msg, key = r
        if key is not None and key in known:
            rec.known[key] = rec.known.get(key, 0) + 1
            return
        if first_fail[0] is None:
            first_fail[0] = time.monotonic()
        size = len(json.dumps(case, default = str))
        if len(best) == 0 or size < best[0]:
            best[:] = [size, case, msg, key]
        raise Violation(msg, key)

    if shard == 0:
        for case in regress_cases(pid, part):
            try:
                one(case)
            except Violation:
                return {'part': part.name, 'case': best[1], 'message': best[2], 'key': best[3]}
    n = part.quick if tier == 'quick' else part.thorough
    strategy = part.strategy() if callable(part.strategy) else part.strategy
    # Hypothesis remembers every choice of a run (0.3 MB for a call script): long runs are cut into rounds.
    done, rnd = 0, 0
    while done < n:
        m = min(n - done, ROUND)
        @hypothesis.seed(seed * 100003 + sum(ord(c) * (i + 1) for i, c in enumerate(part.name)) * 101 + shard + rnd * 7919)
        @settings(max_examples = m, database = None, deadline = None, derandomize = False,
          phases = (Phase.generate, Phase.shrink), suppress_health_check = list(HealthCheck),
          print_blob = False, report_multiple_bugs = False, verbosity = hypothesis.Verbosity.quiet)
        @given(strategy)
        def t(case):
            one(case)
        try:
            t()
        except _Stop:
            break
        except Violation:
            pass
        except Exception as ex:
            if len(best) == 0:
                raise
        if len(best) > 0:
            break
        done += m
        rnd += 1
        del t
        gc.collect()
    if len(best) > 0:
        return {'part': part.name, 'case': best[1], 'message': best[2], 'key': best[3]}
    return None

def run_check(pid, tier, seed, only_part = None, scale = 1.0, nproc = None):
    t0 = time.monotonic()
    mod = check_module(pid)
    chk = mod.CHECK
    jobs = []
    for pidx, part in enumerate(chk.parts):
        if only_part is not None and part.name != only_part:
            continue
        ns = part.shards if tier == 'quick' else part.tshards
        for s in range(ns):
            jobs.append((pidx, s, ns))
    nproc = nproc or min(8, os.cpu_count() or 1)
    jobs.sort(key = lambda j: j[1])
    ctx = multiprocessing.get_context('fork')
    running, results, errors = {}, [], []
    violation = None
    queue = list(jobs)
    hard = (1.0 if tier == 'quick' else 10.0) * 780.0
    while (queue or running) and violation is None and time.monotonic() - t0 <= hard:    # a violation counts for more than an error elsewhere
        while queue and len(running) < nproc:
            pidx, s, ns = queue.pop(0)
            rx, tx = ctx.Pipe(False)
            pr = ctx.Process(target = shard_main, args = (pid, pidx, s, ns, seed, tier, tx))
            pr.start()
            tx.close()
            running[rx] = (pr, pidx, s)
        ready = multiprocessing.connection.wait(list(running.keys()), timeout = 5.0)
        for rx in ready:
            pr, pidx, s = running.pop(rx)
            try:
                res = json.loads(rx.recv())
            except EOFError:
                pr.join(5)
                res = {'part': pidx, 'shard': s, 'error': 'shard process died (exit code %r)' % pr.exitcode}
            pr.join(10)
            if 'error' in res:
                errors.append(res)
            else:
                results.append(res)
                if res['violation'] is not None and violation is None:
                    violation = res['violation']
        if time.monotonic() - t0 > hard and violation is None:
            errors.append({'error': 'hard time limit: shards %r still running' % [(v[1], v[2]) for v in running.values()]})
    for rx, (pr, pidx, s) in running.items():
        pr.kill()
        pr.join(5)
    wall = time.monotonic() - t0
    seen, classes, samples, known, n, inc = set(), {}, [], {}, 0, 0
    per_part = {}
    for r in results:
        pn = chk.parts[r['part']].name
        n += r['n']
        inc += r['inconclusive']
        seen.update(pn + ':' + h for h in r['seen'])
        for k, v in r['classes'].items():
            classes[pn + '.' + k] = classes.get(pn + '.' + k, 0) + v
        pp = per_part.setdefault(pn, {'evaluations': 0, 'nontrivial': set()})
        pp['evaluations'] += r['n']
        pp['nontrivial'].update(r['seen'])
        for s_ in r['samples']:
            if sum(1 for x in samples if x['part'] == pn) < 2:
                samples.append({'part': pn, 'case': s_})
        for k, v in r['known'].items():
            known[k] = known.get(k, 0) + v
    for pp in per_part.values():
        pp['distinct_nontrivial'] = len(pp.pop('nontrivial'))
    rule = '; '.join('%s: %s' % (p.name, p.rule) for p in chk.parts)
    cov = {'evaluations': n, 'distinct_nontrivial': len(seen), 'rule': rule, 'samples': samples,
      'parts': per_part, 'classes': dict(sorted(classes.items())), 'inconclusive': inc,
      'known_findings_hit': known}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': chk.level, 'coverage': cov,
      'assumptions': chk.assumptions, 'wall_s': round(wall, 2), 'violations': 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok = True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent = 1, default = str)
    kf = known_findings(pid)
    for k in sorted(kf):
        print('KNOWN-FINDING: property=%s %s' % (pid, kf[k]['what']))
    if violation is not None:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok = True)
        path = os.path.join(VERIF, 'replays', '%s-%s.json' % (pid, violation['part']))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'part': violation['part'], 'case': violation['case'],
              'message': violation['message'], 'key': violation['key'], 'seed': seed, 'tier': tier}, f, indent = 1, default = str)
        print('%s [%s] %s' % (pid, violation['part'], violation['message']))
        print('case: %s' % json.dumps(violation['case'], default = str)[:3000])
        print('VIOLATION property=%s replay=%s' % (pid, path), flush = True)
        return 1
    if len(errors) > 0:
        for e in errors[:2]:
            print('HARNESS ERROR in %s: %s' % (pid, e['error']), file = sys.stderr)
        return 2
    print('OK property=%s evaluations=%d distinct_nontrivial=%d inconclusive=%d wall=%.1fs' % (pid, n, len(seen), inc, wall), flush = True)
    return 0

def replay(pid, path):
    with open(path) as f:
        r = json.load(f)
    mod = check_module(pid)
    part = [p for p in mod.CHECK.parts if p.name == r['part']][0]
    boot_part(part)
    rec = Rec()
    res = run_case(part, r['case'], rec)
    if res is None:
        print('replay: property holds for this case', rec._cls)
        return 0
    print(res[0])
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1
