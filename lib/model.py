"""Reference model of call set-up: from a scenario (no losses, AAA routes) predict every attempt, how it ends, and what
the caller is told - written from the documented meaning of the route options, not from the code."""

L = 0.01    # one-way delay of the simulated network

class Attempt(object):
    def __init__(self, rnum, t0, r):
        self.rnum, self.t0, self.r = rnum, t0, r
        self.end = None             # (time, how, code): how in fail redirect answer timer group caller op expiry408
        self.resp = []              # (arrival at the b2bua, code, body?) of responses sent
        self.again = None           # time it was repeated with credentials

def credit(r, aaa, maxc):
    c = r['crt'] if r['crt'] is not None else aaa
    if maxc is not None and (c is None or c > maxc): c = maxc
    return c

def responses(t0, s):
    """What callee script s sends back, as arrival times at the b2bua, given an INVITE sent at t0."""
    if s['dead']: return []
    base = t0 + L
    ev = [(p['t'], i, p['code']) for i, p in enumerate(s['prov'])]
    if s['final'] is not None:
        ft = max([s['final']['t']] + [p['t'] + 0.05 for p in s['prov']])
        ev = [e for e in ev if e[0] <= ft] + [(ft, 99, s['final']['code'])]
    return [(base + t + L, code) for t, i, code in sorted(ev)]

def limits(r, t0):
    """Time limits that apply to an attempt without any response / with 100 / with more than 100, as absolute times."""
    ex, np, nr = r['expires'], r['np'], r['nr']
    if ex is not None and np is not None and np >= ex: np = None
    if nr is not None and (nr >= 32 or (ex is not None and nr >= ex) or (np is not None and nr >= np)): nr = None
    return [None if x is None else t0 + x for x in (nr, np, ex)]

def predict(case, cl):
    """-> dict(arrive, placed, attempts, final = (t at the b2bua, how, code), outcome)"""
    c, cf = cl.c, case['conf']
    A = c['start'] + L
    x = c['aaa']
    # what interrupts the caller's side
    stop = []
    for a in sorted(c['acts'], key = lambda a: a['t']):
        t = c['start'] + a['t']
        if a['k'] == 'vanish': break            # whatever it does later is lost
        if a['k'] == 'hangup': stop.append((t + L, 'cancel'))
        if a['k'] == 'op': stop.append((t, 'op'))
    stop.append((A + 300.0, 'expire'))
    stop.append((max(k['start'] for k in case['calls']) + case['end'] + (0 if any(a['k'] == 'vanish' and c['start'] + a['t'] < max(k['start'] for k in case['calls']) + case['end'] for a in c['acts']) else L), 'end'))
    ts, how = min(stop)
    out = {'A': A, 'attempts': [], 'final': None, 'early': None, 'tie': False}
    t = A + x['d']
    if ts < t:
        out['final'] = (ts, how, None)
        out['early'] = True                     # interrupted while authorisation was running
        return out
    if not x['ok']:
        out['final'] = (t, 'refused', 403)
        return out
    routes = []
    for n, r in enumerate(c['routes']):
        if credit(r, x['credit'], cf['maxc']) == 0 or r['expires'] == 0: continue
        routes.append((n + 1, r))
    if not routes:
        out['final'] = (t, 'noroute', 500)
        return out
    if c['mf'] is not None and c['mf'] <= 1:
        out['final'] = (t, 'hops', 483)
        return out
    groups = []                                 # pending group timeouts: (time, skip to rnum)
    while routes:
        rnum, r = routes.pop(0)
        a = Attempt(rnum, t, r)
        out['attempts'].append(a)
        if r['gt'] is not None:
            gt, skip = [int(z) for z in r['gt'].split(',')]
            groups.append((t + gt, rnum + skip))
        rs = responses(t, r['callee'])
        nr, np, ex = limits(r, t)
        level = 0                               # 0 nothing heard, 1 100 only, 2 progress
        tmo = t + 32.0
        i = 0
        while a.end is None:
            cand = [(ts, 'stop')]
            if i < len(rs): cand.append((rs[i][0], 'resp'))
            lim = (nr if nr is not None else np if np is not None else ex) if level == 0 else (np if np is not None else ex) if level == 1 else ex
            if lim is not None: cand.append((lim, 'timer'))
            cand.append((tmo, 'tmo'))
            cand += [(g[0], 'group') for g in groups]
            te, what = min(cand)
            if sorted(cand)[1][0] - te < 0.004: out['tie'] = True
            if what == 'resp':
                code = rs[i][1]
                i += 1
                a.resp.append((te, code))
                if code in (401, 407) and r['auth'] == 'u:p' and not a.again:
                    a.again = te                # repeated with credentials: the callee starts over
                    rs, i, tmo = responses(te, r['callee']), 0, te + 32.0
                    continue
                if code < 200:
                    level = max(level, 1 if code == 100 else 2)
                    tmo = te + 300.0
                else:
                    a.end = (te, 'answer' if code < 300 else 'redirect' if code < 303 else 'fail', code)
            elif what == 'timer': a.end = (te, 'timer', None)
            elif what == 'tmo': a.end = (te, 'fail', 408)
            elif what == 'stop': a.end = (te, how, None)
            else:
                g = [z for z in groups if z[0] == te][0]
                groups.remove(g)
                if not routes or routes[0][0] > g[1]: continue
                if g[1] == routes[-1][0] + 1:
                    routes = []                 # last group: no further attempts, this one may go on
                    continue
                while routes and routes[0][0] < g[1]: routes.pop(0)
                a.end = (te, 'group', None)
        t, why, code = a.end
        a.level = level
        if why in ('answer', 'redirect') or a.end[1] == how and code is None and t == ts:
            out['final'] = (t, why, code)
            return out
        if why == 'fail' and code in (r['hs'] or ()):
            out['final'] = (t, why, code)
            return out
        out['final'] = (t, why, code)
    return out
