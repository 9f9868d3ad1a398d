"""C11: set-up limits, credit time and keep-alives of a call leg fire when due, only while their condition holds."""
from hypothesis import strategies as st
from core import Check, Part, Violation
import uah
from uah import T, sdp, PEER
from sim import STACK

EPS = 0.002
def V(k, f, *a): raise Violation(f % a if a else f, k)

def opt(lo, hi, none = 2): return st.sampled_from(range(-none, 3)).flatmap(lambda x: st.none() if x < 0 else st.one_of(st.integers(lo, min(hi, 20)), st.integers(lo, hi), st.integers(lo * 10, hi * 10).map(lambda v: v / 10.0)))

def strat():
    lim = st.fixed_dictionaries({'nr': opt(1, 40), 'np': opt(1, 60), 'ex': opt(1, 90), 'cr': opt(1, 100), 'ka': opt(2, 30)})
    t = st.one_of(T(0, 3, 0.0131), T(0, 30, 0.0131), T(0, 90, 0.0131))
    incall = st.one_of(
      st.tuples(t, st.just('L'), st.just('update'), st.tuples(st.none(), st.sampled_from((1, 2, 3)))),
      st.tuples(t, st.just('L'), st.just('info'), st.tuples(st.none(), st.just(0))),
      st.tuples(t, st.just('L'), st.just('credit'), st.tuples(st.sampled_from((0, 1, 2)), opt(1, 60, 1))),
      st.tuples(t, st.just('P'), st.just('req'), st.tuples(st.sampled_from(('INVITE', 'INVITE', 'INFO', 'OPTIONS')), st.just('ok'), st.sampled_from((0, 1)))),
      st.tuples(t, st.just('P'), st.just('vanish'), st.just([])))
    ends = st.one_of(st.none(), st.tuples(t, st.just('L'), st.sampled_from(('disc', 'disc', 'udisc', 'fail', 'redir')), st.just([])), st.tuples(t, st.just('P'), st.just('bye'), st.just([])), st.tuples(t, st.just('P'), st.just('cancel'), st.just([])))
    def mk(v):
        d, provs, fin, mid, e = v
        d = dict(d)
        A = []
        uac = d['role'] == 'uac'
        late = d['late']
        tt = 0.0
        for dt, code in provs:
            tt = round(tt + dt, 4)
            A.append((tt, 'P' if uac else 'L', 'resp' if uac else 'ring', ((code or 180) if uac else code, 0 if code == 183 else None)))
        if fin is not None:
            tt = round(tt + fin[0], 4)
            code = fin[1]
            if uac:
                A.append((tt, 'P', 'resp', (code, (0 if code == 200 else None))))
                if late and code == 200: A.append((round(tt + fin[2], 4), 'L', 'conn', (200, 1)))
            elif code == 200: A.append((tt, 'L', 'preconn' if late else 'conn', (200, 0)))
            else: A.append((tt, 'L', 'redir' if code == 302 else 'fail', (code, None)))
            A += [(round(a[0] + (tt if d['rel'] else 0), 4),) + tuple(a[1:]) for a in mid]
        else: A += mid
        if e: A.append((round(e[0] + (tt if d['rel'] else 0), 4),) + tuple(e[1:]))
        A.sort(key = lambda a: a[0])
        d['L'] = [(a[0], a[2], a[3]) for a in A if a[1] == 'L']
        d['P'] = [(a[0], a[2], a[3]) for a in A if a[1] == 'P']
        d['sdp'] = None if late else 0
        d['hl'] = [v[0]['hd'] if uac and not late else 0.0]
        d['ackb'] = 3 if late else None
        return d
    base = st.fixed_dictionaries({'role': st.sampled_from(('uac', 'uas')), 'lim': lim, 'end': st.just(200.0), 'late': st.sampled_from((False, False, False, True)), 'rel': st.booleans(),
      'rp': st.lists(st.tuples(T(0, 2, 0.0171), st.sampled_from((200, 200, 200, 200, 488, 491, 481, 408, 486, 500, None)), st.sampled_from((0, 1, 2)), st.sampled_from((None, 100, 180))), max_size = 6),
      'react': st.sampled_from(({'CCEventUpdate': [('conn', (200, 1))]}, {'CCEventUpdate': [('conn', (200, 1))]}, {'CCEventUpdate': [('fail', (488, None))]})), 'rd': st.sampled_from((0, 0, 1.5003, 6.0003)), 'hd': st.sampled_from((0.0, 0.0, 0.4)), 'ackd': st.sampled_from((None,) * 8 + (1.0, 5.0, -1))})
    prov = st.lists(st.tuples(st.one_of(T(0, 2, 0.0057), T(0, 12, 0.0057), T(0, 40, 0.0057)), st.sampled_from((100, 180, 180, 183, None))), max_size = 3)
    final = st.one_of(st.none(), st.tuples(st.one_of(T(0, 3, 0.0073), T(0, 40, 0.0073)), st.sampled_from((200,) * 7 + (404, 503, 302)), st.one_of(T(0, 1, 0.0033), T(0, 20, 0.0033))))
    return st.tuples(base, prov, final, st.lists(incall, max_size = 5), ends).map(mk)

class H(uah.Harness):
    nreact = -1000
    def local_ev(self, k, a = ()):
        if k == 'credit':
            if self.ua is None or self.ua.state is None or self.ua.state.connected and not self.conn: return
            from sippy.Time.MonoTime import MonoTime
            key, secs = a
            now = MonoTime()
            self.local.append((self.w.now, 'credit', str(self.ua.state)))
            self.credits.append((self.w.now, key, None if secs is None else self.w.now + secs))
            self.ua.resetCreditTime(now, {key: None if secs is None else now.getOffsetCopy(secs)})
            return
        super().local_ev(k, a)
    def event(self, ev, ua):
        if self.case['rd'] and ev.name == 'CCEventUpdate':
            self.events.append((self.w.now, ev))
            for k, a in self.case['react']['CCEventUpdate']: self.w.after(self.case['rd'], self.local_ev, k, a)
        else: super().event(ev, ua)
    def peer_act(self, k, a):
        if k == 'bye':
            if self.leg is not None and self.leg.state == 'up': self.peer_req(self.leg, 'BYE')
            return
        super().peer_act(k, a)

def run(case, rec):
    h = H(case)
    h.credits = []
    arr = []
    o = h.w._inject
    import sim
    def inj(data, src, dst):
        arr.append(sim.Dgram(h.w.now, src, dst, data))
        o(data, src, dst)
    h.w._inject = inj
    h.go(60.0)
    judge(h, case, rec, arr)

def judge(h, case, rec, arr):
    uac = case['role'] == 'uac'
    lim = case['lim']
    sent = h.reqs('INVITE')
    if uac:
        if not sent:
            if not case['hl'][0]: V('no-invite', 'no INVITE sent')
            return
        t0, inv = 0.1, sent[0].m
    else:
        f = [d for d in arr if d.m.is_req and d.m.method == 'INVITE']
        if not f: return
        t0, inv = f[0].t, f[0].m
    FAR = 1e9
    ends = sorted([e[0] for e in h.disc] + [e[0] for e in h.fail])
    te = ends[0] if ends else FAR
    resp = [d for d in arr if not d.m.is_req and d.m.method == 'INVITE' and d.m.via.branch == inv.via.branch] if uac else []
    # what stops each limit
    loc = [(t, k) for t, k, s in h.local]
    act = [(t, k, a) for (t, k, a) in h.acts]
    pend = None             # PreConnect..ACK window
    if uac:
        first = min([d.t for d in resp] or [FAR])
        prog = min([d.t for d in resp if d.m.code > 100] or [FAR])
        final = min([d.t for d in resp if d.m.code >= 200] or [FAR])
        maybe = final
    else:
        first = -1.0
        prog = min([t for t, k, a in act if k in ('conn', 'preconn', 'fail', 'redir') or k == 'ring' and a[0] != 100] or [FAR])
        final = min([t for t, k, a in act if k in ('conn', 'fail', 'redir')] or [FAR])
        maybe = min([t for t, k, a in act if k in ('conn', 'preconn', 'fail', 'redir')] or [FAR])
        if any(k == 'preconn' for t, k, a in act): final = min([c[0] for c in h.conn] + [final])
    conn = h.conn[0][0] if h.conn else FAR
    due = []        # (when, name, sure)
    nr, np, ex = lim['nr'], lim['np'], lim['ex']
    if uac and nr is not None and nr < 32 and first > t0 + nr: due.append((t0 + nr, 'no reply', True))
    if np is not None and prog > t0 + np: due.append((t0 + np, 'no progress', True))
    if ex is not None and final > t0 + ex: due.append((t0 + ex, 'overall', maybe > t0 + ex))
    # credit: piecewise
    cr = {}
    if lim['cr'] is not None: cr[0] = conn + lim['cr']
    chg = sorted([c for c in h.credits if c[0] >= conn])
    for c in sorted([c for c in h.credits if c[0] < conn]):
        if not (c[1] == 0 and lim['cr'] is not None): cr[c[1]] = c[2]
    def low(): return min([v for v in cr.values() if v is not None] or [FAR])
    if conn < FAR:
        cur, since = low(), conn
        for c in chg + [(FAR, None, None)]:
            d = max(cur, since)
            if d < c[0] - 1e-6 and d < FAR:
                due.append((d, 'credit', True))
                break
            if c[0] >= FAR: break
            cr[c[1]] = c[2]
            cur, since = low(), c[0]
    # other causes
    why = set()
    for t, k, a in act:
        if k in ('disc', 'udisc', 'fail', 'redir') and abs(t - te) < EPS: why.add('owner')
    for d in arr:
        if abs(d.t - te) < EPS:
            if d.m.is_req and d.m.method in ('BYE', 'CANCEL', 'REFER'): why.add(d.m.method)
            if not d.m.is_req and d.m.method == 'INVITE' and d.m.code >= 300: why.add('refusal')
    for r in sent:
        prov = [d.t for d in arr if not d.m.is_req and d.m.method == 'INVITE' and d.m.via.branch == r.m.via.branch and d.t < r.t + 32]
        if not prov and abs(te - r.t - 32) < 0.05: why.add('timeout')
    if not uac or True:
        for d in h.w.log:
            if d.src == STACK and not d.m.is_req and d.m.method == 'INVITE' and d.m.code >= 200 and abs(te - d.t - 32) < 0.05: why.add('no ack')
    # keep-alives
    kas = keepalives(h, case, arr, act, conn, te)
    for t, first_ in kas['kill']:
        if abs(t - te) < EPS: why.add('keep-alive')
    for t in kas['must']:
        if te > t + EPS: V('ka-kill', 'keep-alive showed the peer gone at %.4f, the leg stayed up', t)
    for when, name, sure in due:
        if sure and when < te - EPS: V('missed', '%s limit (due %.4f, set-up %.4f, connect %s) did not end the leg (ended %s)', name, when, t0, conn, te)
    hit = [n for w_, n, s in due if abs(w_ - te) < EPS]
    rec.nt(bool(hit))
    for n in hit: rec.cls(case['role'], 'hit:' + n)
    for n in why: rec.cls(case['role'], 'end:' + n)
    if te < FAR and not hit and not why: V('early', 'the leg was ended at %.4f (set-up %.4f, connect %.4f) with no limit due (%r) and nothing else happening', te, t0, conn if conn < FAR else -1, due)
    if hit and not why:
        if not h.disc: V('kind', '%s limit reported as failure', hit[0])
        # on the wire
        now = [d for d in h.w.log if d.src == STACK and abs(d.t - te) < EPS]
        if conn < te - EPS:
            if not any(d.m.is_req and d.m.method == 'BYE' for d in now): V('wire', '%s limit: no BYE', hit[0])
        elif maybe > te:
            if uac and any(d.t < te - EPS for d in resp) and not any(d.m.is_req and d.m.method == 'CANCEL' for d in now): V('wire', '%s limit: no CANCEL', hit[0])
            if not uac and not any(not d.m.is_req and d.m.code >= 400 for d in now): V('wire', '%s limit: caller not answered', hit[0])
    if te < FAR:
        n = [e for e in h.events if e[1].name in ('CCEventDisconnect', 'CCEventFail', 'CCEventRedirect')]
        if hit and not why and len([e for e in n if abs(e[0] - te) < EPS]) != 1: V('told', '%s limit: owner got %r', hit[0], [e[1].name for e in n])

def keepalives(h, case, arr, act, conn, te):
    """Judges the keep-alive re-INVITEs; returns the moments at which they may / must end the leg."""
    K = case['lim']['ka'] or 0
    out = {'kill': [], 'must': []}
    ups = [t for t, k, a in act if k == 'update']
    mine = [d for d in h.reqs('INVITE') if d.m.to.tag is not None]
    ka = [d for d in mine if not any(abs(d.t - t) < EPS for t in ups)]
    if not K:
        if ka: V('ka-off', 're-INVITE at %.4f without keep-alive being on', ka[0].t)
        return out
    final = {}
    for d in arr:
        if not d.m.is_req and d.m.method == 'INVITE' and d.m.code >= 200: final.setdefault(d.m.via.branch, (d.t, d.m.code))
    def fin(d):
        b = d.m.via.branch
        if b in final: return final[b]
        any_ = [x.t for x in arr if x.t < d.t + 32 and not x.m.is_req and x.m.method == 'INVITE' and x.m.via.branch == b]
        return (d.t + 32, 408) if not any_ else (1e9, None)
    # entries into / exits from the connected state
    ent = []
    if case['role'] == 'uac': ent += [final[x.m.via.branch][0] for x in h.reqs('INVITE')[:1] if x.m.via.branch in final and final[x.m.via.branch][1] < 300]
    else: ent += [t for t, k, a in act if k in ('conn', 'preconn')][:1]
    if not ent: return out
    T0 = ent[0]
    ex = []
    for d in mine:
        if d not in ka:
            ex.append(d.t)
            f = fin(d)
            ent.append(f[0])
    for t, e in h.events:        # peer's re-INVITEs: settled at once by the owner
        if e.name == 'CCEventUpdate':
            ent.append(t + case['rd'])
            ex.append(t)
    ent = [t for t in ent if t <= te + EPS]
    marks = sorted([(t, 0, 'exit') for t in ex] + [(t, 1, 'enter') for t in ent if t >= T0 - EPS] + [(d.t, 2, d) for d in ka])
    nextk, n, pend = None, 0, None
    for t, _, k in marks + [(min(te, 200.0), 3, 'end')]:
        while True:
            # completion of a pending keep-alive before this mark
            if pend is not None and pend[0] < t - EPS:
                ft, code = pend
                pend = None
                n += 1
                if code in (408, 481, 486):
                    if n == 1: nextk = None; out['kill'].append((ft + 600, 1))
                    else:
                        out['kill'].append((ft, n))
                        out['must'].append(ft)
                        return out
                else: nextk = ft + K
                continue
            break
        if nextk is not None and nextk < t - EPS:
            V('ka-late', 'no keep-alive at %.4f (interval %s, next thing at %.4f)', nextk, K, t)
        if k == 'exit': nextk, pend = None, None
        elif k == 'enter': nextk, pend, n = t + K, None, 0
        elif k == 'end': break
        else:
            if nextk is None or abs(nextk - t) > EPS: V('ka-when', 'keep-alive at %.4f, expected at %s', t, nextk)
            nextk = None
            pend = fin(k)
            h.nka += 1
    if pend is not None and n >= 1 and pend[1] in (408, 481, 486): out['kill'].append((pend[0], n))
    return out
H.nka = 0

def _le(self, k, a = (), base = H.local_ev):
    if self.ua is not None or self.case['role'] == 'uac': self.acts.append((self.w.now, k, list(a) + [None, None]))
    base(self, k, a)
H.local_ev = _le
_init = H.__init__
def init(self, case):
    self.acts = []
    uah.Harness.__init__(self, case)
H.__init__ = init

CHECK = Check('C11', 'exploration', [Part('limits', strat, run, quick = 3000, thorough = 40000, shards = 8, rule = 'a limit ended the leg')])
