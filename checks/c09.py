"""C09: the story one call leg tells its owner, under every order of local events, peer messages and losses."""
from hypothesis import strategies as st
from core import Check, Part, Violation
import uah
from uah import T, spread, N

PROV = (100, 180, 183, 199)
FIN = (200, 200, 200, 202, 302, 300, 401, 404, 407, 408, 481, 486, 487, 500, 503, 603)

def levents(uac):
    k = [st.tuples(spread(0.0131), st.just('ring'), st.tuples(st.sampled_from((None, 180, 183, 100)), N)),
      st.tuples(spread(0.0131), st.sampled_from(('conn', 'conn', 'preconn')), st.tuples(st.sampled_from((200, 202)), N)),
      st.tuples(spread(0.0131), st.just('update'), st.tuples(st.none(), N)),
      st.tuples(spread(0.0131), st.just('update'), st.tuples(st.none(), N)),
      st.tuples(spread(0.0131), st.just('info'), st.tuples(st.none(), N)),
      st.tuples(spread(0.0131), st.sampled_from(('disc', 'udisc', 'disc')), st.just([])),
      st.tuples(spread(0.0131), st.just('fail'), st.tuples(st.sampled_from((404, 486, 503)), st.none())),
      st.tuples(spread(0.0131), st.just('redir'), st.tuples(st.sampled_from((300, 302)), st.none()))]
    if uac: k.append(st.tuples(spread(0.0131), st.just('try'), st.tuples(st.none(), N)))
    return st.one_of(*k)

def preq():
    return st.tuples(spread(0.0217), st.just('req'), st.tuples(st.sampled_from(('BYE', 'INVITE', 'INVITE', 'INFO', 'OPTIONS', 'REFER', 'MESSAGE', 'UPDATE')), st.sampled_from(('ok',) * 6 + ('cseq', 'ttag', 'ftag', 'callid')), N))

LIM = lambda: st.fixed_dictionaries({'np': st.sampled_from((None, None, 2, 7, 40)), 'nr': st.sampled_from((None, None, 1, 4, 35)), 'ex': st.sampled_from((None, None, 3, 9, 60)), 'cr': st.sampled_from((None, None, 1, 5, 30)), 'ka': st.sampled_from((None, None, 4, 20))})
HOOK = lambda lo: st.lists(st.sampled_from((0, 0.05, 0.05, 0.6, 1.7, 6.0, -0.3) if lo == 0 else (0.0, 0.05, 0.6, 1.7, 6.0, -0.3)), max_size = 4)
RP = lambda: st.lists(st.tuples(st.one_of(T(0, 3, 0.0171), T(0, 40, 0.0171)), st.sampled_from((200, 200, 200, 488, 491, 500, 408, 481, 302, 401, None)), N, st.sampled_from((None, None, 100, 180))), max_size = 3)

def common(uac):
    return {'sdp': st.sampled_from((0, 0, 0, None)), 'lim': LIM(), 'hl': HOOK(1), 'hr': HOOK(0), 'rp': RP(), 'end': st.sampled_from((5.0, 20.0, 90.0)),
      'react': st.dictionaries(st.sampled_from(('CCEventTry', 'CCEventRing', 'CCEventConnect', 'CCEventUpdate', 'CCEventInfo')), st.lists(st.tuples(st.sampled_from(('ring', 'conn', 'update', 'disc', 'info', 'fail')), st.tuples(st.none(), N)), min_size = 1, max_size = 1), max_size = 1),
      'loss': st.one_of(st.just([]), st.lists(st.integers(1, 40), max_size = 10)), 'oncancel': st.sampled_from(('487', '487', '200', 'none')), 'norefer': st.booleans(), 'hooks': st.sampled_from((False, False, True))}

def strat():
    rs = st.lists(st.tuples(spread(0.0057), st.just('resp'), st.tuples(st.sampled_from(PROV), N)), max_size = 3)
    fin = st.lists(st.tuples(spread(0.0057), st.just('resp'), st.tuples(st.sampled_from(FIN), N)), max_size = 1)
    pv = st.lists(st.tuples(T(0, 60, 0.0411), st.sampled_from(('vanish', 'back')), st.just([])), max_size = 1)
    def mk(v):
        d, rs, fin, pq, ls, pv = v
        d = dict(d, role = 'uac', L = ls, P = rs + fin + pq + pv)
        if not d.pop('hooks'): d.pop('hl'); d.pop('hr')
        return d
    uac = st.tuples(st.fixed_dictionaries(common(True)), rs, fin, st.lists(preq(), max_size = 3), st.lists(levents(True), max_size = 3), pv).map(mk)
    ring = st.lists(st.tuples(spread(0.0131), st.just('ring'), st.tuples(st.sampled_from((None, 180, 183)), N)), max_size = 2)
    ans = st.lists(st.tuples(spread(0.0131), st.sampled_from(('conn', 'conn', 'conn', 'preconn', 'fail', 'redir')), st.tuples(st.none(), N)), max_size = 1)
    canc = st.lists(st.tuples(spread(0.0217), st.just('cancel'), st.just([])), max_size = 1)
    def mk2(v):
        d, rs, fin, pq, ls, pv, c = v
        d = dict(d, role = 'uas', L = rs + fin + ls, P = pq + pv + c)
        if not d.pop('hooks'): d.pop('hl'); d.pop('hr')
        return d
    c2 = dict(common(False), ackd = st.sampled_from((None, None, None, 0.4, 3.0, -1)), ackb = st.sampled_from((None, 3, 3)))
    uas = st.tuples(st.fixed_dictionaries(c2), ring, ans, st.lists(preq(), max_size = 3), st.lists(levents(False), max_size = 3), pv, canc).map(mk2)
    return st.one_of(uac, uas)

def incall():
    """The call comes up (0.3-0.6 s), then anything happens to it."""
    late = lambda a: a.map(lambda x: (round(x[0] * 0.7 + 0.61, 4),) + tuple(x[1:]))
    acts = st.lists(late(levents(False)).filter(lambda x: x[1] not in ('conn', 'preconn', 'ring') or x[0] < 4), max_size = 4)
    pq = st.lists(late(preq()), max_size = 4)
    pv = st.lists(st.tuples(T(0, 60, 1.0411), st.sampled_from(('vanish', 'back')), st.just([])), max_size = 1)
    def mk(v):
        d, role, n, ls, pq, pv, how, late_offer = v
        d = dict(d, role = role, L = ls, P = pq + pv, lim = dict(d['lim'], np = None, nr = None, ex = None), oncancel = '487', end = d['end'] + 15.0)
        if late_offer: d['sdp'], d['ackb'] = None, 3
        if role == 'uac':
            d['P'] = [(0.3057, 'resp', (200, n))] + d['P']
            if late_offer: d['L'] = [(0.4131, 'conn', (200, 1))] + d['L']
        else:
            d['L'] = [(0.3131, 'preconn' if late_offer else 'conn', (200, n))] + d['L']
            d['P'] = [p for p in d['P'] if p[1] != 'resp']
        if not d.pop('hooks'): d.pop('hl'); d.pop('hr')
        return d
    c2 = dict(common(False), ackd = st.sampled_from((None,) * 6 + (0.4, 3.0, -1)), ackb = st.none())
    return st.tuples(st.fixed_dictionaries(c2), st.sampled_from(('uac', 'uas')), N, acts, pq, pv, st.none(), st.sampled_from((False, False, True))).map(mk)

def V(k, f, *a): raise Violation(f % a if a else f, k)
EPS = 0.0003

def run(case, rec):
    h = uah.Harness(case).go()
    ua = h.ua
    if ua is None or ua.setup_ts is None and not h.disc:
        return
    # at most one connect, exactly one end
    if len(h.conn) > 1: V('conn', 'connect reported %d times: %r', len(h.conn), h.conn)
    ends = sorted([(x[0], 'disc', x[1]) for x in h.disc] + [(x[0], 'fail', x[1]) for x in h.fail])
    if len(ends) != 1: V('ends', 'end of the leg reported %d times: %r (state %s)', len(ends), [x[:2] for x in ends], ua.state)
    te = ends[0][0]
    rec.cls(case['role'] + ':' + ends[0][1] + (':up' if h.conn else ''))
    if h.conn:
        rec.nt()
        if h.conn[0][0] > te: V('late-conn', 'connect reported at %.3f, after the end at %.3f', h.conn[0][0], te)
        if h.conn[0][1] > ends[0][2]: V('negative', 'end time stamp lies %.3f s before the connect', h.conn[0][1] - ends[0][2])
        if ends[0][1] == 'fail': V('fail-up', 'a connected leg reported a failure instead of a disconnect')
    rec.nt(len(h.events) > 1)
    for t, k, s in h.local: rec.cls('st:' + s)
    for r in h.replies: rec.cls('req:%s:%s' % (r['method'], r['state']))
    # the story as events
    last = None
    for t, e in h.events:
        if last is not None and e.seq <= last: V('order', 'event %s number %d emitted after number %d', e.name, e.seq, last)
        last = e.seq
        if t > te + EPS: V('after-end', '%s emitted at %.3f although the leg ended at %.3f', e.name, t, te)
    ended = [(t, e) for t, e in h.events if e.name == 'CCEventDisconnect' or (e.name in ('CCEventFail', 'CCEventRedirect') and t >= te - EPS and not h.conn)]
    if len(ended) > 1: V('end-events', 'the owner was told %d times that the leg is over: %r', len(ended), [(t, e.name) for t, e in ended])
    own = [x for x in h.local if (x[1] in ('disc', 'fail', 'redir') or (x[1] == 'udisc' and x[2] == 'Idle(UAC)')) and abs(x[0] - te) <= EPS]
    told = ended or [t for t, e in h.events if e.name == 'CCEventFail' and abs(t - te) <= EPS]
    if not told and not own: V('silent-end', 'the leg ended at %.3f (%s) but no event told the owner', te, ends[0][1])
    # dead once, in time, silent afterwards
    if len(h.dead) != 1: V('dead', 'leg reported dead %d times, state %s', len(h.dead), ua.state)
    td = h.dead[0][0]
    if td < te: V('dead-first', 'leg dead at %.3f before its end at %.3f', td, te)
    inv_fin = [d.t + 0.0 for d in h.arrived_finals()]
    lim = max([te] + [t for t in inv_fin if t <= te + 300.1]) + 32.05
    if td > lim:
        if not (case['role'] == 'uac' and not h.conn and not inv_fin and td <= te + 300.05): V('undead', 'leg ended at %.3f, last answer of the peer at %r, dead only at %.3f', te, inv_fin[-1:], td)
    for d in h.reqs(first = False):
        if d.t > td + 32.1: V('ghost', '%s sent at %.3f, leg dead since %.3f', d.m.start, d.t, td)
    for d in h.reqs():
        if d.t > td + EPS: V('ghost', 'new request %s sent at %.3f by a leg dead since %.3f', d.m.start, d.t, td)
    if not ua.isDead() or not h.tm.req_consumers.get(str(ua.cId)) in (None, []): V('registered', 'dead leg still registered for %s', ua.cId)
    # the account agrees with the callbacks
    dur, delay, connected, disconnected = ua.getAcct()
    if connected != bool(h.conn) or not disconnected: V('acct', 'getAcct says connected=%r disconnected=%r, callbacks say connected=%r', connected, disconnected, bool(h.conn))
    if h.conn and abs(dur - (ends[0][2] - h.conn[0][1])) > 1e-6: V('acct', 'duration %r, callbacks are %r apart', dur, ends[0][2] - h.conn[0][1])
    if dur < 0 or delay < 0: V('acct', 'negative times %r %r', dur, delay)
    # nobody is left in the call
    leg = h.leg
    if leg is not None and not h.ep.dead and not case.get('loss') and not any(a[1] in ('vanish', 'back') for a in case['P']):
        if leg.state == 'up': V('left', 'the leg ended at %.3f (%s) but the peer still believes the call is up', te, ends[0][1])
        if leg.role == 'caller' and leg.state in ('calling', 'early'): V('left', 'the caller never got a final response')
        if leg.role == 'callee' and leg.state == 'early' and leg.inv_final is None and not leg.got('cancel') and [x for x in h.ep.tx_log if x[1].startswith('SIP/2.0 1') and x[0] < 31.9]: V('left', 'the ringing callee was never told')
        if h.ep.problems: V('protocol', '%s', h.ep.problems[0])

CHECK = Check('C09', 'exploration', [Part('leg', strat, run, quick = 1500, thorough = 20000, shards = 8, rule = 'the leg was connected or reported more than one event'),
  Part('incall', incall, run, quick = 1500, thorough = 20000, shards = 8, rule = 'the leg was connected or reported more than one event')])
