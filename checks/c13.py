"""C13: attempts, their order and times, and the caller's single final response against a reference model."""
from core import Check, Part, Violation
from hypothesis import strategies as st
import scen, model
from sim import STACK
from c12 import V

def hunts(loss = False):
    """Several routes, mostly failing ones."""
    def mk(v):
        conf, calls, end, loss = v
        return {'conf': dict(conf, mode = 'radius'), 'calls': calls, 'end': end, 'loss': loss}
    return st.tuples(scen.conf(), st.lists(fcall(), min_size = 1, max_size = 2), st.sampled_from((20.0, 60.0, 400.0)), st.lists(st.integers(0, 60), max_size = 6) if loss else st.just([])).map(mk)

def froute():
    quick = st.one_of(scen.T(0, 3), scen.T(0, 3), scen.T(0, 12), scen.T(0, 60))
    fin = st.fixed_dictionaries({'t': quick, 'code': st.sampled_from(scen.CODES + scen.CODES + (300, 301, 302, 200, 200)), 'sdp': st.none(), 'rep': st.just(False)})
    prov = st.fixed_dictionaries({'t': quick, 'code': st.sampled_from((100, 180, 183)), 'sdp': st.sampled_from((None, 1)), 'rep': st.just(False)})
    ce = st.fixed_dictionaries({'prov': st.lists(prov, max_size = 2), 'final': st.one_of(fin, fin, fin, st.none()), 'dead': st.sampled_from((False,) * 6 + (True,)), 'cancel': st.sampled_from(('487', '487', '200', 'none')),
      'reason': st.none(), 'acts': st.just([]), 'reinv': st.just([])})
    opt = lambda s: st.one_of(st.none(), s)
    return st.tuples(scen.route(), ce, opt(st.sampled_from((1, 2, 5, 10, 20, 35))), opt(st.sampled_from((1, 3, 8, 33))), opt(st.sampled_from((3, 6, 20, 0))), opt(st.sampled_from(('2,1', '2,2', '5,1', '5,2', '5,3', '20,1', '20,2', '40,3')))).map(
      lambda v: dict(v[0], crt = None if v[0]['crt'] == 0 and v[2] is None else v[0]['crt'], callee = v[1], np = v[2], nr = v[3], expires = v[4], gt = v[5]))

def fcall():
    return st.tuples(scen.call(1), st.lists(froute(), min_size = 2, max_size = 5), st.lists(scen.act(('hangup', 'op', 'vanish', 'hangup')), max_size = 1)).map(
      lambda v: dict(v[0], routes = v[1], acts = v[2] if len(v[1]) % 2 else [], mf = v[0]['mf'] if v[0]['start'] > 4 else 70))

def near(a, b, d = 0.004): return abs(a - b) <= d

def check(r, cl, p, rec):
    L = cl.leg
    fin = L.got('final')
    want = [(a.rnum, t + model.L) for a in p['attempts'] for t in (a.t0, a.again) if t is not None]
    atts = [a for a in p['attempts'] for t in (a.t0, a.again) if t is not None]
    got = [(n, l.ev[0][0]) for n, l in cl.outs]
    # a callee that is down never logs the INVITE; its leg is created all the same
    for k in range(max(len(want), len(got))):
        if k >= len(got): V('missing', 'route %d was never tried (expected at %.3f); tried %r', want[k][0], want[k][1], got)
        if k >= len(want): V('extra', 'route %d tried at %.3f although %s', got[k][0], got[k][1], p['final'])
        if got[k][0] != want[k][0]: V('order', 'attempt %d went to route %d instead of %d', k + 1, got[k][0], want[k][0])
        if not near(got[k][1], want[k][1]): V('time', 'route %d tried at %.3f instead of %.3f', got[k][0], got[k][1], want[k][1])
    t, how, code = p['final']
    dead = L.ep.dead and (vt(L) or 0) < t + model.L + 0.001
    if not dead:
        if len(fin) != 1: V('final', 'caller got %d final responses', len(fin))
        f = fin[0]
        if not near(f[0], t + model.L): V('final-time', 'caller told %d at %.3f, expected at %.3f (%s)', f[2], f[0], t + model.L, how)
        if code is not None and f[2] != code: V('final-code', 'caller told %d, expected %d', f[2], code)
        if code is None and f[2] < 300: V('final-code', 'caller told %d after %s', f[2], how)
        if how in ('cancel', 'expire') and f[2] != 487: V('final-code', 'caller told %d after %s', f[2], how)
    # the previous attempt has been let go of before the next one starts
    for a, a2, (n, l) in zip(atts, atts[1:] + [None], cl.outs):
        if a is a2: continue
        te, why, c = a.end
        if why in ('answer', 'fail', 'redirect') or (why == 'end' and L.ep.dead): continue
        if any(t > (a.again or 0) for t, c in a.resp):
            cn = l.got('cancel')
            if not l.ep.dead and (not cn or cn[0][0] > te + model.L + 0.004): V('live', 'attempt %d given up (%s) at %.3f but never cancelled', n, why, te)
    rec.cls('final:' + how)
    rec.cls('attempts=%d' % min(5, len(want)))

def vt(leg):
    v = leg.got('vanish')
    return v[0][0] if v else None

def live(r, cl):
    """Under losses: at any time at most one attempt that is neither finished nor given up."""
    outs = sorted(cl.outs, key = lambda x: x[1].ev[0][0])
    nums = []
    for dg in r.w.log:
        if dg.src == STACK and dg.text.startswith('INVITE ') and r.outmap.get(dg.m.callid, (None,))[0] is cl and dg.m.to.tag is None:
            n = r.outmap[dg.m.callid][1]
            if n not in nums: nums.append(n)
    outs.sort(key = lambda x: (nums.index(x[0]), x[1].ev[0][0]))
    for (n, l), (n2, l2) in zip(outs, outs[1:]):
        if n == n2 and l.inv_final not in (401, 407): V('twice', 'route %d tried twice', n)
    if nums != sorted(nums): V('order', 'routes tried in order %r', nums)
    for (n, l), (n2, l2) in zip(outs, outs[1:]):
        t2 = l2.ev[0][0]
        for e in l.got('answer-tx'):
            if 200 <= e[2] < 300 and e[0] < t2 - 0.1:
                if not l.got('bye') and not l.got('cancel') and not l.ep.dead: V('live', 'attempt %d answered, then route %d was tried and the answered one kept', n, n2)
        hs = r.routes(cl)[n - 1]['hs'] or ()
        fl = [e for e in l.got('answer-tx') if e[2] >= 300]
        if fl and fl[0][2] in hs and n2 != n and fl[0][0] < t2 and not l.got('cancel'):
            r2 = [x for x in (r.routes(cl)[n - 1]['np'], r.routes(cl)[n - 1]['nr'], r.routes(cl)[n - 1]['expires']) if x is not None]
            if not r2 and all(x['gt'] is None for x in r.routes(cl)) and fl[0][0] - l.ev[0][0] < 20: V('huntstop', 'route %d tried after %d, which ends the hunt', n2, fl[0][2])
    if len(cl.leg.got('final')) > 1: V('final', 'several final responses')

def run(case, rec):
    r = scen.Run(case)
    r.w.check_exceptions()
    if r.strangers: V('stranger', 'INVITE that belongs to no call: %s', r.strangers[0].inv.start)
    for cl in r.calls:
        if cl.leg is None: continue
        if len(cl.outs) > 1: rec.nt()
        live(r, cl)
        for ep in r.callers + r.callees:
            if ep.problems: V('protocol', '%s: %s', ep.name, ep.problems[0])
        if not r.lossy:
            p = model.predict(case, cl)
            if not p['tie']: check(r, cl, p, rec)

CHECK = Check('C13', 'exploration', [
  Part('hunt', lambda: hunts(), run, quick = 800, thorough = 10000, shards = 8, rule = 'more than one route was attempted'),
  Part('calls', lambda: scen.scenario(loss = False).map(lambda c: dict(c, conf = dict(c['conf'], mode = 'radius'))), run, quick = 300, thorough = 6000, shards = 8, rule = 'more than one route was attempted'),
  Part('lossy', lambda: hunts(True), run, quick = 300, thorough = 6000, shards = 8, rule = 'more than one route was attempted')])
