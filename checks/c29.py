"""C29: registration agent against a scripted registrar."""
from hypothesis import strategies as st
from core import Check, Part, Violation
import wire, sim
from sim import STACK
from uah import T
import c18

EPS = 0.003
REG = ('198.51.100.40', 5060)
PRX = ('198.51.100.41', 5070)
def V(k, f, *a): raise Violation(f % a if a else f, k)

CON = 'sip:alice@192.0.2.1:5060'
STEP = st.fixed_dictionaries({'k': st.sampled_from(('ok',) * 5 + ('chal',) * 4 + ('fail', 'silent')), 'delay': T(0, 2, 0.0173), 'prov': st.sampled_from((None, None, 100)),
  'code': st.sampled_from((403, 404, 423, 500, 503)), 'grant': st.sampled_from((None, 3, 20, 60, 180, 600)), 'ghdr': st.sampled_from((None, None, 5, 45)), 'others': st.lists(st.sampled_from((1, 7, 1000)), max_size = 2), 'pos': st.integers(0, 2), 'con': st.booleans(),
  'acode': st.sampled_from((401, 401, 407)), 'ch': st.lists(c18.CH, max_size = 3), 'dup': st.sampled_from((False, False, True)), 'spell': st.sampled_from((0, 0, 1, 2)), 'okcode': st.sampled_from((200, 200, 202)), 'rep': st.sampled_from((1, 1, 1, 1, 2, 4, 5))})

def strat():
    return st.fixed_dictionaries({'steps': st.lists(STEP, min_size = 1, max_size = 9), 'cred': c18.CRED, 'exp': st.sampled_from((180, 30, 7)), 'stop': st.one_of(st.none(), st.none(), T(0, 3, 0.0091), T(0, 200, 0.0091)), 'rport': st.sampled_from((5060, 5080)), 'target': st.booleans(), 'cbs': st.sampled_from((3, 3, 1, 2, 0)),
      'loss': st.one_of(st.just([]), st.just([]), st.lists(st.integers(1, 12), max_size = 4))})

class R(object):
    def __init__(self, case):
        from sippy.SipRegistrationAgent import SipRegistrationAgent
        from sippy.SipURL import SipURL
        self.case = case
        self.w = w = sim.World()
        w.queue_zero = True
        self.tm, self.gc = sim.make_tm(lambda req, tr: (req.genResponse(501, 'No'), None, None))
        self.steps = [s for s in case['steps'] for i in range(s['rep'])]
        self.seen = {}
        self.arr = []           # (t, Msg) responses that reached the stack
        self.rx = []
        self.ok, self.fail = [], []
        self.loss, self.n = set(case['loss']), 0
        w.out_hook = self.lose
        for a in (REG, (REG[0], case['rport']), PRX): w.peer(a, self.recv)
        o = w._inject
        def inj(data, src, dst):
            self.arr.append((w.now, wire.Msg(data.decode())))
            o(data, src, dst)
        w._inject = inj
        aor = SipURL(username = 'alice', host = REG[0], port = case['rport'])
        con = SipURL(username = 'alice', host = '192.0.2.1', port = 5060)
        u, p = case['cred'] if case['cred'] is not None else (None, None)
        self.agent = SipRegistrationAgent(self.gc, aor, con, u, p, case['exp'], self.rok if case['cbs'] & 1 else None, self.rfail if case['cbs'] & 2 else None, 'arg', (PRX, 'udp') if case['target'] else None)
        w.at(0.1, self.agent.doregister)
        if case['stop'] is not None: w.at(0.1 + case['stop'], self.agent.stopregister)
    def lose(self, dg):
        self.n += 1
        return [None] if self.n in self.loss else [0.01]
    def rok(self, t, con, arg): self.ok.append((self.w.now, t, con, arg))
    def rfail(self, sl, arg): self.fail.append((self.w.now, sl, arg))
    def recv(self, dg):
        m = dg.m
        b = m.via.branch
        if b in self.seen:
            if self.seen[b] is not None: self.send(self.seen[b], dg)
            return
        self.seen[b] = None
        s = self.steps.pop(0) if self.steps else {'k': 'ok', 'delay': 0.0173, 'prov': None, 'grant': 100, 'ghdr': None, 'others': [], 'pos': 0, 'con': True, 'dup': False, 'spell': 0, 'okcode': 200}
        self.rx.append((self.w.now, m, s))
        if s['k'] == 'silent': return
        if s['prov']: self.w.after(s['delay'] / 3, self.send, wire.response(m, s['prov'], 'Trying'), dg)
        if s['k'] == 'ok':
            x = []
            if s['ghdr'] is not None: x.append(('Expires', str(s['ghdr'])))
            cons = ['<sip:alice@203.0.113.%d>;expires=%d' % (9 + i, e) for i, e in enumerate(s['others'])]
            if not s['con']: cons = []
            if s['con']:
                mine = '<%s>' % (CON if s['spell'] != 2 else CON.replace(':5060', ''))
                if s['grant'] is not None: mine += ';%s=%d' % ('Expires' if s['spell'] == 1 else 'expires', s['grant'])
                cons.insert(s['pos'], mine)
            t = wire.response(m, s['okcode'], 'OK', 'rt', [('Contact', c) for c in cons] + x)
        elif s['k'] == 'fail': t = wire.response(m, s['code'], 'Nope', 'rt')
        else: t = wire.response(m, s['acode'], 'Auth', 'rt', [('WWW-Authenticate' if s['acode'] == 401 else 'Proxy-Authenticate', c18.chall(c)) for c in s['ch']])
        def fin():
            self.seen[b] = t
            self.send(t, dg)
            if s['dup']: self.w.after(0.05, self.send, t, dg)
        self.w.after(s['delay'], fin)
    def send(self, t, dg):
        if self.lose(None) == [None]: return
        self.w.inject((t if isinstance(t, str) else t.text).encode(), dg.dst, dg.src, 0.01)

def run(case, rec):
    r = R(case)
    r.w.run_until(420.0)
    r.agent.stopregister()
    r.w.run_until(560.0)
    r.w.check_exceptions()
    judge(r, case, rec)

def judge(r, case, rec, auth_only = False):
    w = r.w
    stop = 420.0 if case['stop'] is None else 0.1 + case['stop']
    seen, reqs = {}, []
    for d in w.log:
        if d.src != STACK: continue
        b = d.m.via.branch
        if b in seen:
            if seen[b] != d.data: V('retr', 'a retransmission differs from its original')
            continue
        seen[b] = d.data
        reqs.append(d)
    if not reqs: V('none', 'nothing was sent')
    first = reqs[0].m
    fin = {}
    for t, m in r.arr:
        if m.code >= 200: fin.setdefault(m.via.branch, (t, m))
    script = {m.via.branch: s for t, m, s in r.rx}
    last = None
    due, tries, oks, fails, chain = 0.1, 0, [], [], None
    cred = case['cred']
    hadauth = None
    for i, d in enumerate(reqs):
        m = d.m
        if d.t > stop + EPS: V('after-stop', 'REGISTER sent at %.4f, stopped at %.4f', d.t, stop)
        if due is None or abs(d.t - due) > EPS: V('when', 'REGISTER %d sent at %.4f, expected at %s', i, d.t, due)
        if m.method != 'REGISTER': V('method', m.start)
        if m.start.split()[1].split('@')[0] != 'sip:%s' % REG[0] and m.start.split()[1] != 'sip:%s:%d' % (REG[0], case['rport']): V('ruri', 'Request-URI %r', m.start)
        if d.dst != (PRX if case['target'] else (REG[0], case['rport'])): V('dst', 'sent to %r', d.dst)
        for x in ('from', 'to', 'call-id', 'contact'):
            if m.all(x) != first.all(x): V(x, '%s changed from %r to %r', x, first.all(x), m.all(x))
        if m.to.tag is not None or m.frm.tag is None or m.to.uri.split('@')[0] != 'sip:alice': V('to', 'To %r', m.get('to'))
        cs = wire.Addr(m.get('contact'))
        if cs.uri.replace(':5060', '') != CON.replace(':5060', '') or ';expires=%d' % case['exp'] not in m.get('contact'): V('contact', 'Contact %r', m.get('contact'))
        if last is not None and m.cseq[0] <= last: V('cseq', 'CSeq %d after %d', m.cseq[0], last)
        last = m.cseq[0]
        # credentials
        au = [(n, v) for n in ('authorization', 'proxy-authorization') for v in m.all(n)]
        if chain is not None:
            code, c = chain
            mine = [v for n, v in au if n == c18.ANAME[code]]
            if len(mine) != 1: V('auth-count', '%d credentials in answer to a %d', len(mine), code)
            c18.check_auth(mine[0], c, cred, m, 'REGISTER')
            rec.cls('authorised')
        elif cred is None and au: V('auth-stray', 'credentials out of nowhere')
        chain = None
        # outcome
        b = m.via.branch
        t, resp = fin.get(b, (None, None))
        dead = max([d.t] + [x for x, y in r.arr if y.via.branch == b and y.code < 200]) + 32.0     # C05: a provisional response restarts the wait
        if resp is None or t > dead:
            t, code = dead, 408
        else: code = resp.code
        s = script.get(b)
        due = None
        if t > stop: continue
        if 200 <= code < 300:
            tries = 0
            g = None
            if s['con'] and s['grant'] is not None: g = s['grant']
            elif s['ghdr'] is not None: g = s['ghdr']
            else: g = case['exp']
            oks.append((t, g))
            due = t + g
            rec.cls('granted')
        else:
            c = None
            if code in (401, 407) and s is not None: c = next((c for c in s['ch'] if c18.usable(c, None)), None)
            if code in (401, 407) and cred is not None and c is not None:
                nxt = reqs[i + 1].t if i + 1 < len(reqs) else 1e9
                if tries == 0 or tries < 5 and abs(nxt - t) < EPS:
                    tries += 1
                    due, chain = t, (code, c)
                    continue
                if abs(nxt - t) < EPS: V('endless', 'challenge answered %d times in a row', tries + 1)
                rec.cls('gave up')
            fails.append((t, code))
            due = t + 60.0
            tries = 0
            rec.cls('failed')
    end = min(420.0, stop)
    if due is not None and due < end - EPS: V('missing', 'no REGISTER at %.4f', due)
    rec.nt(len(reqs) > 2)
    if case['cbs'] & 1:
        if len(r.ok) != len(oks): V('ok-cb', '%d successes reported, %d happened', len(r.ok), len(oks))
        for (t, g), (tc, tr, con, arg) in zip(oks, r.ok):
            if abs(t - tc) > EPS or arg != 'arg': V('ok-cb', 'success reported at %.4f, happened at %.4f', tc, t)
            exp = t + g
            import sippy
            if abs(tr - sim.clock.now - sim.clock.real_off + w.now - exp) > 2.0 and abs(tr - (sim.clock.real_off + exp)) > 2.0 and abs(tr - (sim.clock.real_off + w.t0 + exp)) > 2.0: V('ok-when', 'reported expiry is %.3f off', tr - (sim.clock.real_off + w.t0 + exp))
    if case['cbs'] & 2:
        if len(r.fail) != len(fails): V('fail-cb', '%d failures reported, %d happened', len(r.fail), len(fails))
        for (t, c), (tc, sl, arg) in zip(fails, r.fail):
            if abs(t - tc) > EPS or str(c) not in sl.split()[:2] or arg != 'arg': V('fail-cb', 'failure %d at %.4f reported as %r at %.4f', c, t, sl, tc)
    if not case['cbs'] & 1 and r.ok or not case['cbs'] & 2 and r.fail: V('cb', 'callback that was not asked for')

CHECK = Check('C29', 'exploration', [Part('agent', strat, run, quick = 1000, thorough = 15000, shards = 8, rule = 'at least three REGISTERs were sent')])
