"""C12: the real b2bua between scripted parties; what each party sees must be what the other one did."""
from core import Check, Part, Violation
import scen, wire

def user(uri):
    u = uri.split(':', 1)[1]
    return u.rsplit('@', 1)[0] if '@' in u else None

def V(key, msg, *a):
    raise Violation(msg % a if a else msg, key)

def ends(leg):
    """Time the party learned of, or caused, the end of an answered call."""
    e = [x[0] for x in leg.ev if x[1] in ('bye-tx', 'bye')]
    return e[0] if e else None

def up_at(leg):
    for e in leg.ev:
        if e[1] == ('final' if leg.role == 'caller' else 'answer-tx') and 200 <= e[2] < 300: return e[0]
    return None

def vanished(leg):
    v = leg.got('vanish')
    return v[0][0] if v else (0 if leg.ep.dead else None)

def expect_out(r, cl, rnum, route, leg):
    c, m = cl.c, leg.inv
    body = scen.sdp(c['sdp']) if c['sdp'] is not None else ''
    cld = c['cld']
    if cld.startswith('nat-'):
        cld = cld[4:]
        if body: body += 'a=nated:yes\r\n'
    x = c['aaa'] if r.conf['mode'] == 'radius' else {'cli': None, 'cnam': None}
    cli = c['cli'] if x['cli'] is None else x['cli'] or None
    name = c['name'] if x['cnam'] is None else x['cnam'] or None
    if route['cld'] is not None: cld = route['cld'] or None
    if route['cli'] is not None: cli = route['cli'] or None
    if route['cnam'] is not None: name = route['cnam'] or None
    if m.body != body: V('sdp', 'offer changed on the way to the callee: %r instead of %r', m.body, body)
    if body and (m.get('content-type') or '').lower() != 'application/sdp': V('ctype', 'Content-Type of the offer: %r', m.get('content-type'))
    for what, got in (('request URI', m.start.split()[1]), ('To', m.to.uri)):
        if user(got) != cld: V('cld', 'number in %s is %r instead of %r', what, user(got), cld)
    if user(m.frm.uri) != cli: V('cli', 'caller number %r instead of %r', user(m.frm.uri), cli)
    if m.frm.name != name: V('name', 'caller name %r instead of %r', m.frm.name, name)
    passed = [h.lower() for h in r.conf['pass']]
    want = [tuple(y.strip() for y in a.split(':', 1)) for a in route['ash']]
    want += [(n, v) for n, v in (tuple(y.strip() for y in h.split(':', 1)) for h in c['xh']) if n.lower() in passed]
    got = [(n, v) for n, v in m.hdrs if n.startswith('x-')]
    if sorted(got) != sorted((n.lower(), v) for n, v in want): V('xhdr', 'extra headers %r instead of %r', got, want)
    mf = int(m.get('max-forwards'))
    if (c['mf'] is not None and mf != c['mf'] - 1) or mf < 1: V('maxf', 'Max-Forwards %d out, %r in', mf, c['mf'])
    if m.to.tag is not None: V('totag', 'To tag in a new INVITE')
    d = leg.inv_dg
    if (d.dst[0], d.dst[1]) != leg.ep.addr: V('dst', 'INVITE sent to %r', d.dst)

def setup(r, cl, loss):
    L = cl.leg
    outs = cl.outs
    cprov = [e for e in L.got('prov') if e[2] != 100]
    fin = L.got('final')
    tf = fin[0][0] if fin else 1e18
    cancel = L.got('cancel-tx')
    tc = cancel[0][0] if cancel else 1e18
    top = min([t for t, x in cl.op] + [1e18])
    bprov = [(e, l) for n, l in outs for e in l.got('answer-tx') if 100 < e[2] < 200]
    for t, k, code, body, m in cprov:
        if not any(e[2] == code and e[3] == body and e[0] < t - 0.015 and (loss or e[0] > t - 0.05) for e, l in bprov):
            V('prov', 'caller got %d %r that no callee sent', code, body)
    for n, l in outs:
        last, seen = l.ev[0][0], set()
        lim = [n2 for n2 in (r.routes(cl)[n - 1][k] for k in ('np', 'nr', 'expires')) if n2 is not None]
        lim += [int(x['gt'].split(',')[0]) for x in r.routes(cl) if x['gt'] is not None]
        lim = min(lim + [1e9])
        can = l.got('cancel')
        for e in l.got('answer-tx'):
            t = e[0]
            # is it certain that the b2bua was still waiting for this response?
            sure = not loss and t - last < (31.5 if last == l.ev[0][0] else 290) and not (can and can[0][0] < t + 0.06) and t + 0.05 < min(tf, tc, top) and t - l.ev[0][0] + 0.1 < lim and \
              not (cl.vanished or L.ep.dead) and (n, l) == max(((a, b) for a, b in outs if b.ev[0][0] <= t + 0.05), key = lambda y: y[1].ev[0][0])
            last = t
            if not sure: break
            if e[2] == 100: continue
            key = (e[2], e[3])
            if key in seen: continue
            seen.add(key)
            if e[2] < 200:
                if not any(p[2] == e[2] and p[3] == e[3] and p[0] < t + 0.05 for p in cprov):
                    V('prov-lost', '%d %r of the callee never reached the caller', e[2], e[3])
                m = [p for p in cprov if p[2] == e[2] and p[3] == e[3]][0][4]
                if m.reason != 'P%d' % e[2]: V('reason', 'reason phrase of %d became %r', e[2], m.reason)
        for e in l.got('answer-tx'):
            if e[2] < 200 or e[2] >= 300: continue
            t = e[0]
            got = fin and fin[0][2] == e[2] and fin[0][3] == e[3] and t < tf < t + (70 if loss else 0.05)
            rel = ends(l)
            if got:
                if not loss and fin[0][4].reason != 'F%d' % e[2]: V('reason', 'reason phrase of %d became %r', e[2], fin[0][4].reason)
                continue
            if vanished(l) is not None: continue
            if rel is None and not l.ep.dead: V('oneside', 'callee answered %d but the caller has %r and the callee was never released', e[2], fin[:1])
            if l.got('answer-tx')[0][0] - l.ev[0][0] > 31.5: continue
            if not loss and not L.ep.dead and rel > t + 0.6: V('oneside', 'callee answered but was only released %.1f s later, caller has %r', rel - t, fin[:1])
            if not loss and not can and min(tf, tc, top) > t + 0.06 and t - l.ev[0][0] + 0.1 < lim and not L.ep.dead and t - l.ev[0][0] < 31.5:
                V('answer-lost', 'answer %d of the callee never reached the caller, who waits; callee released', e[2])
    if fin and fin[0][2] < 300:
        if not any(e[2] == fin[0][2] and e[3] == fin[0][3] for n, l in outs for e in l.got('answer-tx')):
            V('answer', 'caller got answer %d %r that no callee sent', fin[0][2], fin[0][3])
    elif fin and fin[0][4] is not None and outs and not cancel and not cl.op and not loss:
        n, l = outs[-1]
        code, m = fin[0][2], fin[0][4]
        a = [e for e in l.got('answer-tx') if e[2] >= 300 and tf - 0.05 < e[0] < tf]
        if a and not l.got('cancel'):
            if a[0][2] != code: V('failcode', 'callee refused with %d, caller got %d', a[0][2], code)
            if m.reason != 'F%d' % code: V('reason', 'reason phrase of %d became %r', code, m.reason)
            s = l.data['script']
            if s['reason'] and (m.get('reason') or '').replace('; ', ';') != s['reason']: V('reason-hf', 'Reason %r became %r', s['reason'], m.get('reason'))
            if 300 <= code < 400:
                want = ['sip:r%d@192.0.2.88' % k for k in range(2 if code == 300 else 1)]
                if code < 303 and [wire.Addr(x).uri for x in m.all('contact')] != want: V('contacts', 'redirection contacts %r', m.all('contact'))
    if not L.ep.dead and L.state in ('calling', 'early'): V('nofinal', 'the caller never got a final response')
    if len(fin) > 1: V('twofinal', 'two final responses')

def release(r, cl, loss):
    L = cl.leg
    dl = 75 if loss else 0.6
    lend = ends(L)
    cups = [(n, l) for n, l in cl.outs if up_at(l) is not None]
    cupt = up_at(L)
    for n, l in cl.outs:
        if l.state == 'up' and not l.ep.dead: V('oneside', 'callee leg still up at the end, caller is %s', L.state)
        if l.state == 'early' and not l.ep.dead and not loss and l.got('answer-tx') and not l.got('cancel'):
            t1 = [e[0] for e in l.got('answer-tx')]
            if t1[0] - l.ev[0][0] < 31.5: V('left-ringing', 'callee left ringing: %r', [e[:3] for e in l.ev])
    if L.state == 'up' and not L.ep.dead: V('oneside', 'caller still up at the end')
    for n, l in cups:
        e, ve = ends(l), vanished(l)
        if l.got('answer-tx')[0][0] - l.ev[0][0] > 31.5: continue      # answered after the attempt had timed out
        if lend is not None and ve is None:
            if e is None or e > max(lend, up_at(l)) + dl: V('release', 'caller left at %.3f, callee released %r', lend, e)
        if e is not None and cupt is not None and vanished(L) is None:
            if any(x[2] == L.inv_final and x[3] == L.got('final')[0][3] for x in l.got('answer-tx')) and (lend is None or lend > max(e, cupt) + dl):
                V('release', 'callee left at %.3f, caller released %r', e, lend)
    if L.got('cancel-tx') and not loss and not L.ep.dead:
        tc = L.got('cancel-tx')[0][0]
        f = L.got('final')
        if not f or f[0][0] > tc + 0.6: V('cancel', 'no final response after CANCEL')
        if f[0][2] >= 300 and f[0][0] > tc + 0.03 and f[0][2] != 487: V('cancel-code', 'CANCEL ended the INVITE with %d', f[0][2])
        for n, l in cl.outs:
            a = [e[0] for e in l.got('answer-tx')]
            if a and a[0] < tc - 0.03 and l.inv_final is None and not l.got('cancel') and not l.ep.dead: V('cancel-prop', 'CANCEL of the caller was not passed on')

def intervals(leg):
    out, st = [], None
    for e in leg.ev:
        if e[1] == 'reinv-tx': st = e[0]
        elif e[1] == 'reinv-final' and st is not None: out.append((st, e[0])); st = None
        elif e[1] == 'reinv':
            a = [x[0] for x in leg.ev if x[1] == 'reinv-answer-tx' and x[0] >= e[0]]
            out.append((e[0] - 0.03, (a[0] if a else e[0] + 70) + 0.05))
    if st is not None: out.append((st, 1e18))
    return out

def incall(r, cl, loss, rec):
    L = cl.leg
    if up_at(L) is None: return
    peers = [l for n, l in cl.outs if any(x[2] == L.inv_final and x[3] == L.got('final')[0][3] for x in l.got('answer-tx'))]
    if len(peers) != 1: return
    P = peers[0]
    gone = min([t for t in (ends(L), ends(P), vanished(L), vanished(P)) if t is not None] + [t for t, x in cl.op] + [1e18])
    for X, Y in ((L, P), (P, L)):
        sent = [X.inv.body if X is L else X.got('answer-tx')[-1][3]] + [e[2] for e in X.got('reinv-answer-tx') if 0] 
        tx = X.got('reinv-tx')
        for i, e in enumerate(tx):
            t, body = e[0], e[2]
            f = [x for x in X.got('reinv-final') if x[0] > t][:1]
            tf = f[0][0] if f else 1e18
            earlier = sent + [x[3] for x in X.got('reinv-answer-tx') if x[0] < t] + [x[2] for x in tx[:i]]
            fresh = body and body not in earlier
            fwd = [x for x in Y.got('reinv') if t < x[0] < tf + 0.01 and x[2] == body]
            over = [iv for l in (L, P) for iv in intervals(l) if not (l is X and iv[0] == t) and iv[0] < t + 0.04 and iv[1] > t - 0.04]
            over = [iv for iv in over if not any(iv[0] == x[0] - 0.03 for x in fwd)]
            pend = L.inv.body == '' and t < up_at(L) + 0.1
            quiet = gone > t + 0.08 and not over and not loss and not pend
            if fresh and quiet and not fwd: V('update-lost', 're-INVITE at %.3f (%s side) did not reach the other party', t, X.role)
            if fresh and len(fwd) > 1 and not r.conf['ka']: V('update-twice', 're-INVITE reached the other party twice')
            if not fwd and f and f[0][2] == 200 and body and fresh: V('update-faked', 'new offer answered 200 without asking the other party')
            if body == '' and quiet and i == 0 and not X.got('reinv'):
                h = [x for x in Y.got('reinv') if t < x[0] < t + 0.08]
                src = sent[0] if X is L or True else None
                if src:
                    want = '\r\n'.join('c=IN IP4 0.0.0.0' if q.startswith('c=') else q for q in src.split('\r\n'))
                    if h and h[0][2] != want and X is P: V('hold', 'body-less re-INVITE passed on as %r instead of %r', h[0][2], want)
                    if not h: V('hold-lost', 'body-less re-INVITE not passed on')
            if fwd:
                rec.cls('update forwarded')
                a = [x for x in Y.got('reinv-answer-tx') if x[0] >= fwd[0][0]][:1]
                if len([x for x in Y.got('reinv') if x[0] < fwd[0][0]]) > len([x for x in Y.got('reinv-answer-tx') if x[0] < fwd[0][0]]): continue      # a keep-alive is still open
                if a and f and not loss and gone > a[0][0] + 0.05 and a[0][0] - fwd[0][0] < 31:
                    if f[0][2] != a[0][2]: V('update-code', 're-INVITE answered %d, the other side got %d', a[0][2], f[0][2])
                    if a[0][2] < 300 and f[0][3] != a[0][3]: V('update-sdp', 'answer to re-INVITE changed: %r instead of %r', f[0][3], a[0][3])
                    rec.cls('update answer compared')
                if a and a[0][2] in (408, 481) and not loss and gone > a[0][0] + 0.6: V('update-dead', 'call kept after %d to re-INVITE', a[0][2])
                if f and f[0][0] <= tf and not loss and f[0][2] == 200 and a and a[0][2] >= 300 and a[0][0] < f[0][0]: V('update-code', '%d became 200', a[0][2])
        it, ir = X.got('info-tx'), Y.got('info')
        for e in ir:
            if sum(1 for x in ir if x[2] == e[2]) > sum(1 for x in it if x[2] == e[2]): V('info-dup', 'INFO %r multiplied', e[2])
        for e in it:
            if loss or e[0] + 0.1 > gone or any(iv[0] < e[0] + 0.05 and iv[1] > e[0] - 0.05 for l in (L, P) for iv in intervals(l)): continue
            rec.cls('info')
            if not any(x[2] == e[2] and e[0] < x[0] < e[0] + 0.05 for x in ir): V('info-lost', 'INFO %r did not reach the other party', e[2])

def run(case, rec):
    r = scen.Run(case)
    r.w.check_exceptions()
    loss = r.lossy
    if r.strangers: V('stranger', 'INVITE that belongs to no call: %s', r.strangers[0].inv.start)
    for ep in r.callers + r.callees:
        if ep.problems: V('protocol', '%s: %s', ep.name, ep.problems[0])
        if ep.old and not loss: V('cseq', '%s: %s', ep.name, ep.old[0])
    for cl in r.calls:
        if cl.leg is None: continue
        for n, l in cl.outs:
            expect_out(r, cl, n, r.routes(cl)[n - 1], l)
        if cl.outs: rec.nt()
        rec.cls('outs=%d' % min(3, len(cl.outs)))
        rec.cls('caller:%s' % (cl.leg.inv_final and cl.leg.inv_final // 100))
        setup(r, cl, loss)
        release(r, cl, loss)
        incall(r, cl, loss, rec)

CHECK = Check('C12', 'exploration', [
  Part('calls', lambda: scen.scenario(), run, quick = 800, thorough = 8000, shards = 8, rule = 'an outgoing leg was placed'),
  Part('incall', lambda: scen.incall(), run, quick = 800, thorough = 8000, shards = 8, rule = 'an outgoing leg was placed')])
