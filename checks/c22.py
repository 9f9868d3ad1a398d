"""C22: relayed media - what the relay sessions do to SDP bodies and to the relay."""
import gc as _gc
from hypothesis import strategies as st
from core import Check, Part, Violation

def V(cond, key, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg, key)

def tolist(x): return [tolist(y) for y in x] if isinstance(x, (tuple, list)) else {k: tolist(v) for k, v in x.items()} if isinstance(x, dict) else x

def plain(e):
    # (a traceback keeps frames, and with them the session, alive)
    if e is not None:
        e.__traceback__ = e.__context__ = e.__cause__ = None
    return e

SUPPORTED = ('rtp/avp', 'rtp/avpf', 'rtp/savp', 'rtp/savpf', 'udp/tls/rtp/savp', 'udp/tls/rtp/savpf', 'udp', 'udptl', 'udp/bfcp')
KINDS = [('audio', 'RTP/AVP', '0 8 101'), ('audio', 'RTP/AVP', '18'), ('audio', 'rtp/avp', '0'), ('video', 'RTP/AVPF', '97 98'), ('audio', 'RTP/SAVP', '0'), ('image', 'udptl', 't38'), ('application', 'UDP/BFCP', '*'), ('message', 'TCP/MSRP', '*'), ('audio', 'TCP/RTP/AVP', '0'), ('application', 'TCP/BFCP', '*'), ('audio', 'UDP/TLS/RTP/SAVPF', '111 0')]
ATTRS = ['rtpmap:0 PCMU/8000', 'rtpmap:101 telephone-event/8000', 'fmtp:101 0-15', 'fmtp:97 profile=1;a=b', 'ptime:20', 'ptime:30', 'maxptime:60', 'silenceSupp:off - - - -', 'x-thing', 'label:a b', 'ssrc:1 cname:x', 'T38FaxVersion:0']
sec = st.fixed_dictionaries({'k': st.sampled_from([0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]), 'port': st.sampled_from(['n', 'n', 'n', 'n', '0']), 'c': st.sampled_from([None, None, '4', '4', '6', 'h4', 'h6']), 'a': st.lists(st.integers(0, len(ATTRS) - 1), max_size = 4), 'dir': st.sampled_from([None, None, 'sendrecv', 'sendonly', 'recvonly', 'inactive']), 'rtcp': st.sampled_from([None, None, 'p', 'pa']), 'i': st.booleans(), 'b': st.booleans()})
spec = st.fixed_dictionaries({'secs': st.lists(sec, min_size = 1, max_size = 4), 'sc': st.sampled_from(['4', '4', '4', '6', 'h4', None]), 'bump': st.booleans(), 'sid': st.sampled_from([False, False, False, True]), 'sa': st.lists(st.sampled_from(['group:BUNDLE a b', 'sendrecv', 'tool:x', 'ice-lite']), max_size = 2), 'extra': st.booleans(),
  'kind': st.sampled_from(['sdp'] * 12 + ['same', 'same', 'text', 'multi', 'nopart', 'bad-o', 'bad-m', 'bad-cut', 'bad-noc', 'nosec'])})
op = st.one_of(st.tuples(st.just('sdp'), st.sampled_from(['caller', 'callee']), spec), st.tuples(st.just('sdp'), st.sampled_from(['caller', 'callee']), spec),
  st.tuples(st.sampled_from(['play', 'stop', 'copy']), st.sampled_from(['caller', 'callee']), st.integers(0, 1)), st.tuples(st.just('record'), st.sampled_from([None, 'file']), st.booleans()), st.tuples(st.just('timeout'), st.integers(0, 2)))
step = st.tuples(st.sampled_from([0.0, 0.0, 0.5, 0.5, 5.0]), op)
fault = st.sampled_from(['ok'] * 12 + ['E8', 'zero', 'silent', 'noaddr', 'ip6', 'garbage', 'neg', 'big', 'empty', 'other'])

def strategy():
    return st.fixed_dictionaries({'steps': st.lists(step, min_size = 1, max_size = 7), 'faults': st.lists(fault, max_size = 10), 'xfaults': st.lists(st.sampled_from(['ok', 'ok', 'E8', 'silent']), max_size = 4), 'caps': st.sampled_from(['1', '1', '0']), 'nort': st.booleans(), 'rep': st.sampled_from([None, None, ['caller', 30, False], ['callee', 20, True], ['callee', 60, False]]), 'raddr': st.sampled_from([None, 'caller', 'both']), 'notify': st.booleans(), 'end': st.sampled_from(['delete', 'delete', 'drop', 'early'])}).map(tolist)

class Reader(object):
    """A plain reader of SDP."""
    def __init__(self, text):
        self.sess, self.secs, cur = [], [], None
        for l in text.replace('\r\n', '\n').split('\n'):
            if not l: continue
            n, v = l[0], l[2:]
            if n == 'm':
                cur = []
                self.secs.append(cur)
            (self.sess if cur is None else cur).append((n, v))
        self.o = [v for n, v in self.sess if n == 'o'][0].split()
        self.c = ([v for n, v in self.sess if n == 'c'] + [None])[0]
    def conn(self, i):
        c = [v for n, v in self.secs[i] if n == 'c']
        return (c[0] if c else self.c).split()
    def m(self, i): return self.secs[i][0][1].split()
    def a(self, i): return [v for n, v in self.secs[i] if n == 'a']
    def rest(self, i): return [(n, v) for n, v in self.secs[i] if n not in 'mca']

def render(sp, side, uniq, sid, ver):
    """Text of the body and [(index in the body, ip, port, type)] of its supported sections."""
    def ad(k, n):
        return {'4': 'IN IP4 10.%d.%d.%d' % (1 if side == 'caller' else 2, n // 200, n % 200 + 1), '6': 'IN IP6 2001:db8:%d::%x' % (1 if side == 'caller' else 2, n + 1), 'h4': 'IN IP4 0.0.0.0', 'h6': 'IN IP6 ::'}[k]
    secs, keys = [], []
    sc = sp['sc']
    for j, s in enumerate(sp['secs']):
        n = uniq + j
        media, tr, fm = KINDS[s['k']]
        c = s['c']
        eff = c or sc
        if eff is None: c = eff = '4'
        port = 5000 + 2 * n
        if s['port'] == '0':
            if eff in ('h4', 'h6') or c is None: c = eff = '4'
            port = 0
        L = ['m=%s %d %s %s' % (media, port, tr, fm)]
        if s['i']: L.append('i=a section')
        if c is not None: L.append('c=' + ad(c, n))
        if s['b']: L.append('b=AS:%d' % (64 + j))
        hold = eff in ('h4', 'h6')
        at = [ATTRS[k] for k in s['a']]
        d = s['dir']
        if hold and d in ('recvonly', 'inactive'): d = 'sendonly'
        if d: at.insert(len(at) // 2, d)
        if s['rtcp'] == 'p': at.append('rtcp:%d' % (port + 1))
        if s['rtcp'] == 'pa': at.append('rtcp:%d IN IP4 10.9.9.9' % (port + 1))
        L += ['a=' + x for x in at]
        secs += L
        if tr.lower() in SUPPORTED:
            a = ad(c, n) if c is not None else ad(sc, uniq)
            keys.append((j, a.split()[2], port, a.split()[1]))
    top = ['v=0', 'o=user %d %d IN IP4 10.0.0.9' % (sid, ver), 's=a session']
    if sp['extra']: top += ['i=info', 'u=http://x.example/', 'e=a@example.com']
    if sc is not None: top.append('c=' + ad(sc, uniq))
    if sp['extra']: top.append('b=AS:256')
    top.append('t=0 0')
    top += ['a=' + x for x in sp['sa']]
    k = sp['kind']
    if k == 'nosec': secs, keys = [], []
    if k == 'bad-o': top[1] = 'o=user 1 2 IN'
    if k == 'bad-m': secs[0] = 'm=audio notaport RTP/AVP 0'
    if k == 'bad-cut': top = top[:2]
    if k == 'bad-noc':
        top = [x for x in top if x[0] != 'c']
        secs = [x for x in secs if x[0] != 'c']
    return ''.join(x + '\r\n' for x in top + secs), keys

def run(case, rec):
    import boot, sim, relay
    relay.patch()
    _gc.collect()
    w = sim.World()
    w.out_hook = lambda dg: [0.0001]
    from sippy.Rtp_proxy.client import Rtp_proxy_client
    from sippy.Rtp_proxy.session import Rtp_proxy_session
    from sippy.MsgBody import MsgBody
    from sippy.SipContentType import SipContentType
    from sippy.Exceptions.RtpProxyError import RtpProxyError
    from sippy.Exceptions.SdpParseError import SdpParseError
    rl = relay.Relay(w, caps = case['caps'])
    G = {'_sip_address': '192.0.2.1'}
    cl = Rtp_proxy_client(G, relay.ADDR)
    cl.hrtb_ival = 30.0
    G['_rtp_proxy_clients'] = [cl]
    w.run(0.5)
    V(cl.online, 'setup', 'the relay was not taken into service')
    if case['notify']: cl.notify_socket = 'tcp:192.0.2.1:12345'
    class S(Rtp_proxy_session): insert_nortpp = case['nort']
    s = S(G, call_id = 'call', from_tag = 'FT', to_tag = 'TT', notify_tag = 'r%20tag' if case['notify'] else None)
    side = {'caller': s.caller, 'callee': s.callee}
    tags = {'caller': ('FT', 'TT'), 'callee': ('TT', 'FT')}
    if case['rep']:
        side[case['rep'][0]].repacketize = case['rep'][1]
        side[case['rep'][0]].soft_repacketize = case['rep'][2]
    raddr = {'caller': None, 'callee': None}
    for k in {'caller': ['caller'], 'both': ['caller', 'callee'], None: []}[case['raddr']]:
        raddr[k] = '198.51.100.%d' % len(k)
        side[k].raddress = (raddr[k], 5060)
    faults, xf = list(case['faults']), list(case['xfaults'])
    def fault(c):
        if c.type == 'U':
            if c.port == 0 and c.ip == '0.0.0.0': f = xf.pop(0) if xf else 'ok'
            else: f = faults.pop(0) if faults else 'ok'
            c.f = f
            return {'ok': None, 'E8': 'E8', 'zero': '0', 'silent': False, 'noaddr': '%d' % (40000 + 2 * len(rl.cmds)), 'ip6': '%d 2001:db8::77 6' % (40000 + 2 * len(rl.cmds)), 'garbage': 'what is this', 'neg': '-1', 'empty': '', 'big': '70000 203.0.113.50', 'other': '%d 203.0.113.99' % (40000 + 2 * len(rl.cmds))}[f]
        if c.type != 'D':
            f = xf.pop(0) if xf else 'ok'
            return {'ok': None, 'E8': 'E8', 'silent': False}[f]
    rl.fault = fault
    changes, others = [], []
    org = {'caller': [1000, 1, None], 'callee': [2000, 1, None]}
    tot = [None]
    uniq = [0]
    exists = {'caller': False, 'callee': False}
    mti = []
    def sdp(sd, sp):
        o = org[sd]
        kind = sp['kind']
        last = [c for c in changes if c['side'] == sd and c['keys']]
        if kind == 'same' and last: sp = dict(last[-1]['sp'], kind = 'sdp'); uq = last[-1]['uq']
        else:
            uq = uniq[0]; uniq[0] += 4
            if o[2] is not None:
                if sp['sid']: o[0] += 7
                o[1] += 1
        o[2] = True
        text, keys = render(sp, sd, uq, o[0], o[1])
        mt, body = 'application/sdp', text
        if kind == 'text': mt, keys = 'application/isup', []
        if kind in ('multi', 'nopart'):
            mt = 'multipart/mixed;boundary=bnd'
            if kind == 'nopart': body, keys = '--bnd\r\nContent-Type: text/plain\r\n\r\nhello\r\n--bnd\r\nContent-Type: application/isup\r\n\r\nabc\r\n--bnd--\r\n', []
            else: body = '--bnd\r\nContent-Type: text/plain\r\n\r\nhello\r\n--bnd\r\nContent-Type: application/sdp\r\n\r\n' + text + '--bnd--\r\n'
        ct = SipContentType(mt)
        ct.parse()
        mb = MsgBody(body, ct)
        c = {'side': sd, 'sp': sp, 'uq': uq, 'text': text, 'body': body, 'keys': keys, 'cb': [], 'mb': mb, 't': w.now, 'o': tuple(o[:2]), 'kind': kind, 'raised': None, 'ret': None}
        changes.append(c)
        def cb(result, ex = None):
            c['cb'].append((w.now, result, plain(ex), str(result) if result is not None else None))
        try: c['ret'] = (s.on_caller_sdp_change if sd == 'caller' else s.on_callee_sdp_change)(mb, cb)
        except (SdpParseError, RtpProxyError) as e: c['raised'] = plain(e)
        if c['ret'] is not None: c['rettext'] = str(c['ret'])
    def other(kind, *a):
        x = {'kind': kind, 'a': a, 'done': [], 't': w.now}
        others.append(x)
        cb = lambda r: x['done'].append(r)
        if kind == 'play': (s.play_caller if a[0] == 'caller' else s.play_callee)('prompt', 2, cb, a[1])
        elif kind == 'stop': (s.stop_play_caller if a[0] == 'caller' else s.stop_play_callee)(cb, a[1])
        elif kind == 'copy': (s.copy_caller if a[0] == 'caller' else s.copy_callee)('198.51.100.9', 9000, cb, a[1])
        elif kind == 'record': s.start_recording(a[0], result_callback = cb, only_a = a[1])
    for dt, o in case['steps']:
        w.run(dt)
        if o[0] == 'sdp': sdp(o[1], o[2])
        elif o[0] == 'timeout': s.media_timeout_index = o[1]; mti.append(o[1])
        else: other(*o)
    early = case['end'] == 'early'
    if not early: w.run(120.0)
    else: w.run(0.001)
    ndone = len(rl.cmds)
    if case['end'] == 'drop':
        cl2 = cl
        side.clear(); s = None
        _gc.collect()
    else: s.delete()
    w.run(150.0)
    w.check_exceptions()
    cmds = [c for c in rl.cmds if c.text[0] in 'UDPSCRQ']
    # what went to the relay
    us = [c for c in cmds if c.type == 'U']
    for c in us: V(c.cid.startswith('call-') and c.frm in ('FT', 'TT'), 'command', 'command %r', c.text)
    done_u = set()
    lastpos = -1
    maxidx = -1
    prev = {'caller': None, 'callee': None}
    made = {'FT': False, 'TT': False}
    for c in changes:
        what = '%s SDP at %.3f' % (c['side'], c['t'])
        bad = c['kind'].startswith('bad')
        if bad:
            V(c['raised'] is not None or len(c['cb']) == 1, 'sdp-error', '%s (%s) was taken', what, c['kind'])
            V(not (c['raised'] is not None and c['cb']), 'sdp-error', '%s: the error was reported twice', what)
            e = c['raised'] or c['cb'][0][2]
            V(isinstance(e, SdpParseError) and e.code == 488 or isinstance(e, RtpProxyError) and e.code == 502, 'sdp-error', '%s: error %r', what, e)
            V(isinstance(e, SdpParseError), 'sdp-error', '%s: a malformed body was reported as %r', what, e)
            rec.cls('bad sdp')
            continue
        V(c['raised'] is None, 'sdp-error', '%s: raised %r', what, c['raised'])
        if not c['keys']:
            V(not c['cb'] and c['ret'] is not None or len(c['cb']) == 1, 'untouched', '%s without relayed media: returned %r, called back %s', what, c['ret'], c['cb'])
            t = c['rettext'] if c['ret'] is not None else c['cb'][0][3]
            V(t is not None and (t == c['body'] if c['kind'] in ('text', 'nopart') else c['kind'] == 'multi' and t.count('--bnd') == 3 and 'hello' in t and same_sdp(inner(t), c['text']) or c['kind'] != 'multi' and same_sdp(t, c['text'])), 'untouched', '%s without relayed media came back changed: %r', what, t)
            rec.cls('nothing to relay')
            continue
        V(c['ret'] is None, 'callback', '%s: returned a body before the relay answered', what)
        V(len(c['cb']) == 1, 'callback', '%s: reported %d times', what, len(c['cb']))
        t, res, ex, txt = c['cb'][0]
        frm, to = tags[c['side']]
        mine = []
        for i, (j, ip, port, at) in enumerate(c['keys']):
            pos = [k for k, u in enumerate(cmds) if u.type == 'U' and (u.ip, u.port, u.cid, u.frm) == (ip, port, 'call-%d' % i, frm) and k not in done_u]
            V(pos, 'command', '%s: no update was sent for section %d (%s:%d, stream %d)', what, j, ip, port, i)
            V(pos[0] > lastpos, 'order', '%s: update of section %d was sent out of order', what, j)
            lastpos = pos[0]
            done_u.add(pos[0])
            u = cmds[pos[0]]
            mine.append(u)
            maxidx = max(maxidx, i)
            opts = u.opts
            want = ('6' if at == 'IP6' else '') + ('z%d' % case['rep'][1] if case['rep'] and case['rep'][0] == c['side'] and not case['rep'][2] else '') + ('R' + raddr[c['side']] if raddr[c['side']] and case['caps'] == '1' else '')
            V(sorted(opts) == sorted(want), 'command', '%s: update of section %d has options %r instead of %r', what, j, opts, want)
            if case['notify'] and case['caps'] == '1': V((u.nsock, u.ntag) == ('tcp:192.0.2.1:12345', 'r%20tag' if i == 0 else 'r%%20tag%%20%d' % i), 'command', '%s: section %d asks for notifications to %r %r', what, j, u.nsock, u.ntag)
            else: V(u.nsock is None, 'command', '%s: section %d asks for notifications', what, j)
            V(u.to in (None, to), 'command', '%s: section %d: tags %s %s', what, j, u.frm, u.to)
            there = [x for x in cmds[:pos[0]] if x.type == 'U' and x.frm == to]
            if not there: V(u.to is None, 'command', '%s: section %d names the other side (%s), unknown to the relay', what, j, u.to)
            if [x for x in there if x.f == 'ok' and x.t < c['t'] - 0.1]: V(u.to is not None, 'command', '%s: section %d does not name the other side, which the relay knows', what, j)
        failed = [u for u in mine if case['end'] == 'early' and u.f == 'noaddr' and res is None or u.f in ('E8', 'zero', 'silent', 'garbage', 'neg', 'big', 'empty')]
        if failed:
            V(res is None and isinstance(ex, RtpProxyError) and ex.code == 502, 'error', '%s: the relay said %r and the change was reported as %r, %r', what, failed[0].f, txt, ex)
            rec.cls('relay error')
            c['mb'] = None
            continue
        V(res is not None and ex is None, 'error', '%s failed with %r, the relay said %s', what, ex, [u.reply for u in mine])
        rec.cls('relayed')
        if c['kind'] == 'multi':
            V(txt.count('--bnd') == 3 and 'hello' in txt, 'multipart', '%s: the multipart body became %r', what, txt)
            txt = inner(txt)
            rec.cls('multipart')
        V(str(res) == c['cb'][0][3], 'changed', '%s: the body changed after it was handed over: %r became %r', what, c['cb'][0][3], str(res))
        check_sdp(c, what, txt, mine, case, rec)
        got = Reader(txt)
        V(got.o[0] != 'user' and got.o[5] != '10.0.0.9', 'origin', '%s: origin %s passed through', what, got.o)
        p = prev[c['side']]
        if p is not None:
            po, pver = p
            if c['o'][0] == pver[0]:
                V(got.o[1] == po[1], 'origin', '%s: session id %s became %s', what, po[1], got.o[1])
                if c['o'][1] == pver[1]: V(got.o == po, 'origin', '%s: origin %s became %s with an unchanged body', what, po, got.o)
                else: V(int(got.o[2]) > int(po[2]), 'origin', '%s: version %s became %s with a changed body', what, po[2], got.o[2])
                V(got.o[0] == po[0] and got.o[3:] == po[3:], 'origin', '%s: origin %s became %s', what, po, got.o)
            else: V(got.o != po, 'origin', '%s: origin stays %s though the session is another', what, po)
            rec.cls('updated')
        prev[c['side']] = (got.o, c['o'])
    for k, u in enumerate(cmds):
        if u.type == 'U' and k not in done_u:
            V(u.port == 0 and u.ip == '0.0.0.0' and others, 'command', 'an update nobody asked for: %r', u.text)
            maxidx = max(maxidx, int(u.cid.split('-')[-1]))
    for x in others:
        V(len(x['done']) == 1, 'helper', '%s %s at %.3f was completed %d times', x['kind'], x['a'], x['t'], len(x['done']))
        rec.cls(x['kind'])
    for c in cmds:
        if c.type in 'PSCR':
            V('None' not in c.text.split(' ')[0], 'helper', 'the relay was sent %r', c.text)
            tg = c.text.split(' ')[-2:]
            V(sorted(tg) == ['FT', 'TT'], 'helper', 'the relay was sent %r', c.text)
    # each helper command was asked for
    pool = []
    for x in others:
        k, a = x['kind'], x['a']
        if k == 'record': pool += [('R', 'call-0', 'FT', 'TT')] if a[0] is None else [('C', 'call-0', 'FT', 'TT')] + ([('C', 'call-0', 'TT', 'FT')] if not a[1] else [])
        else: pool.append(({'play': 'P', 'stop': 'S', 'copy': 'C'}[k], 'call-%d' % a[1]) + tags[a[0]])
    for c in cmds:
        if c.type in 'PSCR':
            f = c.text.split(' ')
            k = (c.type, f[1], f[-2], f[-1])
            V(k in pool, 'helper', 'the relay was sent %r, which was not asked for', c.text)
            pool.remove(k)
            if c.type == 'P': V(set(x.frm for x in cmds[:cmds.index(c)] if x.type == 'U') == {'FT', 'TT'}, 'helper', '%r was sent before both sides were known to the relay', c.text)
            if c.type == 'P': V(f[0] == 'P2' and f[2] == 'prompt', 'helper', 'the relay was sent %r', c.text)
            if c.type == 'C': V(f[2] in ('udp:198.51.100.9:9000', 'file.a', 'file.o') and (f[2] != 'file.a' or f[3] == 'FT') and (f[2] != 'file.o' or f[3] == 'TT'), 'helper', 'the relay was sent %r', c.text)
    # deleted once, after everything else
    ds = [c for c in cmds if c.type == 'D']
    V(len(set(d.cid for d in ds)) == len(ds), 'delete', 'streams deleted more than once: %s', [d.cid for d in ds])
    want = ['call-%d' % i for i in range(maxidx + 1)]
    free = ['call-%d' % i for i in mti]
    V(set(want) - set(free) <= set(d.cid for d in ds) <= set(want), 'delete', 'streams %s were created and %s deleted', want, sorted(d.cid for d in ds))
    for d in ds: V((d.frm, d.to) == ('FT', 'TT'), 'delete', 'deleted with %r', d.text)
    if ds:
        first = cmds.index(ds[0])
        # (the second half of a helper that was under way may follow, no stream is created any more)
        V(all(c.type == 'D' or c.type in 'PCR' and case['end'] == 'early' for c in cmds[first:]), 'delete', 'commands follow the deletion: %s', [c.text for c in cmds[first:]])
        rec.cls('deleted %d' % min(len(ds), 3))
    rec.nt(len([c for c in changes if c['keys']]) > 0)
    cl.shutdown()

def inner(t): return t.split('application/sdp\r\n\r\n', 1)[1].split('--bnd')[0] if 'application/sdp\r\n\r\n' in t else ''

def same_sdp(a, b):
    x, y = Reader(a), Reader(b)
    if [l for l in x.sess if l[0] != 'c'] != [l for l in y.sess if l[0] != 'c'] or len(x.secs) != len(y.secs): return False
    return all(x.conn(i) == y.conn(i) and [l for l in x.secs[i] if l[0] != 'c'] == [l for l in y.secs[i] if l[0] != 'c'] for i in range(len(x.secs)))

def check_sdp(c, what, txt, mine, case, rec):
    a, b = Reader(txt), Reader(c['text'])
    strip = lambda l: [x for x in l if x[0] not in 'oc' and x != ('a', 'nortpproxy:yes')]
    V(strip(a.sess) == strip(b.sess), 'changed', '%s: session lines %s became %s', what, b.sess, a.sess)
    V(len(a.secs) == len(b.secs), 'changed', '%s: %d sections became %d', what, len(b.secs), len(a.secs))
    n = txt.count('a=nortpproxy:yes')
    V(n == (1 if case['nort'] else 0), 'changed', '%s: %d nortpproxy marks', what, n)
    by = {k[0]: (k, u) for k, u in zip(c['keys'], mine)}
    for i in range(len(b.secs)):
        ma, mb = a.m(i), b.m(i)
        V(a.rest(i) == b.rest(i), 'changed', '%s: section %d: %s became %s', what, i, b.rest(i), a.rest(i))
        aa = [x for x in a.a(i) if x != 'nortpproxy:yes']
        ab = b.a(i)
        if i not in by:
            V(ma == mb and a.conn(i) == b.conn(i), 'changed', '%s: section %d, not for the relay, became %s %s', what, i, ma, a.conn(i))
            V(aa == ab, 'changed', '%s: section %d: attributes %s became %s', what, i, ab, aa)
            rec.cls('left alone')
            continue
        (j, ip, port, at), u = by[i]
        r = u.reply.split()
        ep = int(r[0])
        eip = r[1] if len(r) > 1 else '203.0.113.50'
        efam = 'IP6' if len(r) > 2 and r[2] == '6' else 'IP4'
        V(a.conn(i) == ['IN', efam, eip], 'address', '%s: section %d points to %s, the relay said %r', what, i, a.conn(i), u.reply)
        V(ma[1] == (str(ep) if port else '0'), 'address', '%s: section %d has port %s, the relay said %r', what, i, ma[1], u.reply)
        V(ma[0] == mb[0] and ma[2:] == mb[2:], 'changed', '%s: %s became %s', what, mb, ma)
        hold = ip in ('0.0.0.0', '::')
        rep = case['rep'] and case['rep'][0] == c['side']
        drop = lambda l: [x for x in l if not (x.startswith('rtcp:') or rep and x.startswith('ptime:') or hold and x in ('sendrecv', 'sendonly'))]
        V(drop(aa) == drop(ab), 'changed', '%s: section %d: attributes %s became %s', what, i, ab, aa)
        if hold:
            V([x for x in aa if x in ('sendrecv', 'sendonly')] == ['sendonly'], 'hold', '%s: section %d on hold: attributes %s became %s', what, i, ab, aa)
            rec.cls('hold')
        if rep:
            V([x for x in aa if x.startswith('ptime:')] == ['ptime:%d' % case['rep'][1]], 'ptime', '%s: section %d, repacketized to %d: attributes %s became %s', what, i, case['rep'][1], ab, aa)
            rec.cls('repacketized')
        rt = [x for x in aa if x.startswith('rtcp:')]
        V(len(rt) == len([x for x in ab if x.startswith('rtcp:')]), 'changed', '%s: section %d: attributes %s became %s', what, i, ab, aa)
        for x in rt:
            if port: V(x == 'rtcp:%d IN %s %s' % (ep + 1, efam, eip), 'address', '%s: section %d: RTCP at %r, the relay said %r', what, i, x, u.reply)
        if efam == 'IP6': rec.cls('ipv6')

# -- through the b2bua ------------------------------------------------------
_sdp = None
_garb = None         # the one that is malformed

def msdp(i, n = 0):
    if (i, n) == _garb: return 'v=0\r\no=x 1 1 IN IP4 10.1.9.9\r\ns=-\r\nc=IN\r\nt=0 0\r\nm=audio 20000 RTP/AVP 0\r\n'
    s = _sdp(i, n)
    v = (i + n) % 6
    if v == 3: s += 'm=video %d RTP/AVP 97\r\na=rtpmap:97 H264/90000\r\n' % (40000 + 2 * i)
    if v == 4: s += 'm=message %d TCP/MSRP *\r\na=path:x\r\n' % (42000 + 2 * i)
    if v == 5: s = s.replace('m=audio', 'm=message').replace('RTP/AVP', 'TCP/MSRP')
    return s

UF = st.lists(st.sampled_from(['ok'] * 9 + ['E8', 'silent', 'zero']), max_size = 14)
LAT = st.lists(st.sampled_from([0.0021, 0.0021, 0.0021, 0.0331, 0.4431]), max_size = 10)

def calls():
    import scen
    kinds = ('hangup', 'reinv', 'reinv', 'reinv', 'reinv', 'info', 'refer', 'op')
    return st.tuples(st.one_of(scen.scenario(2, 2, False), scen.incall(kinds, False), scen.incall(kinds, False), scen.incall(kinds, False)), st.one_of(st.just([]), UF), st.one_of(st.just([]), LAT)).map(lambda v: tolist({'scen': v[0], 'faults': v[1], 'lat': v[2]}))

class Media(object):
    """A run of scen with a relay; collects what the ends were sent."""
    def __init__(self, sc, faults, lat, loss = False):
        import relay, scen
        global _sdp
        relay.patch()
        _gc.collect()
        if _sdp is None: _sdp = scen.sdp
        self.relay_ports = {}
        faults, lat = list(faults), list(lat)
        self.bad = []
        def fault(c):
            c.f = 'ok'
            if c.type == 'U':
                if faults: c.f = faults.pop(0)
                rl.delay = lat.pop(0) if lat else 0.0021
                if c.f != 'ok':
                    self.bad.append(c)
                    return {'E8': 'E8', 'zero': '0', 'silent': False}[c.f]
                k = (c.cid, c.ip, c.port)
                if k not in self.relay_ports: self.relay_ports[k] = 30002 + 2 * len(self.relay_ports)
                return '%d 203.0.113.50' % self.relay_ports[k]
        rl = None
        def hooks(run):
            nonlocal rl
            rl = self.rl = relay.Relay(run.w)
            rl.fault = fault
            for c in run.rig.gc['_rtp_proxy_clients']: c.hrtb_ival = 15.0
        for c in sc['calls']: c['start'] = round(c['start'] + 1.0, 4)
        scen.sdp = msdp
        try: self.run = scen.Run(sc, args = ['-r', 'udp:203.0.113.50:22222'], hooks = hooks)
        finally: scen.sdp = _sdp
        self.run.w.check_exceptions()
    def legs(self, cl):
        return [('caller', cl.leg)] + [('callee', l) for n, l in cl.outs]
    def bodies(self, leg):
        """Session descriptions the leg was sent, in order."""
        return [(t, m) for t, m in leg.ep.rx_log if m.callid == leg.callid and m.body and m.body.startswith('v=0') and (leg.role == 'caller' or (m.to.tag if m.is_req else m.frm.tag) in (None, leg.ltag))]

def look(m, cl, who, leg, t, msg, rec):
    """One body against the commands of the call."""
    txt = msg.body
    R = Reader(txt)
    what = 'call %d, %s at %.3f, %s' % (cl.i, who, t, msg.start[:40])
    us = [c for c in m.rl.cmds if c.type == 'U' and c.cid.startswith(cl.cid + '-') and c.f == 'ok' and c.t <= t]
    rel = [k for k in range(len(R.secs)) if R.m(k)[2] != 'TCP/MSRP']
    n = 0
    org = None
    for j, k in enumerate(rel):
        V(R.conn(k) == ['IN', 'IP4', '203.0.113.50'], 'leak', '%s: media at %s instead of the relay', what, R.conn(k))
        u = [c for c in us if c.reply.split()[0] == R.m(k)[1] and c.cid == '%s-%d' % (cl.cid, j)]
        V(u, 'leak', '%s: section %d has port %s, which the relay never gave for stream %d', what, k, R.m(k)[1], j)
        u = u[-1]
        if u.ip == '0.0.0.0':
            rec.cls('hold')
            continue
        p = u.port - (20000 if u.port < 40000 else 40000)
        o = (p // 2, int(u.ip.split('.')[3]) - 1)
        V(org in (None, o), 'leak', '%s: sections of different bodies', what)
        org = o
        V((o[0] < 10) == (who == 'callee'), 'leak', '%s: the description of the wrong party', what)
    if not rel:
        c = R.conn(0)[2].split('.')
        org = ((int(R.m(0)[1]) - 20000) // 2, int(c[3]) - 1) if c != ['0'] * 4 else None
    if org is not None:
        B = Reader(msdp(*org))
        V(len(B.secs) == len(R.secs), 'changed', '%s: %r was made from %r', what, txt, msdp(*org))
        for k in range(len(B.secs)):
            a, b = R.m(k), B.m(k)
            V(a[0] == b[0] and a[2:] == b[2:] and (k in rel or a[1] == b[1] and R.conn(k) == B.conn(k)), 'changed', '%s: section %s was made from %s', what, a, b)
            x = [q for q in R.a(k) if q not in ('nortpproxy:yes', 'nated:yes')]
            V(x == B.a(k), 'changed', '%s: attributes %s were made from %s', what, x, B.a(k))
        V([x for x in R.sess if x[0] not in 'oc'] == [x for x in B.sess if x[0] not in 'oc'], 'changed', '%s: session part %s was made from %s', what, R.sess, B.sess)
        V(txt.count('nortpproxy:yes') == (1 if rel else 0), 'changed', '%s: nortpproxy %d times', what, txt.count('nortpproxy:yes'))
    rec.cls('relayed %d' % len(rel))
    return R, org

def cleanup(m, cl, rec, strict = True):
    us = [c for c in m.rl.cmds if c.type == 'U' and c.cid.startswith(cl.cid + '-')]
    ds = [c for c in m.rl.cmds if c.type == 'D' and c.cid.startswith(cl.cid + '-')]
    V(sorted(set(c.cid for c in us)) == sorted(c.cid for c in ds), 'delete', 'call %d: streams %s were created and %s deleted', cl.i, sorted(set(c.cid for c in us)), sorted(c.cid for c in ds))
    for d in ds:
        last = [c for c in us if c.t > d.t]
        V(not last, 'delete', 'call %d: %r was sent after the deletion', cl.i, last[:1] and last[0].text)
        tags = set(c.frm for c in us) | set(c.to for c in us if c.to)
        V(tags <= {d.frm, d.to}, 'delete', 'call %d: %r does not name the parties %s', cl.i, d.text, tags)
    if ds and not m.run.lossy:
        L = cl.leg
        e = [x[0] for x in L.ev if x[1] in ('bye', 'bye-tx', 'cancel-tx', 'vanish', 'noack') or x[1] == 'final' and x[2] >= 300] + [x[0] for n, l in cl.outs for x in l.ev if x[1] == 'bye-tx']
        V(e and ds[0].t > min(e) - 0.05, 'delete', 'call %d: deleted at %.3f, the call ended at %s', cl.i, ds[0].t, e[:1])
        rec.cls('deleted')

def run_calls(case, rec):
    import copy
    m = Media(copy.deepcopy(case['scen']), case['faults'], case['lat'])
    for cl in m.run.calls:
        if cl.leg is None: continue
        for who, leg in m.legs(cl):
            vs = {}
            for t, msg in m.bodies(leg):
                R, org = look(m, cl, who, leg, t, msg, rec)
                rec.nt()
                if org is None or not any(R.m(k)[2] != 'TCP/MSRP' for k in range(len(R.secs))): continue
                b = msg.body.replace('a=nated:yes\r\n', '')
                v = tuple(R.o[1:3])
                V(vs.setdefault(v, b) == b, 'origin', 'call %d, %s at %.3f: origin %s for %r and for %r', cl.i, who, t, v, vs[v], b)
        cleanup(m, cl, rec)
        if m.bad: rec.cls('fault')
        if not cl.leg.ep.dead: V(cl.leg.state in ('failed', 'ended'), 'limbo', 'call %d: the caller is left %s', cl.i, cl.leg.state)
        for n, l in cl.outs:
            if not l.ep.dead: V(l.state in ('failed', 'ended') or l.state == 'early', 'limbo', 'call %d: callee %d is left %s', cl.i, n, l.state)
        if cl.leg.inv_final is None and not cl.leg.ep.dead and not any(x['k'] == 'vanish' for x in cl.c['acts']): V(False, 'limbo', 'call %d: the caller was never answered', cl.i)
    V(not m.run.rig.leftovers(), 'leftovers', 'left over: %s', m.run.rig.leftovers())

WHERE = ('invite', 'prov', 'answer', 'ack', 'areinv', 'areinv-ans', 'breinv', 'breinv-ans')

def faults():
    return st.fixed_dictionaries({'where': st.sampled_from(WHERE + ('none',)), 'kind': st.sampled_from(['E8', 'silent', 'zero', 'garb', 'garb']), 'sec': st.integers(0, 1), 'lat': st.lists(st.sampled_from([0.0021, 0.0331, 0.4431]), max_size = 6), 'p': st.sampled_from([None, 1, 2, 3, 4]), 'f': st.integers(0, 4), 'rn': st.integers(0, 6), 'ran': st.integers(0, 4), 'ka': st.sampled_from([0, 0, 1, 2, 3]), 'radius': st.booleans()}).map(tolist)

def nsup(i, n): return 0 if (i, n) == _garb else {3: 2, 5: 0}.get((i + n) % 6, 1)

def run_fault(case, rec):
    global _garb
    wh = case['where']
    if case['kind'] == 'garb':
        case = dict(case, p = None if wh != 'prov' else case['p'] or 1, f = 0)
        _garb = {'invite': (0, 0), 'prov': (11, case['p']), 'answer': (11, 0), 'ack': (5, 0), 'areinv': (0, 1 + case['rn']), 'breinv': (11, 1 + case['rn']), 'areinv-ans': (11, 20 + case['ran']), 'breinv-ans': (0, 20 + case['ran'])}.get(wh)
    try: fault_case(case, rec, wh)
    finally: _garb = None

def fault_case(case, rec, wh):
    late = wh == 'ack'
    rea, reb = wh.startswith('areinv'), wh.startswith('breinv')
    act = [{'t': 3.0231, 'k': 'reinv', 'n': case['rn']}]
    ans = [{'t': 0.0171, 'code': 200, 'sdp': case['ran'], 'prov': None}]
    prov = case['p'] if not late else None
    ce = {'prov': [] if prov is None else [{'t': 0.5137, 'code': 183, 'sdp': prov, 'rep': False}] , 'final': {'t': 4.5137, 'code': 200, 'sdp': case['f'], 'rep': False}, 'dead': False, 'cancel': '487', 'reason': None, 'acts': act if reb else [], 'reinv': ans}
    ro = {'cld': None, 'cli': None, 'cnam': None, 'expires': None, 'np': None, 'nr': None, 'crt': None, 'fof': False, 'hs': None, 'ash': [], 'gt': None, 'auth': None, 'callee': ce}
    c = {'start': 0.5019, 'cli': '100', 'cld': '200', 'name': None, 'mf': 70, 'sdp': None if late else 0, 'xh': [], 'reason': None, 'acts': [], 'acts2': act if rea else [], 'reinv': ans, 'routes': [ro], 'aaa': {'d': 0.0113, 'ok': True, 'credit': None, 'cli': None, 'cnam': None}}
    conf = {'mode': 'radius' if case['radius'] else 'static', 'acct': 0, 'hide': False, 'ka': case['ka'], 'maxc': None, 'pass': [], 'alive': None, 'precise': False}
    # the commands in order
    seq = []
    if not late: seq += [('invite', 0, 0)]
    if prov is not None: seq += [('prov', 11, prov)]
    seq += [('answer', 11, case['f'])]
    if late: seq += [('ack', 5, 0)]
    if rea: seq += [('areinv', 0, 1 + case['rn']), ('areinv-ans', 11, 20 + case['ran'])]
    if reb: seq += [('breinv', 11, 1 + case['rn']), ('breinv-ans', 0, 20 + case['ran']) if case['f'] != 1 + case['rn'] else ('breinv-ans', 0, 0)]
    # (an update that changes nothing is answered from memory)
    fl, hit = [], False
    for k, i, n in seq:
        m = nsup(i, n)
        hit = hit or k == wh and (i, n) == _garb
        if _garb is not None and hit: break
        for j in range(m):
            bad = k == wh and not hit and j >= min(case['sec'], m - 1)
            hit = hit or bad
            fl.append(case['kind'] if bad else 'ok')
    m = Media({'conf': conf, 'calls': [c], 'end': 40.0, 'loss': []}, fl, case['lat'])
    cl = m.run.calls[0]
    L = cl.leg
    B = cl.outs[0][1] if cl.outs else None
    for who, leg in m.legs(cl):
        for t, msg in m.bodies(leg): look(m, cl, who, leg, t, msg, rec)
    cleanup(m, cl, rec)
    V(not m.run.rig.leftovers(), 'leftovers', 'left over: %s', m.run.rig.leftovers())
    rec.nt(hit)
    hang = m.run.hard_end
    rec.cls((wh if hit else 'none') + ':' + case['kind'])
    fin = L.got('final')
    V(len(fin) == 1, 'reported', '%s: the caller got %d final responses', wh, len(fin))
    ended = lambda l: [e for e in l.got('bye') if e[0] < hang - 1]
    if not hit or wh not in ('invite', 'prov', 'answer'): V(fin[0][2] == 200, 'reported', '%s: the caller got %d', wh if hit else 'no fault', fin[0][2])
    if not hit:
        V(not ended(L) and not ended(B), 'ended', 'no fault, but the call was ended')
        return
    if wh in ('invite', 'prov', 'answer'):
        V(fin[0][2] == (502 if _garb is None else 488), 'reported', '%s failed at the relay: the caller got %d', wh, fin[0][2])
        V((B is None) == (wh == 'invite'), 'reported', '%s failed at the relay: callee %s', wh, B)
        if wh == 'prov': V(B.got('cancel') and B.state == 'failed', 'limbo', '%s failed at the relay: the callee was left %s', wh, B.state)
        if wh == 'answer': V(ended(B), 'limbo', '%s failed at the relay: the callee was left %s', wh, B.state)
        return
    if wh == 'ack':
        V(ended(L) and ended(B), 'limbo', '%s failed at the relay: caller %s, callee %s', wh, L.state, B.state)
        return
    X, Y = (L, B) if rea else (B, L)
    f = X.got('reinv-final')
    V(len(f) == 1 and f[0][2] in ((502,) if _garb is None else (488, 502, 400) if '-' in wh else (488,)), 'reported', '%s failed at the relay: the update was answered with %s', wh, [e[2] for e in f])
    if '-' not in wh:
        V(not [e for e in Y.got('reinv') if e[3].cseq[0] and e[0] < hang and e[3].body and e[0] > f[0][0] - 4 and not case['ka']], 'reported', '%s failed at the relay: the update was passed on', wh)
        V(not ended(X) and not ended(Y), 'ended', '%s failed at the relay: the call was ended', wh)
    else:
        V(bool(ended(X)) == bool(ended(Y)), 'limbo', '%s failed at the relay: ended on one side only', wh)
        V(ended(X), 'ended', '%s failed at the relay: both parties hold different sessions', wh)

CHECK = Check('C22', 'exploration', [
  Part('session', strategy, run, quick = 300, thorough = 6000, shards = 8, boot = 'virtual', rule = 'at least one body with media for the relay was handled'),
  Part('calls', calls, run_calls, quick = 150, thorough = 1500, shards = 8, boot = 'virtual', rule = 'a session description crossed the b2bua'),
  Part('fault', faults, run_fault, quick = 150, thorough = 1500, shards = 8, boot = 'virtual', rule = 'the relay refused or ignored a command'),
])
