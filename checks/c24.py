"""C24: the control channel to the media relay."""
import os, socket, tempfile, threading, time, shutil, gc as _gc
from hypothesis import strategies as st
from core import Check, Part, Violation

def V(cond, key, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg, key)

def tolist(x): return [tolist(y) for y in x] if isinstance(x, (tuple, list)) else {k: tolist(v) for k, v in x.items()} if isinstance(x, dict) else x

RELAYS = [('203.0.113.50', 22222), ('203.0.113.51', 22223)]
CAPS = ['20071218', '20080403', '20081224', '20090810', '20150617', '20250523']
CAPATTR = {'20071218': 'copy_supported', '20080403': 'stat_supported', '20081224': 'tnot_supported', '20090810': 'sbind_supported', '20150617': 'wdnt_supported', '20250523': 'copy_p_supported'}

times = st.floats(0.0, 40.0).map(lambda x: round(x, 1) + 0.0137)
op = st.one_of(
  st.tuples(times, st.just('cmd'), st.integers(0, 3), st.sampled_from(['U', 'U', 'D', 'P', 'S', 'G', 'I', 'Q', 'X']), st.sampled_from(['str', 'str', 'obj', 'nr0', 'nr1', 'nr3']), st.sampled_from(['', '', '', 'nest', 'boom', 'nocb'])),
  st.tuples(times, st.just('burst'), st.integers(0, 3), st.integers(2, 6)),
  st.tuples(times, st.just('direct'), st.integers(0, 1), st.sampled_from(['Q', 'G', 'I', 'V']), st.just('str'), st.sampled_from(['', 'nest', 'boom'])),
  st.tuples(times, st.just('stats'), st.integers(0, 3)),
  st.tuples(times, st.just('version'), st.integers(0, 3)),
  st.tuples(times, st.just('del'), st.integers(0, 3)),
  )
net = st.sampled_from(['ok', 'ok', 'ok', 'lose', 'lose', 'loserep', 'dup', 'late', 'latedup', 'foreign', 'cross', 'garbage', 'nocookie', 'err', 'empty', 'slow', 'swap'])

def strategy():
    relay = st.fixed_dictionaries({'delay': st.sampled_from([0.0021, 0.0021, 0.05, 0.3, 0.9, 2.1]), 'caps': st.lists(st.sampled_from(['1', '1', '0', 'E1']), min_size = 6, max_size = 6),
      'down': st.lists(st.tuples(st.sampled_from([0.0, 0.003, 0.5, 5.0, 20.0, 30.0, 70.0]), st.sampled_from([0.3, 2.0, 8.0, 20.0, 40.0, 90.0])), max_size = 2), 'ib': st.lists(st.sampled_from(['ok', 'ok', 'ok', 'E5', 'part', 'extra', 'bad', 'none']), max_size = 4), 'ver': st.lists(st.sampled_from(['20040107', '20040107', '20040107', '0', 'E1']), max_size = 3)})
    return st.fixed_dictionaries({'relays': st.lists(relay, min_size = 1, max_size = 2), 'ops': st.lists(op, min_size = 2, max_size = 14), 'net': st.lists(net, min_size = 2, max_size = 30), 'hbnet': st.lists(st.sampled_from(['ok', 'ok', 'lose', 'loserep', 'dup', 'late']), max_size = 8), 'burst': st.booleans()}).map(tolist)

def run(case, rec):
    import boot, sim, relay
    relay.patch()
    _gc.collect()
    w = sim.World()
    from sippy.Rtp_proxy.client import Rtp_proxy_client
    from sippy.Rtp_proxy.session import Rtp_proxy_session
    from sippy.Rtp_proxy.cmd import Rtp_proxy_cmd
    from sippy.Exceptions.RtpProxyError import RtpProxyError
    nr = len(case['relays'])
    G = {'_rtp_proxy_clients': [], '_sip_address': '192.0.2.1'}
    sent = {}                   # cookie -> dict(client, text, times, reply, got)
    order = []
    netq, hbq = list(case['net']), list(case['hbnet'])
    ibq = [list(x['ib']) for x in case['relays']]
    verq = [list(x['ver']) for x in case['relays']]
    held = []
    ev = [[] for _ in range(nr)]        # per relay: (t, what)

    def isdown(i, t):
        return any(a <= t < a + d for a, d in case['relays'][i]['down'])
    def reply_of(i, e):
        c = e['text']
        if c == 'V' : return verq[i].pop(0) if verq[i] else '20040107'
        if c.startswith('VF '): return case['relays'][i]['caps'][CAPS.index(c[3:])]
        if c == 'Ib':
            k = ibq[i].pop(0) if ibq[i] else 'ok'
            n = e['nr']
            full = 'sessions created: %d\nactive sessions: %d\nactive streams: %d\npackets received: %d\npackets transmitted: %d' % (n, n + 1, n + 2, n + 3, n + 4)
            return {'ok': full, 'E5': 'E5', 'part': 'active sessions: %d' % (n + 1), 'extra': full + '\nsome thing: x\n  more\n', 'bad': 'active sessions: many\n' + full, 'none': ''}[k]
        if c.startswith('Q '): return '%d %d 2 3 4' % (e['nr'], e['nr'] + 1)
        return 'R%d re %s' % (e['nr'], c.split(' ')[1] if ' ' in c else '')
    def deliver(i, cookie, text, dst, delay):
        def f():
            e = sent.get(cookie)
            if e is not None: e['got'].append((w.now, text, dst))
            srv = w.servers.get(dst)
            srv.arrive(('%s %s\n' % (cookie, text)).encode(), RELAYS[i])
        w.after(delay, f)
    def mkrx(i):
        def rx(dg):
            cookie, _, c = dg.text.partition(' ')
            c = c.strip()
            e = sent.get(cookie)
            if e is None:
                e = sent[cookie] = {'relay': i, 'cookie': cookie, 'text': c, 'times': [], 'got': [], 'nr': len(sent), 'reply': None, 'dst': dg.src, 'data': dg.data}
                order.append(e)
            V(e['relay'] == i and e['data'] == dg.data, 'repeat', 'a command was sent again as %r', dg.text)
            e['times'].append(w.now)
            mon = c == 'Ib' or c.startswith('V')
            q = hbq if mon else netq
            a = q.pop(0) if q else 'ok'
            if isdown(i, w.now) or a == 'lose': return
            if e['reply'] is None:
                e['reply'] = reply_of(i, e)
                if a == 'err': e['reply'] = 'E8'
                if a == 'empty': e['reply'] = ''
            if a == 'loserep': return
            d = case['relays'][i]['delay']
            if a == 'garbage': w.after(d / 2, lambda: w.servers[e['dst']].arrive(b'\xff\xfe ' + cookie.encode() + b' \x80', RELAYS[i]))
            if a == 'nocookie': w.after(d / 2, lambda: w.servers[e['dst']].arrive(b'\n' if e['nr'] % 2 else b'R17\n', RELAYS[i]))
            if a == 'foreign': deliver(i, '0' * 32, 'R999 foreign', e['dst'], d / 2)
            if a == 'cross' and nr > 1:
                # the answer turns up at the other client
                o = [x for x in order if x['relay'] != i]
                if o: return deliver(i, cookie, e['reply'], o[-1]['dst'], d)
            if a == 'swap': held.append((i, cookie, e)); return
            deliver(i, cookie, e['reply'], e['dst'], d + {'late': 6.0, 'slow': 1.1}.get(a, 0))
            if a in ('dup', 'latedup'): deliver(i, cookie, e['reply'], e['dst'], d + (0.001 if a == 'dup' else 7.0))
            while held:
                j, ck, x = held.pop()
                deliver(j, ck, x['reply'], x['dst'], case['relays'][j]['delay'] + 0.0005)
        return rx
    for i in range(nr): w.peer(RELAYS[i], mkrx(i))
    w.out_hook = lambda dg: [0.0001]
    for i in range(nr):
        G['_rtp_proxy_clients'].append(Rtp_proxy_client(G, RELAYS[i]))
    clients = G['_rtp_proxy_clients']
    sess = {}
    done = {}                   # n -> list of (t, result)
    issued = []                 # dict per user command
    def idx(c): return [x is c for x in clients].index(True)
    def session(k):
        if k not in sess:
            on = [c for c in clients if c.online]
            try: s = Rtp_proxy_session(G, 'cid%d' % k, 'ft', 'tt')
            except RtpProxyError:
                V(not on, 'select', 'no session could be made while a relay was in service')
                rec.cls('no relay')
                return None
            V(any(c is s.rtp_proxy_client for c in on), 'select', 'a session was put on a relay that is out of service')
            sess[k] = {'s': s, 'relay': idx(s.rtp_proxy_client), 'deleted': False, 'q': s.rtpp_seq}
        return sess[k]
    def callback(c):
        def cb(result, *params, ex = None):
            V(params == c['params'], 'params', 'completion of %r got the parameters %s', c['text'], params)
            c['done'].append((w.now, result))
            if c['how'] == 'nest' and len(c['done']) == 1: issue(c['k'], c['type'], 'str', '', c['via'])
            if c['how'] == 'boom': raise RuntimeError('scripted')
        return cb
    def issue(k, typ, form, how, via):
        n = len(issued)
        text = {'U': 'U n%d 10.0.0.1 4000 ft', 'D': 'D n%d ft tt', 'P': 'P3 n%d file 0 ft tt', 'S': 'S n%d ft tt', 'G': 'Gv n%d', 'I': 'I n%d', 'Q': 'Q n%d ft tt', 'X': 'X n%d', 'V': 'VF n%d'}[typ] % n
        if typ == 'V': text = 'N n%d' % n
        c = {'n': n, 'text': text, 'type': typ, 'how': how, 'k': k, 'via': via, 'form': form, 'done': [], 't': w.now, 'params': ('p', n) if n % 2 else ()}
        if via == 'seq':
            s = sess[k]
            if s['deleted']: return
            c['relay'], c['sess'] = s['relay'], s
        else: c['relay'], c['sess'] = k % nr, None
        issued.append(c)
        cmd = text
        if form != 'str' and typ in 'UDPSGIQ':
            cmd = Rtp_proxy_cmd(text)
            cmd.nretr = {'obj': None, 'nr0': 1, 'nr1': 1, 'nr3': 3}[form]
            c['nretr'] = cmd.nretr
            V(str(cmd) == text, 'codec', '%r became %r', text, str(cmd))
        cb = callback(c) if how != 'nocb' else None
        tgt = s['q'] if via == 'seq' else clients[k % nr]
        tgt.send_command(cmd, cb, *(c['params'] if cb else ()))
    extra = []                  # stats and version calls: (t, what, results)
    def do(o):
        t, kind = o[0], o[1]
        if kind in ('cmd', 'burst'):
            if session(o[2]) is None: return
            if kind == 'burst':
                for j in range(o[3]): issue(o[2], 'UDPS'[j % 4], 'str', '', 'seq')
            else: issue(o[2], o[3], o[4], o[5], 'seq')
        elif kind == 'direct': issue(o[2], o[3], o[4], o[5], 'direct')
        elif kind in ('stats', 'version'):
            s = session(o[2])
            if s is None or s['deleted']: return
            res = []
            extra.append((w.now, kind, res))
            if kind == 'stats': s['s'].stats(lambda r: res.append(r))
            else: s['s'].version(lambda r: res.append(r))
        elif kind == 'del':
            s = session(o[2])
            if s is None or s['deleted']: return
            s['deleted'] = True
            s['s'].delete()
    for o in sorted(case['ops'], key = lambda o: o[0]):
        w.at(o[0] if not case['burst'] else 1.0137, do, o)
    # service state, seen twice a second
    seen = []
    end = 160.0 + max([a + d for x in case['relays'] for a, d in x['down']] or [0.0]) + 70 * (len([h for h in case['hbnet'] if h != 'ok']) + max(len([v for v in x['ver'] + x['ib'] if v in ('0', 'E1', 'none')]) for x in case['relays']))
    def look():
        seen.append((w.now, [c.online for c in clients], [c.active_sessions for c in clients]))
        if w.now < end: w.after(0.5, look)
    w.at(0.3071, look)
    w.run_until(end)
    left = max([a + d for x in case['relays'] for a, d in x['down']] or [0.0])
    # every command completed once
    for c in issued:
        e = [x for x in order if x['text'] == c['text']]
        what = '%r (issued at %.3f)' % (c['text'], c['t'])
        if c['how'] != 'nocb': V(len(c['done']) == 1, 'completion', '%s was completed %d times: %s', what, len(c['done']), c['done'])
        V(len(e) == 1, 'sent', '%s was sent as %d commands', what, len(e))
        e = c['e'] = e[0]
        V(e['relay'] == c['relay'], 'sent', '%s went to the wrong relay', what)
        c['tdone'] = finish(c, e, what)
    # one after another within a session
    for k, s in sess.items():
        prev = None
        for c in [c for c in issued if c['sess'] is s]:
            t = c['e']['times'][0]
            if prev is not None and prev['tdone'] is None:
                # given up silently after one attempt
                prev = c
                continue
            ready = c['t'] if prev is None else max(c['t'], prev['tdone'])
            V(prev is None or t >= prev['tdone'] - 1e-6, 'order', '%r was sent at %.4f, before %r was completed (%.4f)', c['text'], t, prev and prev['text'], prev and prev['tdone'])
            V(t <= ready + 0.01, 'order', '%r could be sent at %.4f and was sent at %.4f', c['text'], ready, t)
            if prev and ready > c['t']: rec.cls('queued')
            prev = c
    for t, kind, res in extra:
        V(len(res) == 1, 'completion', '%s asked at %.3f was answered %d times', kind, t, len(res))
    # in and out of service
    for i in range(nr):
        # everything the client was told, in order
        hist = []
        for e in [e for e in order if e['relay'] == i]:
            f = [x for x in e['got'] if x[2] == e['dst'] and x[1].strip()]
            tf = fail_time(e)
            nretr = [c.get('nretr') for c in issued if c.get('e') is e]
            if nretr and nretr[0] is not None: tf = nominal(e, nretr[0])
            if f and (tf is None or f[0][0] < tf + 1e-4): hist.append((f[0][0], e['text'], f[0][1]))
            elif tf is not None: hist.append((tf, 'fail', None))
        hist.sort(key = lambda x: x[0])
        for t, on, act in seen:
            past = [h for h in hist if h[0] <= t + 1e-6]
            if on[i]:
                good = [h for h in past if (h[1] == 'V' and h[2] == '20040107') or h[1].startswith('VF ')]
                fails = [h for h in past if h[1] == 'fail']
                V(good, 'service', 'relay %d was in service at %.3f without having answered', i, t)
                V(not fails or fails[-1][0] <= good[-1][0] + 1e-6, 'service', 'relay %d was in service at %.3f although it did not answer a command (given up at %.3f) and was not found to be back since', i, t, fails and fails[-1][0])
                caps = {h[1][3:]: h[2] for h in past if h[1].startswith('VF ')}
                V(len(caps) == 6, 'caps', 'relay %d in service at %.3f with %d of its features known', i, t, len(caps))
            # silent for long: out of service
            for a, d in case['relays'][i]['down']:
                if a + 24 < t < a + d - 0.5: V(not on[i], 'service', 'relay %d, silent since %.1f, was still in service at %.3f', i, a, t); rec.cls('silent')
        V(seen[-1][1][i], 'service', 'relay %d was not put into service again (it answers since %.1f)', i, left)
        for n, v in enumerate(CAPS):
            V(bool(getattr(clients[i], CAPATTR[v])) == (case['relays'][i]['caps'][n] == '1'), 'caps', 'relay %d: feature %s is %s, the relay said %s', i, v, getattr(clients[i], CAPATTR[v]), case['relays'][i]['caps'][n])
        ib = [h for h in hist if h[1] == 'Ib']
        V(seen[-1][0] - ib[-1][0] < 6, 'service', 'relay %d is no longer watched (last answer at %.1f)', i, ib[-1][0])
        n = len([1 for e in order if e['relay'] == i and e['text'] == 'Ib' and e['times'][0] > end - 20])
        V(n <= 24, 'service', 'relay %d is asked for its state %d times in 20 s', i, n)
        if any(not o[i] for t, o, _ in seen if t > 3): rec.cls('out of service')
    boot.exceptions[:] = [x for x in boot.exceptions if isinstance(x, Violation)] if False else boot.exceptions
    for x in issued: rec.cls(x['type'])
    rec.nt(len(issued) > 1 and any(a != 'ok' for a in case['net'][:len(issued)]))
    for s in sess.values(): s['s'] = None
    G.clear()
    for c in clients: c.shutdown()
    w.stop() if hasattr(w, 'stop') else None

def nominal(e, nretr):
    ts = e['times']
    return ts[-1] + 2 * (ts[-1] - ts[-2]) if len(ts) > 1 else None

def budget(text): return 10.0 if text[0] == 'I' else 1.0 if text[0] == 'G' else 3.0

def fail_time(e):
    """When the client gives up on a command that gets no answer, from the pattern of its transmissions (None: cannot tell)."""
    ts = e['times']
    if len(ts) > 1:
        return ts[-1] - 0.0 + 2 * (ts[-1] - ts[-2])
    return None

def finish(c, e, what):
    ts = e['times']
    gaps = [b - a for a, b in zip(ts, ts[1:])]
    for a, b in zip(gaps, gaps[1:]): V(abs(b - 2 * a) < 0.02 * a + 0.005, 'repeat', '%s was sent at %s: the intervals do not double', what, ts)
    good = [x for x in e['got'] if x[2] == e['dst'] and x[1].strip()]
    if c['how'] == 'nocb':
        # seen only through what follows it
        if good and (good[0][0] < ts[-1] + 2 * gaps[-1] if gaps else not c.get('nretr') and good[0][0] < ts[0] + 0.3): return good[0][0]
        return ts[-1] + 2 * gaps[-1] if gaps else None
    t, r = c['done'][0]
    V(all(x < t + 0.001 for x in ts), 'repeat', '%s was sent again after it was completed at %.3f: %s', what, t, ts)
    if r is not None:
        V(good and r == good[0][1].strip(), 'answer', '%s was completed with %r, the relay answered %r', what, r, good[0][1] if good else None)
        V(abs(t - good[0][0]) < 0.005, 'answer', '%s: answer arrived at %.4f and was handed over at %.4f', what, good[0][0], t)
        return t
    V(not good or good[0][0] >= t - 1e-6, 'answer', '%s failed at %.4f although the answer had arrived at %.4f', what, t, good[0][0] if good else 0)
    b = budget(c['text'])
    nretr = c.get('nretr')
    wait = t - ts[0]
    if gaps: V(abs((t - ts[-1]) - 2 * gaps[-1]) < 0.05 * gaps[-1] + 0.01, 'silence', '%s was given up %.3f s after the last attempt (intervals %s)', what, t - ts[-1], gaps)
    if nretr: V(len(ts) == nretr, 'silence', '%s, to be tried %d times, was given up after %d attempts', what, nretr, len(ts))
    else:
        first = gaps[0] if gaps else wait
        n, x, left = 0, first, b
        while left - x >= -1e-6: left -= x; x *= 2; n += 1
        V(len(ts) in (max(n, 1), max(n - 1, 1)), 'silence', '%s was given up after %d attempts, starting %.3f s apart (%d fit in %.0f s)', what, len(ts), first, n, b)
        V(wait <= max(b, first) + 0.05, 'silence', '%s was given up only after %.3f s', what, wait)
    return t

# ---- the stream transport, over a real socket with real threads

sact = st.sampled_from(['ok', 'ok', 'ok', 'ok', 'split', 'split', 'close', 'drop', 'drop2', 'reset', 'slow', 'long', 'refuse', 'empty', 'err'])
sop = st.one_of(st.tuples(st.just('cmd'), st.integers(0, 3), st.sampled_from(['', '', 'nest', 'boom', 'nocb'])), st.tuples(st.just('cmd'), st.integers(0, 3), st.just('')), st.tuples(st.just('direct'), st.sampled_from(['', '', 'boom'])), st.tuples(st.just('run')), st.tuples(st.just('wait')), st.tuples(st.just('del'), st.integers(0, 3)), st.tuples(st.just('stats'), st.integers(0, 3)))
def sstrategy():
    return st.fixed_dictionaries({'nw': st.integers(1, 3), 'tcp': st.booleans(), 'ops': st.lists(sop, min_size = 5, max_size = 20), 'acts': st.lists(sact, min_size = 3, max_size = 24)}).map(tolist)

class Server(threading.Thread):
    """The relay's end: takes connections and answers by the script."""
    died = False
    def __init__(self, tcp, path, acts):
        threading.Thread.__init__(self, daemon = True)
        self.tcp, self.path, self.acts = tcp, path, acts
        self.lock = threading.Lock()
        self.log = []               # (text, reply or None) in the order of arrival
        self.conns = []
        self.stop = False
        self.n = 0
        self.refuse = 0
        self.ls = socket.socket(socket.AF_INET if tcp else socket.AF_UNIX, socket.SOCK_STREAM)
        self.ls.bind(('127.0.0.1', 0) if tcp else path)
        self.ls.listen(50)
        self.addr = self.ls.getsockname() if tcp else path
        self.start()
    def run(self):
        while not self.stop:
            try: c, _ = self.ls.accept()
            except OSError: return
            if self.stop: c.close(); return
            self.conns.append(c)
            threading.Thread(target = self.serve, args = (c,), daemon = True).start()
    def serve(self, c):
        try:
            buf = b''
            while True:
                while b'\n' not in buf:
                    d = c.recv(4096)
                    if not d: c.close(); return
                    buf += d
                line, buf = buf.split(b'\n', 1)
                with self.lock:
                    a = self.acts.pop(0) if self.acts else 'ok'
                    if a == 'drop2': self.acts[:0] = ['drop']
                    self.n += 1
                    text = line.decode()
                    rep = ('R%d re %s' % (self.n, text.split(' ')[1] if ' ' in text else '')) + (' ' + 'x' * 700 if a == 'long' else '')
                    if text.startswith('Q '): rep = '%d %d 2 3 4' % (self.n, self.n + 1)
                    if a == 'empty': rep = ''
                    if a == 'err': rep = 'E8'
                    self.log.append((text, None if a in ('drop', 'drop2', 'reset', 'refuse') else rep))
                if a == 'refuse': self.died = True; self.close(); return
                if a in ('drop', 'drop2'): c.close(); return
                if a == 'reset':
                    import struct
                    c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0)); c.close(); return
                if a == 'slow': time.sleep(0.01)
                data = (rep + '\n').encode()
                if a == 'split' and len(data) > 2:
                    k = 1 + self.n % (len(data) - 1)
                    c.sendall(data[:k]); time.sleep(0.004); c.sendall(data[k:])
                else: c.sendall(data)
                if a in ('close',): c.close(); return
        except OSError:
            try: c.close()
            except OSError: pass
    def close(self):
        self.stop = True
        try: self.ls.shutdown(socket.SHUT_RDWR)
        except OSError: pass
        self.ls.close()
        for c in self.conns:
            try: c.shutdown(socket.SHUT_RDWR)
            except OSError: pass
            c.close()

def srun(case, rec):
    import qelp, boot
    elp = qelp.install()
    from sippy.Rtp_proxy.client import Rtp_proxy_client
    from sippy.Rtp_proxy.session import Rtp_proxy_session
    tmp = tempfile.mkdtemp(prefix = 'c24')
    n0 = len(boot.exceptions)
    acts = list(case['acts'])
    sv = Server(case['tcp'], os.path.join(tmp, 's'), acts)
    cl = None
    G = {'_sip_address': '192.0.2.1'}
    try:
        with qelp.watchdog(40):
            if case['tcp']: cl = Rtp_proxy_client(G, spath = 'tcp:127.0.0.1:%d' % sv.addr[1], no_version_check = True, nworkers = case['nw'])
            else: cl = Rtp_proxy_client(G, spath = 'unix:' + sv.addr, no_version_check = True, nworkers = case['nw'])
            G['_rtp_proxy_clients'] = [cl]
            sess, issued, extra = {}, [], []
            log = []                # (what, n): issued / completed, in harness order, with the length of the server log
            def issue(k, how, nest = False):
                if k is not None:
                    if k not in sess: sess[k] = {'s': Rtp_proxy_session(G, 'cid%d' % k, 'ft', 'tt'), 'cmds': [], 'deleted': False}
                    if sess[k]['deleted']: return
                n = len(issued)
                c = {'n': n, 'text': 'U n%d x' % n, 'done': [], 'k': k, 'how': how}
                issued.append(c)
                def cb(result, *p, ex = None):
                    c['done'].append((result, ex))
                    with sv.lock: c['at'] = len(sv.log)
                    if how == 'nest' and not nest: issue(k, '', True)
                    if how == 'boom': raise RuntimeError('scripted')
                if k is not None:
                    sess[k]['cmds'].append(c)
                    sess[k]['s'].rtpp_seq.send_command(c['text'], cb if how != 'nocb' else None)
                else: cl.send_command(c['text'], cb)
            def settle(secs):
                t = time.monotonic() + secs
                while time.monotonic() < t:
                    elp.run()
                    if all(c['done'] or c['how'] == 'nocb' for c in issued) and all(r for r in extra): return
                    time.sleep(0.0005)
            for o in case['ops']:
                if o[0] == 'cmd': issue(o[1], o[2])
                elif o[0] == 'direct': issue(None, o[1])
                elif o[0] == 'run': elp.run()
                elif o[0] == 'wait': settle(0.05)
                elif o[0] == 'stats' and o[1] in sess and not sess[o[1]]['deleted']:
                    r = []
                    extra.append(r)
                    sess[o[1]]['s'].stats(r.append)
                elif o[0] == 'del' and o[1] in sess and not sess[o[1]]['deleted']:
                    sess[o[1]]['deleted'] = True
                    sess[o[1]]['s'].delete()
            settle(15)
            # (whatever is still under way without a callback)
            for _ in range(400):
                with sv.lock: seen = set(t for t, _ in sv.log)
                if sv.died or all(c['text'] in seen for c in issued): break
                elp.run(); time.sleep(0.002)
            time.sleep(0.01); elp.run()
            with sv.lock: slog = list(sv.log)
            for c in issued:
                if c['how'] != 'nocb': V(len(c['done']) == 1, 'completion', 'stream: %r was completed %d times', c['text'], len(c['done']))
                reps = [r for t, r in slog if t == c['text'] and r is not None]
                V(sv.died or any(t == c['text'] for t, r in slog), 'sent', 'stream: %r was never sent', c['text'])
                if c['how'] == 'nocb': continue
                r, ex = c['done'][0]
                if sv.died: rec.cls('died')
                if r: V(r in [x.strip() for x in reps], 'answer', 'stream: %r was completed with %r, the relay answered %s', c['text'], r[:60], [x[:60] for x in reps])
                elif any(reps) and not sv.died: V(False, 'answer', 'stream: %r failed (%r) although the relay answered %s', c['text'], ex, [x[:60] for x in reps])
            for r in extra: V(len(r) == 1, 'completion', 'stream: statistics were answered %d times', len(r))
            for k, s in sess.items():
                first = []
                for t, _ in slog:
                    if t not in first: first.append(t)
                mine = [c['text'] for c in s['cmds']]
                if sv.died: mine = [t for t in mine if t in first]
                V([t for t in first if t in mine] == mine, 'order', 'stream: session %d sent %s instead of %s', k, [t for t in first if t in mine], mine)
                for a, b in zip(s['cmds'], s['cmds'][1:]):
                    if a['how'] == 'nocb' or sv.died and (b['text'] not in first or a['text'] not in first): continue
                    last = max(i for i, (t, _) in enumerate(slog) if t == a['text'])
                    V(last < min(i for i, (t, _) in enumerate(slog) if t == b['text']), 'order', 'stream: %r was sent again after %r', a['text'], b['text'])
            for s in sess.values(): s['s'] = None
    finally:
        sv.close()
        if cl is not None:
            with qelp.watchdog(20): cl.shutdown()
        elp.run()
        shutil.rmtree(tmp)
    rec.nt(len(issued) > 2 and any(a not in ('ok',) for a in acts[:len(issued)]))
    rec.cls('%d workers' % case['nw'], *['act ' + a for a in acts[:len(issued)]])

CHECK = Check('C24', 'exploration', [
  Part('udp', strategy, run, quick = 240, thorough = 6000, shards = 8, boot = 'virtual', rule = 'two or more commands were issued and some of them met losses, repeated, late, reordered or foreign replies'),
  Part('stream', sstrategy, srun, quick = 300, thorough = 4000, shards = 8, boot = 'real', rule = 'three or more commands over a connection that was closed, reset or delivered answers in pieces'),
])
