"""C27: management connections over real sockets and real threads."""
import os, socket, struct, tempfile, threading, time, shutil, gc
from hypothesis import strategies as st
from core import Check, Part, Violation

WAIT = 20.0          # real seconds after which something that never came is called missing (less while shrinking such a failure)

missed = []

def V(cond, msg, key = None):
    if not cond:
        raise Violation(msg, key)

word = st.text(alphabet = 'abcXYZ019 \t;,=%"\'\\', min_size = 0, max_size = 12)
action = st.one_of(st.just('say'), st.just('say'), st.just('say'), st.sampled_from(['say', 'mute', 'two', 'bytes', 'big', 'huge', 'quit', 'boom', 'kill', 'late']))
line = st.tuples(action, word, st.sampled_from(['\n', '\n', '\r\n', ' \n', '\n\n', '\n \t\r\n', '\t\n']), st.sampled_from(['', '', ' ', '\t']))
frag = st.lists(st.integers(1, 40), max_size = 8)
op = st.one_of(
  st.tuples(st.just('send'), st.integers(0, 3), st.lists(line, min_size = 1, max_size = 5), frag),
  st.tuples(st.just('send'), st.integers(0, 3), st.lists(line, min_size = 1, max_size = 5), frag),
  st.tuples(st.just('part'), st.integers(0, 3), line, st.integers(1, 20)),
  st.tuples(st.just('flood'), st.integers(0, 3), st.integers(900, 3000), st.integers(1, 12)),
  st.tuples(st.just('run'), st.integers(1, 6)),
  st.tuples(st.just('run'), st.just(-1)),
  st.tuples(st.just('read'), st.integers(0, 3)),
  st.tuples(st.just('nap'), st.sampled_from([1, 3, 8])),
  st.tuples(st.sampled_from(['half', 'close', 'rst', 'junk']), st.integers(0, 3)),
  )

def strategy():
    return st.fixed_dictionaries({'tcp': st.booleans(), 'accept': st.sampled_from([None, None, None, 'yes', 'no']), 'n': st.integers(1, 4), 'mute': st.booleans(), 'short': st.one_of(st.just([]), st.lists(st.sampled_from([0, 1, 5, 700, 50000]), min_size = 1, max_size = 4).filter(lambda l: max(l) > 1000 or 0 in l)),
      'ops': st.lists(op.map(lambda o: [list(x) if isinstance(x, tuple) else x for x in o]), min_size = 2, max_size = 16), 'last': st.sampled_from(['half', 'quit', 'quit', 'close'])})

class Short(object):
    """A socket whose send() takes only part of the data now and then, as the system call may."""
    def __init__(self, s, sizes): self._s, self._sizes, self._n = s, sizes, 0
    def __getattr__(self, n): return getattr(self._s, n)
    def send(self, data, *a):
        k = self._sizes[self._n % len(self._sizes)]
        self._n += 1
        return self._s.send(data[:k] if k else data, *a)

def wrap(a, short):
    return tuple(Short(x, short) if isinstance(x, socket.socket) else wrap(x, short) if isinstance(x, tuple) else x for x in a)

class Client(object):
    def __init__(self, i, tcp, addr):
        self.i = i
        self.s = socket.socket(socket.AF_INET if tcp else socket.AF_UNIX, socket.SOCK_STREAM)
        if tcp: self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
        self.s.connect(addr)
        self.tcp = tcp
        self.sent = ''            # text handed to the kernel
        self.got = b''
        self.eof = False
        self.lost = False         # the connection was reset
        self.state = 'open'       # open, half, closed, rst
        self.bad = False          # sent a byte that is no ASCII
        self.seq = 0
        self.pend = ''            # rest of a line sent in parts
    def put(self, data):
        if self.state != 'open' or self.bad: return False
        try:
            self.s.sendall(data)
        except OSError:
            self.lost = True
            return False
        self.sent += data.decode('latin-1')
        return True
    def pull(self):
        if self.state in ('closed', 'rst') or self.eof: return False
        moved = False
        while True:
            try: d = self.s.recv(65536, socket.MSG_DONTWAIT)
            except (BlockingIOError, InterruptedError): break
            except OSError:
                self.lost = self.eof = True
                return True
            if len(d) == 0:
                self.eof = True
                return True
            self.got += d; moved = True
        return moved
    def end(self):
        try: self.s.close()
        except OSError: pass

def lines_of(text):
    ls = [x.strip() for x in text.split('\n')]
    return [x for x in ls[:-1] if x], ls[-1]

def reply_of(cmd):
    """(bytes sent by the handler, what it does to the connection)"""
    f = cmd.split()
    a = f[1] if len(f) > 1 else ''
    r = ('re ' + cmd + '\n').encode()
    if a == 'mute': return b'', None
    if a == 'two': return r + b'more\n', None
    if a == 'big': return r + b'0123456789abcde\n' * 3000, None
    if a == 'huge': return r + b'0123456789abcde\n' * 30000, None
    if a in ('quit', 'boom', 'kill'): return r, a
    if a == 'late': return r + b'later\n', None
    return r, None

def fds():
    return len(os.listdir('/proc/self/fd'))

def run(case, rec):
    import boot
    import qelp
    elp = qelp.install()
    if case['short']: elp.filter = lambda a: wrap(a, case['short'])
    boot.exceptions[:] = []
    d = tempfile.mkdtemp(prefix = 'c27-')
    t0, f0 = threading.active_count(), fds()
    clients = []
    try:
        with qelp.watchdog(): _run(case, rec, elp, d, clients, t0, f0)
    finally:
        for c in clients: c.end()
        for _ in range(3): elp.run()
        shutil.rmtree(d, ignore_errors = True)

def _run(case, rec, elp, d, clients, t0, f0):
    from sippy.CLIManager import CLIConnectionManager
    owner = threading.get_ident()
    handled = {}                 # client -> commands
    sends = {}                   # client -> bytes queued before it was closed, bytes queued after
    ended = {}                   # client -> how the handler ended it
    wrong = []
    conns = {}
    def handler(clim, cmd):
        if threading.get_ident() != owner: wrong.append('a command ran in another thread')
        f = cmd.split()
        i = int(f[0].split('.')[0])
        if conns.setdefault(i, clim) is not clim: wrong.append('client %d: the command %r came over another connection' % (i, cmd))
        handled.setdefault(i, []).append(cmd)
        data, what = reply_of(cmd)
        if data:
            s = sends.setdefault(i, [b'', b''])
            s[1 if i in ended else 0] += data
            k = len(data) // 2 if len(f) > 1 and f[1] == 'late' else 0
            if k: clim.write(data[:k].decode())
            if len(f) > 1 and f[1] == 'bytes': clim.send(data)
            else: clim.send(data[k:].decode())
        if what is None: return
        ended.setdefault(i, what)
        if what == 'kill': ended[i] = 'kill'
        if what == 'quit': clim.close()
        elif what == 'kill': clim.shutdown()
        else: raise ValueError('handler failed')
    path = os.path.join(d, 's')
    mgr = None
    if case['tcp']:
        for k in range(50):
            try:
                with socket.socket() as s:
                    s.bind(('127.0.0.1', 0)); port = s.getsockname()[1]
                mgr = CLIConnectionManager(handler, ('127.0.0.1', port), tcp = True)
                break
            except OSError: pass
        addr = ('127.0.0.1', port)
        acc = case['accept']
        if acc is not None: mgr.accept_list = ['127.0.0.1', '10.1.1.1'] if acc == 'yes' else ['10.1.1.1']
    else:
        mgr = CLIConnectionManager(handler, path, sock_mode = 0o600)
        addr = path
    denied = case['tcp'] and case['accept'] == 'no'

    def until(cond, what, key):
        end = time.monotonic() + (WAIT if not missed else 3.0)
        nap = 0.0005
        while True:
            elp.run()
            for c in clients: c.pull()
            if cond(): return
            if time.monotonic() > end:
                missed.append(1)
                V(False, what() if callable(what) else what, key)
            time.sleep(nap)
            nap = min(nap * 1.5, 0.02)

    def connect():
        c = Client(len(clients), case['tcp'], addr)
        clients.append(c)
        return c
    def text(c, l):
        a, w, e, lead = l
        if c.i == 0 and case['mute'] and a not in ('quit', 'boom'): a = 'mute'
        c.seq += 1
        return '%s%d.%d %s %s%s' % (lead, c.i, c.seq, a, w, e)
    def finish_part(c):
        if c.pend:
            p, c.pend = c.pend, ''
            c.put(p.encode())
    try:
        for _ in range(case['n']): connect()
        for o in case['ops']:
            k = o[0]
            if k == 'run': elp.run(o[1]); continue
            if k == 'nap': time.sleep(o[1] / 1000.0); continue
            c = clients[o[1] % case['n']]
            if k == 'read': c.pull()
            elif k == 'send':
                finish_part(c)
                data = ''.join(text(c, l) for l in o[2]).encode()
                cuts = list(o[3])
                if len(o[3]) > 0: rec.cls('fragmented')
                for n in cuts:
                    if not c.put(data[:n]): break
                    data = data[n:]
                if data: c.put(data)
            elif k == 'flood':
                finish_part(c)
                data = ''.join(text(c, ['say', 'x' * (o[2] // o[3]), '\n', '']) for _ in range(o[3])).encode()
                c.put(data)
                rec.cls('flood')
            elif k == 'part':
                finish_part(c)
                t = text(c, o[2])
                n = min(o[3], len(t) - 1)
                c.put(t[:n].encode()); c.pend = t[n:]
                rec.cls('part')
            elif k == 'junk':
                if c.put(b'7.7 \xff\xfe say\n8.8 say\n'): c.bad = True; rec.cls('junk')
            elif k == 'half':
                if c.state == 'open':
                    c.state = 'half'
                    try: c.s.shutdown(socket.SHUT_WR)
                    except OSError: c.lost = True
                    rec.cls('half')
            elif k == 'close':
                if c.state in ('open', 'half'):
                    c.pull()
                    if c.state == 'open' or not c.eof: rec.cls('close')
                    c.state = 'closed' if not c.state == 'half' else 'closed'
                    c.s.close()
            elif k == 'rst':
                if c.state in ('open', 'half'):
                    if case['tcp']: c.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
                    c.s.close()
                    c.state = 'rst'
                    rec.cls('rst')
        # let everybody finish in the chosen way
        for c in clients:
            if c.state != 'open' or c.bad: continue
            finish_part(c)
            if case['last'] == 'half':
                c.state = 'half'
                try: c.s.shutdown(socket.SHUT_WR)
                except OSError: c.lost = True
            elif case['last'] == 'quit': c.put(text(c, ['quit', '', '\n', '']).encode())
        if not denied:
            probe = connect()
            probe.put(text(probe, ['say', 'probe', '\n', '']).encode())
            until(lambda: probe.got == b're %d.1 say probe\n' % probe.i, lambda: 'after all this a new client gets %r for its command' % probe.got, 'dead')
            probe.put(text(probe, ['quit', '', '\n', '']).encode())
        for c in clients:
            i = c.i
            if denied:
                if c.state in ('open', 'half'): until(lambda: c.eof, 'a client whose address is not accepted stays connected', 'denied')
                V(not handled.get(i), 'a client whose address is not accepted had %r handled' % handled.get(i), 'denied')
                continue
            want, tail = lines_of(c.sent.split('7.7')[0] if c.bad else c.sent)
            sure = not c.bad and c.state != 'rst' and not c.lost
            h = lambda: handled.get(i, [])
            stop = lambda: i in ended
            if sure:
                # all of it is to be handled, unless a handler closed the connection half-way
                # (a client that closes before its replies were sent resets the connection, and what it sent just before may be gone)
                reset = c.state == 'closed' and not (i == 0 and case['mute'])
                if c.state == 'closed' and not reset: rec.cls('closed-mute')
                until(lambda: stop() or len(h()) >= len(want) or reset, lambda: 'client %d sent %d lines, handled are %d: %r, missing %r' % (i, len(want), len(h()), h()[-3:], want[len(h()):][:3]), 'lost-line')
            # the connection is over: everything it had queued arrives, then it is closed
            if c.state == 'half' or c.bad or stop():
                if c.state in ('open', 'half'):
                    until(lambda: c.eof, lambda: 'client %d (%s): the connection was not closed' % (i, 'sent garbage' if c.bad else ended.get(i, 'half-closed')), 'not-closed')
        # anything still open is closed from this side
        for c in clients:
            if c.state in ('open', 'half') and not c.eof:
                if case['last'] == 'close' or c.bad:
                    # wait for the replies first
                    s = sends.get(c.i, [b'', b''])
                    if not c.bad: until(lambda: len(c.got) >= len(s[0]) or c.eof, lambda: 'client %d: %d of %d reply bytes arrived' % (c.i, len(c.got), len(s[0])), 'lost-reply')
                    c.s.close()
                    c.state = 'over'
        for c in clients:
            i = c.i
            if denied: continue
            h = handled.get(i, [])
            want, tail = lines_of(c.sent.split('7.7')[0] if c.bad else c.sent)
            V(h == want[:len(h)] or not c.bad and h == want + [tail], 'client %d: handled %r, sent %r' % (i, h, want), 'order')
            s = sends.get(i, [b'', b''])
            everything = s[0] + s[1]
            if c.state in ('closed', 'rst'): V(everything.startswith(c.got), 'client %d: replies differ: got %r, sent %r' % (i, c.got[-60:], everything[:60]), 'reply')
            else:
                V(everything.startswith(c.got), 'client %d: received %d bytes that are not what was sent (%d bytes): ...%r' % (i, len(c.got), len(everything), c.got[-60:]), 'reply')
                V(len(c.got) >= len(s[0]) or c.bad or c.lost or ended.get(i) == 'kill', 'client %d: %d of %d bytes queued before the close arrived' % (i, len(c.got), len(s[0])), 'lost-reply')
            if i in ended: rec.cls(ended[i])
        V(not wrong, '%s' % wrong[:2], 'mixed')
        nb = len([1 for e in ended.values() if e == 'boom'])
        # server side: connections are gone
        for c in clients:
            if c.state not in ('closed', 'rst'): c.end()
        until(lambda: threading.active_count() <= t0 + 1, lambda: '%d threads are left for %d ended connections (%s)' % (threading.active_count() - t0 - 1, len(clients), [(c.state, c.bad, ended.get(c.i)) for c in clients]), 'leak-thread')
        until(lambda: fds() <= f0 + 3, lambda: 'sockets are left open after all connections ended (%d): %s' % (fds() - f0 - 2, [(c.state, c.bad, ended.get(c.i)) for c in clients]), 'leak-fd')
        rec.nt(sum(len(h) for h in handled.values()) >= 3 or denied)
        rec.cls('tcp' if case['tcp'] else 'unix', 'last:' + case['last'])
        if denied: rec.cls('denied')
    finally:
        mgr.shutdown()
    s = socket.socket(socket.AF_INET if case['tcp'] else socket.AF_UNIX, socket.SOCK_STREAM)
    try:
        s.connect(addr)
        raise Violation('the server still takes connections after its shutdown', 'shutdown')
    except OSError: pass
    finally: s.close()
    end = time.monotonic() + (WAIT if not missed else 3.0)
    while fds() > f0 and time.monotonic() < end:
        elp.run()
        time.sleep(0.002)
    V(fds() <= f0, 'shutdown of the server leaves %d descriptors' % (fds() - f0), 'leak-fd')

CHECK = Check('C27', 'exploration', [
  Part('conns', strategy, run, quick = 400, thorough = 4000, shards = 8, boot = 'real', rule = 'at least three commands were handled (or the client was refused)'),
])
