"""A scripted media relay (rtpproxy control protocol over UDP) on the simulated network; independent of the code under test."""
import sim
import sippy.Rtp_proxy.Client.udp as _udp
import sippy.Rtp_proxy.Client.net as _net

ADDR = ('203.0.113.50', 22222)

def patch():
    import b2b
    _udp.Udp_server = sim.SimUdp
    _net.getaddrinfo = b2b.fake_gai

class Cmd(object):
    """One command as the relay reads it."""
    def __init__(self, t, text):
        self.t, self.text = t, text
        main, *self.subs = [x.strip() for x in text.split(' && ')]
        p = main.split(' ')
        self.type = p[0][:1].upper()
        self.opts = p[0][1:]
        self.args = p[1:]
        self.cid = self.frm = self.to = self.ip = self.port = self.nsock = self.ntag = None
        if self.type in 'UL' and len(p) >= 5:
            self.cid, self.ip, self.port, self.frm = p[1], p[2], int(p[3]), p[4]
            r = p[5:]
            if len(r) in (1, 3): self.to = r.pop(0)
            if len(r) == 2: self.nsock, self.ntag = r
        elif self.type in 'DSRQ' and len(p) >= 4:
            self.cid, self.frm, self.to = p[1], p[2], p[3]
        elif self.type == 'P' and len(p) >= 6:
            self.cid, self.frm, self.to = p[1], p[4], p[5]

class Relay(object):
    def __init__(self, w, addr = ADDR, delay = 0.0021, caps = '1'):
        self.w, self.addr, self.delay, self.caps = w, addr, delay, caps
        self.cmds = []              # Cmd in order of first arrival, heartbeats and version checks left out
        self.seen = {}              # cookie -> reply
        self.fault = None           # fn(cmd) -> None (normal) / reply text / False (no answer)
        self.lose_in = self.lose_out = None
        self.down = False
        self.port = 30000
        self.sessions = {}          # call id -> set of (tag) with ports
        self.ip = addr[0]
        self.hb = []
        w.peer(addr, self.rx)
    def rx(self, dg):
        if self.down or (self.lose_in is not None and self.lose_in(dg)): return
        cookie, _, cmd = dg.text.partition(' ')
        cmd = cmd.strip()
        if cookie in self.seen:
            rep = self.seen[cookie]
        else:
            rep = self.seen[cookie] = self.handle(cmd)
        if rep is None: return
        if self.lose_out is not None and self.lose_out(dg): return
        self.w.inject('%s %s\n' % (cookie, rep), self.addr, dg.src, self.delay)
    def handle(self, cmd):
        if cmd == 'V': return '20040107'
        if cmd.startswith('VF '): return self.caps
        if cmd == 'Ib':
            self.hb.append(self.w.now)
            return 'sessions created: %d\nactive sessions: %d\nactive streams: 0\npackets received: 1\npackets transmitted: 2' % (len(self.cmds), len(self.sessions))
        c = Cmd(self.w.now, cmd)
        self.cmds.append(c)
        c.reply = None
        if self.fault is not None:
            f = self.fault(c)
            if f is False: return None
            if f is not None:
                c.reply = f
                return f
        c.reply = self.normal(c)
        return c.reply
    def normal(self, c):
        if c.type in ('U', 'L'):
            self.port += 2
            self.sessions.setdefault(c.cid, []).append((c.frm, c.to, self.port))
            v6 = '6' in c.opts.split('R')[0].split('L')[0]
            rep = '%d %s%s' % (self.port, '2001:db8::50' if v6 else self.ip, ' 6' if v6 else '')
            for s in c.subs:
                rep += ' && ' + ('actpass sha-256_AB' if s.startswith('M4:1 S') else 'uf pw H:1 C:1' if s.startswith('M5:1 S') else '0')
            return rep
        if c.type == 'D':
            return '0' if self.sessions.pop(c.cid, None) is not None else 'E8'
        if c.type == 'V': return '0'
        return '0'
