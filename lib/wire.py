"""Independent minimal SIP message reader/writer used by oracles and scripted endpoints.
Deliberately does not use the code under test."""
import re
COMPACT = {'v': 'via', 'f': 'from', 't': 'to', 'm': 'contact', 'i': 'call-id', 'e': 'content-encoding', 'l': 'content-length',
  'c': 'content-type', 's': 'subject', 'k': 'supported', 'x': 'session-expires', 'r': 'refer-to', 'b': 'referred-by', 'o': 'event', 'u': 'allow-events'}

def split_q(s, sep):
    """Split on sep outside of double quotes and angle brackets."""
    out, cur, q, esc, ang = [], '', False, False, 0
    for c in s:
        if q:
            cur += c
            if esc: esc = False
            elif c == '\\': esc = True
            elif c == '"': q = False
            continue
        if c == '"': q = True
        elif c == '<': ang += 1
        elif c == '>': ang = max(0, ang - 1)
        elif c == sep and ang == 0:
            out.append(cur); cur = ''
            continue
        cur += c
    out.append(cur)
    return out

class Addr(object):
    """name-addr / addr-spec with header parameters."""
    def __init__(self, s):
        s = s.strip()
        self.raw = s
        self.name = None
        if '<' in s:
            i = s.index('<') if not s.startswith('"') else s.index('<', _qend(s))
            nm = s[:i].strip()
            if nm.startswith('"'):
                nm = re.sub(r'\\(.)', r'\1', nm[1:-1])
            self.name = nm or None
            j = s.index('>', i)
            self.uri = s[i + 1:j]
            rest = s[j + 1:]
        else:
            p = s.split(';', 1)
            self.uri = p[0]
            rest = (';' + p[1]) if len(p) > 1 else ''
        self.params = {}
        for x in split_q(rest, ';'):
            x = x.strip()
            if not x: continue
            k, _, v = x.partition('=')
            self.params[k.strip().lower()] = v.strip() if '=' in x else None
    @property
    def tag(self):
        return self.params.get('tag')

def _qend(s):
    i = 1
    while i < len(s):
        if s[i] == '\\': i += 2; continue
        if s[i] == '"': return i
        i += 1
    return 0

class Via(object):
    def __init__(self, s):
        m = re.match(r'\s*SIP\s*/\s*2\.0\s*/\s*(\S+)\s+([^;]+)(.*)$', s, re.S)
        self.proto = m.group(1)
        hp = m.group(2).strip()
        m2 = re.match(r'^(\[[^\]]+\]|[^:]+)(?::(\d+))?$', hp)
        self.host, self.port = m2.group(1), int(m2.group(2)) if m2.group(2) else None
        self.params = {}
        for x in m.group(3).split(';'):
            x = x.strip()
            if not x: continue
            k, _, v = x.partition('=')
            self.params[k.lower()] = v if '=' in x else None
    @property
    def branch(self):
        return self.params.get('branch')

MULTI = ('via', 'route', 'record-route', 'contact', 'path', 'allow', 'supported', 'require')

class Msg(object):
    def __init__(self, text):
        head, sep, self.body = text.partition('\r\n\r\n')
        lines = head.split('\r\n')
        self.start = lines[0]
        self.hdrs = []
        for l in lines[1:]:
            if l[:1] in (' ', '\t'):
                n, v = self.hdrs[-1]
                self.hdrs[-1] = (n, v + ' ' + l.strip())
                continue
            n, _, v = l.partition(':')
            n = n.strip().lower()
            self.hdrs.append((COMPACT.get(n, n), v.strip()))
        p = self.start.split(None, 2)
        if self.start.startswith('SIP/2.0'):
            self.is_req = False
            self.code = int(p[1])
            self.reason = p[2] if len(p) > 2 else ''
            self.method = self.cseq[1]
        else:
            self.is_req = True
            self.method, self.ruri = p[0], p[1]
            self.code = None
    def all(self, name):
        out = []
        for n, v in self.hdrs:
            if n == name:
                if name in MULTI:
                    out += [x.strip() for x in split_q(v, ',')]
                else:
                    out.append(v)
        return out
    def get(self, name, default = None):
        a = self.all(name)
        return a[0] if a else default
    @property
    def cseq(self):
        n, m = self.get('cseq').split()
        return int(n), m
    @property
    def vias(self):
        return [Via(x) for x in self.all('via')]
    @property
    def via(self):
        return Via(self.get('via'))
    @property
    def callid(self):
        return self.get('call-id')
    @property
    def frm(self):
        return Addr(self.get('from'))
    @property
    def to(self):
        return Addr(self.get('to'))
    @property
    def contact(self):
        c = self.get('contact')
        return Addr(c) if c is not None else None

def build(start, hdrs, body = ''):
    if isinstance(hdrs, dict):
        hdrs = list(hdrs.items())
    out = start + '\r\n' + ''.join('%s: %s\r\n' % (n, v) for n, v in hdrs)
    if not any(n.lower() in ('content-length', 'l') for n, v in hdrs):
        out += 'Content-Length: %d\r\n' % len(body.encode('utf-8'))
    return out + '\r\n' + body

def request(method, ruri, via, frm, to, callid, cseq, extra = (), body = '', maxf = 70, contact = None):
    vias = [via] if isinstance(via, str) else list(via)
    h = [('Via', v) for v in vias]
    if maxf is not None:
        h.append(('Max-Forwards', str(maxf)))
    h += [('From', frm), ('To', to), ('Call-ID', callid), ('CSeq', '%d %s' % (cseq, method))]
    if contact is not None:
        h.append(('Contact', contact))
    h += list(extra)
    if body and not any(n.lower() == 'content-type' for n, v in h):
        h.append(('Content-Type', 'application/sdp'))
    return build('%s %s SIP/2.0' % (method, ruri), h, body)

def response(req, code, reason, to_tag = None, extra = (), body = '', contact = None):
    """Response to a Msg request, as a real UAS would build it."""
    h = [('Via', v) for v in req.all('via')]
    h += [('Record-Route', v) for v in req.all('record-route')]
    to = req.get('to')
    if to_tag is not None and Addr(to).tag is None:
        to += ';tag=' + to_tag
    h += [('From', req.get('from')), ('To', to), ('Call-ID', req.callid), ('CSeq', req.get('cseq'))]
    if contact is not None:
        h.append(('Contact', contact))
    h += list(extra)
    if body and not any(n.lower() == 'content-type' for n, v in h):
        h.append(('Content-Type', 'application/sdp'))
    return build('SIP/2.0 %d %s' % (code, reason), h, body)
