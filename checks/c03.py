"""C03: no datagram crashes or wedges the SIP stack."""
import re, random
from hypothesis import strategies as st
from core import Check, Part, Violation
import wire

def V(key, msg, *a):
    raise Violation(msg % a if a else msg, key)

# --- hostile bytes ---------------------------------------------------------
ADDRV = ('<sip:', 'sip:', '<sip:@>', '<sip:a@b:99999>', '<sip:a@b:x>;tag=q', '<sip:a@[::1>', '*', 'tel:+1234', '<tel:+12>;tag=z', '<sip:a@b>;tag=', '"x <sip:a@b>;tag=1', 'x <sip:a@b', '"\\" <sip:a@192.0.2.9>;tag=9', '<>',
  '<sip:a:b:c@h;x=y?z=%zz>', '<sip:%zz@192.0.2.9>', 'sip:a@b;tag', '<mailto:x@y>;tag=u', '<sips:a@192.0.2.9>;tag=u', '<sip:a@192.0.2.9:>;tag=2', '<sip:a@192.0.2.9;transport=>;tag=2', '<sip:a@192.0.2.9;ttl=x>', '<sip:a@192.0.2.9;ttl=300;ttl>',
  '<sip:a@10.0.0.1:0>', '<sip:a@255.255.255.255>', '<sip:a@192.0.2.9;q=>;expires=x', '<sip:a@192.0.2.9>;q=zz;expires=', '<urn:service:sos>', '<sip:a@@b>;tag=3', '<http://x/y>')
NUMV = ('', '-1', '0', '1e5', '99999999999999999999', 'x', '1 1', '1;a=b', '4294967296', '2147483648', '0x10', '1,2', '٣', '1.5', '+1')
ANYV = ('', ' ', ',', ',,,', ';', ';;;=', '=', '"', '"\\', '<', '>', '<>', 'é', '\x00', '\x7f', '%', '%00', '()', '(', '\t', '::', '/', '\\', 'x' * 1500, ';a' * 300, ',a' * 200, '"' * 99, 'a b c d', '@', '[', ']', '\u2028', '\x85', '\x1c', '\x0b')
VIAV = ('SIP/2.0/UDP', 'SIP/2.0/UDP ', 'SIP/2.0', 'UDP 1.2.3.4', 'SIP/2.0/UDP [::1', 'SIP/2.0/UDP h:x', 'SIP/2.0/UDP 192.0.2.9:99999;branch=z9hG4bK-a', 'SIP/2.0/UDP 192.0.2.9:-1;branch=z9hG4bK-a', 'SIP/2.0/UDP 192.0.2.9:0;branch=z9hG4bK-a;rport',
  'SIP/2.0/UDP ;branch=', 'SIP/2.0/UDP h;rport=x', 'SIP/2.0/UDP h;branch', 'SIP/2.0/UDP h;received;rport=-5', 'SIP/2.0/UDP h;received=h\x00', 'SIP/2.0/UDP :5060', 'SIP/2.0/UDP a b c;branch=z9hG4bK-z', 'SIP/3.0/UDP 192.0.2.9;branch=z9hG4bK-z', 'SIP/2.0/FOO 192.0.2.9;branch=z9hG4bK-z',
  'SIP/2.0/UDP 1.1.1.1;branch=z9hG4bK-1,', ',SIP/2.0/UDP 1.1.1.1;branch=z9hG4bK-1', 'SIP/2.0/UDP h:1:2', 'SIP/2.0/UDP h:7:7', 'SIP/2.0/WSS 192.0.2.9;branch=z9hG4bK-w', 'SIP/2.0/UDP 192.0.2.1:5060;branch=z9hG4bK-self')
CSEQV = NUMV + ('1', '1 INVITE X', 'INVITE 1', '1 BYE', '1 \x00', '99999999999999999999 INVITE', '-5 INVITE', '1 ACK', '1 CANCEL')
MISCV = {'content-length': NUMV + ('100000', '1', '10', '500'), 'content-type': ('application/sdp', 'text/plain', 'application', '/', 'multipart/mixed', 'multipart/mixed;boundary=', 'multipart/mixed;boundary="', 'application/sdp;charset', 'APPLICATION/SDP', 'a/b;c=d;e'),
  'cseq': CSEQV, 'via': VIAV, 'v': VIAV, 'from': ADDRV, 'f': ADDRV, 'to': ADDRV, 't': ADDRV, 'contact': ADDRV, 'm': ADDRV, 'route': ADDRV, 'record-route': ADDRV, 'expires': NUMV, 'max-forwards': NUMV,
  'call-id': ('a', 'x y', 'é', '@', '<>'), 'i': ('a', 'x y'), 'l': NUMV, 'refer-to': ADDRV, 'referred-by': ADDRV, 'also': ADDRV, 'diversion': ADDRV, 'cc-diversion': ADDRV, 'p-asserted-identity': ADDRV, 'path': ADDRV,
  'replaces': ('x', 'x;to-tag', 'x;to-tag=1;from-tag', ';;', 'a;early-only'), 'reason': ('x', 'Q.850;cause=x', 'SIP;cause=', 'SIP;text="', ';'), 'rseq': NUMV, 'rack': ('1', '1 2', '1 2 x y', 'x y z', ''), 'warning': ('x', '399 a "b', '399', '', '399 a b'),
  'authorization': ('Digest', 'Digest x', 'Digest a=b', 'Digest username="', 'Basic x', '', 'Digest username="a", realm="b", nonce="c", uri="d"', 'Digest a=b,,c', 'Digest username=a,response=,nonce=zz,realm=x,uri=y', 'digest =,='),
  'proxy-authorization': ('Digest', 'Digest x', 'Basic x', ''), 'www-authenticate': ('Digest', 'Digest x', 'Digest realm="a', '', 'Basic realm=x', 'Digest realm="a",nonce="b",algorithm=FOO', 'Digest nonce="b"', 'Digest realm="a",nonce="b",qop="zz"'),
  'proxy-authenticate': ('Digest', 'Digest x', '', 'Digest nonce="b"'), 'allow': ('', ',', 'INVITE'), 'supported': ('', ',', '100rel'), 'require': ('', '100rel', ',', 'foo'), 'user-agent': ('',), 'server': ('',), 'cisco-guid': ('x', '1-2-3-4', '1-2-3', '', '99999999999-1-1-1'), 'h323-conf-id': ('', 'x y z w'),
  'session-expires': NUMV, 'min-se': NUMV, 'x-unknown': ANYV, 'subject': ANYV, 'event': ('', 'refer', ';')}
SLV = ('INVITE', 'INVITE  SIP/2.0', 'INVITE sip:555@192.0.2.1', ' INVITE sip:555@192.0.2.1 SIP/2.0', 'INVITE sip:555@192.0.2.1 SIP/3.0', 'INVITE sip: SIP/2.0', 'INVITE :: SIP/2.0', 'INVITE <sip:555@192.0.2.1> SIP/2.0', 'INVITE sip:555@192.0.2.1:99999 SIP/2.0', 'INVITE sip:555@192.0.2.1:x SIP/2.0',
  'INVITE tel:+1555 SIP/2.0', 'INVITE urn:service:sos SIP/2.0', 'invite sip:555@192.0.2.1 SIP/2.0', 'FOO sip:555@192.0.2.1 SIP/2.0', 'SIP/2.0 200 OK', 'SIP/2.0\t200 OK', 'sip/2.0 200 OK', 'SIP/2.0  200  OK', 'SIP/2.0 200', 'SIP/2.0', 'SIP/2.0 ', 'SIP/2.0 abc OK', 'SIP/2.0 99 X', 'SIP/2.0 1000 X', 'SIP/2.0 -200 X', 'SIP/2.0 700 X', 'SIP/2.0 100 T', 'SIP/2.0 180 R', 'SIP/2.0 486 B', 'SIP/2.0 302 M', 'SIP/3.0 200 OK',
  'BYE sip:555@192.0.2.1 SIP/2.0', 'ACK sip:555@192.0.2.1 SIP/2.0', 'CANCEL sip:555@192.0.2.1 SIP/2.0', 'REFER sip:555@192.0.2.1 SIP/2.0', 'REGISTER sip:192.0.2.1 SIP/2.0', 'OPTIONS * SIP/2.0', 'PRACK sip:555@192.0.2.1 SIP/2.0', 'NOTIFY sip:555@192.0.2.1 SIP/2.0', 'INFO sip:555@192.0.2.1 SIP/2.0', 'MESSAGE sip:x@192.0.2.1 SIP/2.0', 'HTTP/1.1 200 OK', 'GET / HTTP/1.1', '200 OK SIP/2.0', '\x00 \x00 \x00', '', 'INVITE sip:%zz@192.0.2.1 SIP/2.0', 'INVITE sip:a%00b@192.0.2.1 SIP/2.0', 'INVITE sip:@192.0.2.1 SIP/2.0', 'INVITE sip:192.0.2.1 SIP/2.0', 'INVITE sip:555@[::1 SIP/2.0', 'INVITE sip:555@192.0.2.1;user=phone;x SIP/2.0', 'INVITE sip:555@192.0.2.1?a=b&c SIP/2.0')
SDPV = ('v=0', 'm=audio', 'v=0\r\nm=audio x RTP/AVP 0\r\n', '', '\r\n', 'v=0\r\no=\r\ns=-\r\nt=0 0\r\nm=audio 1 RTP/AVP\r\n', 'v=0\r\no=a b c d e f\r\ns=-\r\nc=IN\r\nt=0 0\r\nm=audio 1 RTP/AVP 0\r\n', 'x' * 3000, 'c=\r\n', 'v=0\r\no=- 1 1 IN IP4 1.1.1.1\r\ns=-\r\nt=0 0\r\na=x\r\n', '\x00\x01', 'é=1', 'm=\r\nm=\r\n', 'v=0\r\no=- 1 1 IN IP4 1.1.1.1\r\ns=-\r\nt=0 0\r\nm=audio 99999 RTP/AVP x\r\na=rtpmap:\r\n', '--x\r\n', 'a')
HN = tuple(sorted(MISCV))
MAIN = ('via', 'from', 'to', 'call-id', 'cseq', 'contact', 'expires', 'max-forwards', 'content-length', 'content-type', 'route', 'record-route', 'reason', 'authorization', 'www-authenticate', 'refer-to')

names = st.one_of(st.sampled_from(MAIN), st.sampled_from(MAIN), st.sampled_from(HN))
setv = names.flatmap(lambda n: st.tuples(st.just('set'), st.just(n), st.one_of(st.sampled_from(MISCV[n]), st.sampled_from(MISCV[n]), st.sampled_from(ANYV)))).map(list)
pos = st.integers(0, 999)
MUT = st.one_of(setv, setv, setv,
  names.flatmap(lambda n: st.tuples(st.just('add'), st.just(n), st.one_of(st.sampled_from(MISCV[n]), st.sampled_from(ANYV)))).map(list),
  st.tuples(st.just('del'), names).map(list), st.tuples(st.just('dup'), names).map(list),
  st.tuples(st.just('trunc'), pos).map(list), st.tuples(st.just('trunc'), pos).map(list),
  st.tuples(st.just('flip'), pos, st.integers(1, 255)).map(list), st.tuples(st.just('cut'), pos, st.integers(1, 40)).map(list),
  st.tuples(st.just('ins'), pos, st.sampled_from(ANYV + ('\r\n', '\r\n\r\n', '\n', '\r', '\r\n ', ':'))).map(list),
  st.tuples(st.just('raw'), pos, st.sampled_from(('ff', 'c3', 'fffe', 'e28080', '00', 'eda080', '80'))).map(list),
  st.tuples(st.just('cl'), st.integers(-20, 20)).map(list), st.tuples(st.just('cl'), st.sampled_from((-1, 1, 2, 7, 100, 100000))).map(list),
  st.tuples(st.just('sl'), st.sampled_from(SLV)).map(list), st.tuples(st.just('body'), st.sampled_from(SDPV)).map(list),
  st.tuples(st.just('eol'), st.sampled_from(('\n', '\r', '\r\n\r\n', '\r\n ', '\n\r'))).map(list),
  st.tuples(st.just('swap'), pos, pos).map(list), st.tuples(st.just('val'), names, st.sampled_from(ANYV)).map(list),
  st.tuples(st.just('line'), pos, st.sampled_from(('nocolon', ':', ': x', ' folded', '\tx', 'A B: c', 'Via', 'From:', 'X' * 300 + ': y', 'é: é', '\x00: \x00', 'Contact', 'To'))).map(list))
MUTS = st.lists(MUT, min_size = 1, max_size = 3)

CANON = {'v': 'via', 'f': 'from', 't': 'to', 'm': 'contact', 'i': 'call-id', 'l': 'content-length', 'c': 'content-type'}

def mutate(data, muts):
    for m in muts:
        data = _mut(data, m)
    return data

def _mut(data, m):
    k = m[0]
    n = len(data)
    if k == 'trunc': return data[:n * m[1] // 1000]
    at = n * m[1] // 1000 if k in ('flip', 'cut', 'ins', 'raw') else 0
    if k == 'flip': return data[:at] + bytes([data[at] ^ m[2]]) + data[at + 1:] if n else data
    if k == 'cut': return data[:at] + data[at + m[2]:]
    if k == 'ins': return data[:at] + m[2].encode('utf-8') + data[at:]
    if k == 'raw': return data[:at] + bytes.fromhex(m[2]) + data[at:]
    if k == 'eol': return data.replace(b'\r\n', m[1].encode())
    head, sep, body = data.partition(b'\r\n\r\n')
    lines = head.split(b'\r\n')
    idx = [i for i, l in enumerate(lines[1:], 1) if CANON.get(hn(l), hn(l)) == m[1]]
    e = lambda s: s.encode('utf-8')
    if k == 'set':
        if idx: lines[idx[0]] = e(m[1].title() + ': ' + m[2])
        else: lines.append(e(m[1].title() + ': ' + m[2]))
    elif k == 'add': lines.insert(1, e(m[1] + ': ' + m[2]))
    elif k == 'del': lines = [l for i, l in enumerate(lines) if i not in idx]
    elif k == 'dup':
        for i in idx[:1]: lines.append(lines[i])
    elif k == 'val':
        for i in idx[:1]: lines[i] += e(m[2])
    elif k == 'cl':
        lines = [l for l in lines if hn(l) not in ('content-length', 'l')] + [b'Content-Length: %d' % (len(body) + m[1])]
    elif k == 'sl': lines[0] = e(m[1])
    elif k == 'body': body = e(m[1])
    elif k == 'swap':
        if len(lines) > 2:
            a, b = 1 + m[1] % (len(lines) - 1), 1 + m[2] % (len(lines) - 1)
            lines[a], lines[b] = lines[b], lines[a]
    elif k == 'line': lines.insert(1 + m[1] % len(lines), e(m[2]))
    return b'\r\n'.join(lines) + sep + body

def hn(l):
    return l.split(b':', 1)[0].strip().lower().decode('utf-8', 'replace')

# --- independent reading -----------------------------------------------------
TOK = r"[A-Za-z0-9.!%*_+`'~-]+"
RE_SL = re.compile(r'(%s) (\S+) SIP/2\.0' % TOK)
RE_VIA = re.compile(r'SIP/2\.0/UDP (\d+\.\d+\.\d+\.\d+)(?::(\d{1,5}))?((?:;[a-z]+(?:=%s)?)*)' % TOK)
RE_NA = re.compile(r'(?:"[A-Za-z0-9 ]*" )?<sip:[A-Za-z0-9.+-]+@[a-z0-9.]+(?::\d{1,5})?>(?:;tag=(%s))?' % TOK)
RE_CID = re.compile(r'%s(?:@%s)?' % (TOK, TOK))
RE_CS = re.compile(r'(\d{1,9}) (%s)' % TOK)

class Ident(object):
    """What a plain reading of a request says about who sent it, or None when that is not clear."""

def ident(data):
    try:
        if len(data) < 32: return None
        raw, sep, body = data.partition(b'\r\n\r\n')
        head = raw.decode('ascii')
        if not sep:
            if not head.endswith('\r\n'): return None
            head = head[:-2]
        lines = head.split('\r\n')
        sl = RE_SL.fullmatch(lines[0])
        if sl is None or sl.group(1).upper().startswith('SIP'): return None
        h = {}
        for l in lines[1:]:
            m = re.fullmatch(r'([A-Za-z0-9-]+): ?([\x20-\x7e]*)', l)
            if m is None: return None           # folded, garbled or strange header lines: no claim
            k = m.group(1).lower()
            h.setdefault(CANON.get(k, k), []).append(m.group(2).strip())
        for k in ('via', 'from', 'to', 'call-id', 'cseq'):
            if len(h.get(k, ())) != 1: return None
        i = Ident()
        v, f, t, cs = RE_VIA.fullmatch(h['via'][0]), RE_NA.fullmatch(h['from'][0]), RE_NA.fullmatch(h['to'][0]), RE_CS.fullmatch(h['cseq'][0])
        if None in (v, f, t, cs) or RE_CID.fullmatch(h['call-id'][0]) is None or f.group(1) is None: return None
        if any(len(h.get(k, ())) > 1 for k in ('content-length', 'content-type')): return None
        i.method, i.ruri = sl.group(1), sl.group(2)
        i.branch = re.search(';branch=(%s)' % TOK, v.group(3))
        if i.branch is None or v.group(3).count(';branch') != 1 or 'received' in v.group(3) or ('rport' in v.group(3) and not re.search(r';rport(;|$)', v.group(3))): return None
        i.branch = i.branch.group(1)
        i.port = int(v.group(2) or 5060)
        i.rport = ';rport' in v.group(3)
        if not 0 < i.port < 65536: return None
        i.cid, i.cseq, i.ftag, i.ttag = h['call-id'][0], int(cs.group(1)), f.group(1), t.group(1)
        if i.method != cs.group(2): return None
        i.clen = None
        if 'content-length' in h:
            i.clen = int(h['content-length'][0]) if re.fullmatch(r'\d{1,9}', h['content-length'][0]) else 'bad'
        i.blen = len(body)
        i.h = h
        i.utf8 = True
        try: body.decode('utf-8')
        except UnicodeDecodeError: i.utf8 = False
        return i
    except UnicodeDecodeError:
        return None

def truncated(i):
    """The body is certainly shorter than announced (few bytes short is tolerated by design)."""
    return isinstance(i.clen, int) and i.clen > 0 and i.clen > i.blen + 6

BADC = ('<sip:', '<>', 'x <sip:a@b', '*', '<http://x/y>', '<sip:a@b:x>;tag=q', '<mailto:x@y>;tag=u', '"x <sip:a@b>;tag=1', '<urn:service:sos>', '<sip:a@192.0.2.9;ttl=x>', 'sip:')

def malformed(i, invite):
    """Certainly malformed in something that is needed to process the request."""
    if truncated(i): return 'truncated'
    if not i.utf8: return 'encoding'
    if i.clen == 'bad':
        v = i.h['content-length'][0]
        if not any(c.isnumeric() for c in v) or re.fullmatch('-[1-9][0-9]*', v): return 'content-length'
    if re.fullmatch(r'sip:[^;?\[\]]*:[a-z]+', i.ruri) and '@' in i.ruri or i.ruri.split(':')[0].lower() in ('urn', 'http', 'mailto', '<sip'): return 'request-uri'
    if invite and i.method == 'INVITE' and len(i.h.get('contact', ())) == 1 and i.h['contact'][0] in BADC: return 'contact'

def answers(log, i, src, t):
    """Responses that tell the sender of the request read as i what became of it."""
    out = []
    for d in log:
        if d.t < t or d.dst[0] != src[0] or not d.data.startswith(b'SIP/2.0 '): continue
        try: m = d.m
        except Exception: continue
        try:
            if m.callid == i.cid and m.cseq == (i.cseq, i.method) and m.via.branch == i.branch: out.append((d, m))
        except Exception: continue
    return out

def judge(log, sent, what = '', invite = False, rec = None):
    """Every identified request is answered; a truncated one with 4xx."""
    for t, data, src in sent:
        i = ident(data)
        if i is None or i.method == 'ACK': continue
        a = answers(log, i, src, t)
        fin = [(d, m) for d, m in a if m.code >= 200]
        # its branch was used by something unreadable as well: whose transaction it is cannot be told
        if any(i.branch.encode() in d2 and ident(d2) is None for t2, d2, s2 in sent): continue
        if not fin: V('unanswered', '%sno final answer to a request whose sender is identified: %r (got %r)', what, data[:900], [m.code for d, m in a])
        ports = set()
        for t2, d2, s2 in sent:
            j = ident(d2)
            if j is not None and j.branch == i.branch: ports |= {j.port, s2[1]}      # rport, or an address not to be trusted: where it came from
        for d, m in a:
            if d.dst[1] not in ports: V('misdirected', 'answer to %r went to %r', data[:300], d.dst)
        bad = malformed(i, invite)
        if bad and not any(d2 != data and i.branch.encode() in d2 for t2, d2, s2 in sent):
            if rec is not None: rec.cls('bad:' + bad)
            if [m.code for d, m in fin if not 400 <= m.code < 500]: V('malformed-code', 'malformed (%s) request answered %r: %r', bad, [m.code for d, m in fin], data[:900])


# --- part tm: transaction layer ---------------------------------------------
SRC = ('203.0.113.9', 5064)
US = ('192.0.2.1', 5060)
SDP = 'v=0\r\no=- 1 1 IN IP4 203.0.113.9\r\ns=-\r\nc=IN IP4 203.0.113.9\r\nt=0 0\r\nm=audio 4000 RTP/AVP 0\r\n'
TMPL = ('INVITE', 'OPTIONS', 'BYE', 'CANCEL', 'ACK', 'REGISTER', 'INFO', 'resp', 'garbage')

def template(kind, n):
    v = 'SIP/2.0/UDP 203.0.113.9:5064;branch=z9hG4bKh%d%s%s' % (n, '' if kind in ('INVITE', 'CANCEL', 'ACK') else kind, ';rport' if n % 3 == 0 else '')
    if kind == 'resp':
        return ('SIP/2.0 200 OK\r\nVia: SIP/2.0/UDP 192.0.2.1:5060;branch=z9hG4bKx%d\r\nFrom: <sip:a@192.0.2.1>;tag=a\r\nTo: <sip:b@203.0.113.9>;tag=b\r\nCall-ID: h%d\r\nCSeq: 1 INVITE\r\nContact: <sip:b@203.0.113.9>\r\nContent-Length: 0\r\n\r\n' % (n, n)).encode()
    if kind == 'garbage':
        return random.Random(n).randbytes(20 + n % 200)
    x = [('Expires', '60'), ('User-Agent', 'h')] if kind in ('INVITE', 'REGISTER') else []
    body = SDP if kind in ('INVITE', 'INFO') else ''
    return wire.request(kind, 'sip:555@192.0.2.1', v, '<sip:h@203.0.113.9>;tag=f%d' % n, '<sip:555@192.0.2.1>' + (';tag=zz' if kind in ('BYE', 'INFO') else ''), 'h%d@x' % n, 1 + n, extra = x, body = body, contact = '<sip:h@203.0.113.9:5064>').encode()

def tm_strategy():
    step = st.fixed_dictionaries({'t': st.integers(0, 60).map(lambda x: x / 10.0), 'k': st.sampled_from(TMPL + ('INVITE', 'OPTIONS')), 'n': st.integers(0, 6), 'm': st.one_of(MUTS, MUTS, MUTS, st.just([]))})
    out = st.fixed_dictionaries({'t': st.integers(0, 30).map(lambda x: x / 10.0), 'method': st.sampled_from(('INVITE', 'INVITE', 'BYE', 'OPTIONS')), 'resps': st.lists(st.fixed_dictionaries({'t': st.integers(0, 40).map(lambda x: x / 10.0), 'code': st.sampled_from((100, 180, 200, 200, 302, 401, 486)), 'm': st.one_of(MUTS, MUTS, st.just([]))}), max_size = 3)})
    return st.fixed_dictionaries({'steps': st.lists(step, min_size = 1, max_size = 6), 'outs': st.lists(out, max_size = 2), 'nat': st.booleans(), 'app': st.sampled_from(('200', 'ring', 'none', 'lazy'))})

def start_tokens(data):
    return data.decode('utf-8', 'replace').lstrip('\r\n').split()

def tm_run(case, rec):
    import sim
    from sippy.SipRequest import SipRequest
    from sippy.SipCallId import SipCallId
    from sippy.SipCSeq import SipCSeq
    from sippy.SipFrom import SipFrom
    from sippy.SipTo import SipTo
    from sippy.SipURL import SipURL
    from sippy.SipAddress import SipAddress
    from sippy.SipContact import SipContact
    w = sim.World()
    cur = [None]
    delivered = []
    def on_req(req, t):
        data = cur[0]
        m = req.getMethod()
        i = ident(data)
        tok = start_tokens(data)
        if data.startswith(b'SIP/2.0') or not tok or tok[0] != m or len(tok) < 3 or tok[0].upper().startswith('SIP/'):
            V('not-sent', 'application was handed a %r request for the datagram %r', m, data[:200])
        if i is not None and malformed(i, False): V('malformed-delivered', 'malformed request was delivered: %r', data[:700])
        cid = str(req.getHFBody('call-id'))
        if cid.encode() not in re.sub(rb'\s+', b' ', data): V('not-sent', 'application was handed call-id %r for the datagram %r', cid, data[:200])
        delivered.append((w.now, m, data))
        how = case['app']
        if data.startswith(b'OPTIONS sip:probe'): how = '200'
        if how == 'lazy':
            for n in ('contact', 'expires', 'max-forwards', 'to', 'from', 'route', 'record-route', 'reason', 'refer-to', 'authorization', 'replaces'):
                for b in req.getHFBodys(n): str(b)
        if how in ('200', 'lazy'): return (req.genResponse(200, 'OK'), None, None)
        if how == 'ring':
            def fin():
                try: tm.sendResponse(req.genResponse(404, 'No'), t) if t.tid is not None and t.state.__name__ in ('TRYING', 'RINGING') else None
                except KeyError: pass
            w.after(2.013, fin)
            return (req.genResponse(180, 'R'), None, None) if m == 'INVITE' else (None, None, None)
        return (req.genResponse(500, 'No'), None, None)
    tm, gc = sim.make_tm(on_req, nat_traversal = case['nat'])
    base_timers = len(w.timers())
    sent = []
    def arrive(data, src):
        cur[0] = data
        sent.append((w.now, data, src))
        w.servers[US].arrive(data, src)
        cur[0] = None
    nmut = 0
    for s in case['steps']:
        data = mutate(template(s['k'], s['n']), s['m'])
        nmut += bool(s['m'])
        rec.cls('k:' + s['k'])
        for m in s['m']: rec.cls('mut:' + m[0])
        w.at(s['t'] + 0.0137, arrive, data, SRC)
    rec.nt(nmut > 0)
    peer = ('203.0.113.77', 5066)
    res = []
    def start(j, o):
        ru = SipURL('sip:b%d@203.0.113.77:5066' % j)
        req = SipRequest(method = o['method'], ruri = ru, fr0m = SipFrom(address = SipAddress(url = SipURL('sip:me@192.0.2.1'))), to = SipTo(address = SipAddress(url = ru.getCopy())), callid = SipCallId('out%d' % j), cseq = 5 + j, contact = SipContact())
        req.getHFBody('from').genTag()
        tm.newTransaction(req, resp_cb = lambda r: res.append((j, r.getSCode()[0])))
    seen = set()
    def on_peer(dg):
        if dg.data.startswith(b'SIP/2.0'): return
        m = dg.m
        if m.method in ('ACK', 'CANCEL') or m.callid in seen or not m.callid.startswith('out'): return
        seen.add(m.callid)
        j = int(m.callid[3:])
        for r in case['outs'][j]['resps']:
            text = wire.response(m, r['code'], 'R', to_tag = 'pt', contact = '<sip:b@203.0.113.77:5066>', body = SDP if r['code'] == 200 and m.method == 'INVITE' else '')
            data = mutate(text.encode(), r['m'])
            w.after(r['t'] + 0.0171, arrive, data, peer)
    w.peer(peer, on_peer)
    for j, o in enumerate(case['outs']):
        w.at(o['t'] + 0.0211, start, j, o)
    # well-formed traffic in between and afterwards
    GOOD = ('203.0.113.200', 5060)
    probes = []
    def probe(k):
        text = wire.request('OPTIONS', 'sip:probe@192.0.2.1', 'SIP/2.0/UDP 203.0.113.200:5060;branch=z9hG4bKprobe%d' % k, '<sip:g@203.0.113.200>;tag=p%d' % k, '<sip:probe@192.0.2.1>', 'probe%d' % k, 1)
        probes.append((w.now, text.encode(), GOOD))
        arrive(text.encode(), GOOD)
    for k, t in enumerate((1.5237, 4.0237, 8.0237)):
        w.at(t, probe, k)
    w.run(900.0)
    probe(9)
    w.run(5.0)
    w.check_exceptions(allow = (Exception,))
    for t, data, src in probes:
        a = answers(w.log, ident(data), src, t)
        if [m.code for d, m in a] != [200] or a[0][0].t > t + 0.01: V('unserved', 'well-formed request at %.4f got %r', t, [(d.t, m.code) for d, m in a])
    judge(w.log, [x for x in sent if x[2] == SRC], invite = case['app'] == 'lazy', rec = rec)
    for j, c in res:
        if not 100 <= c <= 999: V('status', 'application was handed a response with status %d', c)
    for j, o in enumerate(case['outs']):
        fin = [c for k, c in res if k == j and c >= 200]
        if len(fin) != 1: V('client', 'client transaction %d got final responses %r (all: %r)', j, fin, res)
    if tm.tserver: V('leak-server', 'server transactions left behind: %r', [(t.method, t.tid, t.state.__name__) for t in tm.tserver.values()])
    if tm.tclient: V('leak-client', 'client transactions left behind: %r', [(t.method, t.tid, t.state.__name__) for t in tm.tclient.values()])
    if len(w.timers()) != base_timers: V('leak-timer', 'timers left behind')

# --- part call: the whole b2bua ------------------------------------------------
HC, CALLEE, GC = ('203.0.113.9', 5064), ('203.0.113.61', 6100), ('203.0.113.200', 5060)

def sdp2(ip, v = 1):
    return 'v=0\r\no=- 1 %d IN IP4 %s\r\ns=-\r\nc=IN IP4 %s\r\nt=0 0\r\nm=audio 4000 RTP/AVP 0 8\r\na=rtpmap:0 PCMU/8000\r\n' % (v, ip, ip)

def call_strategy():
    plan = st.lists(st.tuples(st.integers(0, 9), MUTS).map(list), max_size = 3)
    act = st.fixed_dictionaries({'t': st.integers(0, 150).map(lambda x: x / 10.0), 'side': st.sampled_from('ac'), 'k': st.sampled_from(('reinv', 'info', 'bye', 'opt', 'refer', 'cancel', 'reinv', 'notify', 'stray'))})
    inj = st.fixed_dictionaries({'t': st.integers(0, 200).map(lambda x: x / 10.0), 'k': st.sampled_from(TMPL), 'n': st.integers(0, 6), 'm': st.one_of(MUTS, MUTS, st.just([]))})
    d = st.fixed_dictionaries({'cm': plan, 'am': plan, 'acts': st.lists(act, max_size = 4), 'inj': st.lists(inj, max_size = 3), 'ans': st.sampled_from((200, 200, 200, 200, 486, 302, 401, None)), 'ansd': st.sampled_from((0.3, 0.3, 2.0)), 'sdp': st.sampled_from((True, True, True, False)),
      'nat': st.booleans(), 'auth': st.sampled_from((0, 0, 1)), 'prov': st.sampled_from(((180,), (100, 183), (), (180, 181, 183)))})
    @st.composite
    def case(draw):
        c = draw(d)
        if not (c['cm'] or c['am'] or c['inj']): c['cm'] = [[0, draw(MUTS)]]
        return c
    return case()

def call_run(case, rec):
    import b2b, ep
    args = ['-s', '%s:%d' % CALLEE] + ([] if case['auth'] else ['-u']) + (['--nat_traversal=1'] if case['nat'] else [])
    if not case['auth']: args += ['-A', '0']
    r = b2b.Rig(args)
    w = r.w
    sent = []
    class Hostile(ep.EP):
        plan, nth = (), 0
        def send(self, m, dst = None):
            text = m if isinstance(m, str) else m.text
            if '\r\nCall-ID: H' not in text:
                return ep.EP.send(self, m, dst)
            data = text.encode('utf-8')
            for i, mu in self.plan:
                if i == self.nth:
                    data = mutate(data, mu)
                    rec.cls('hit')
            self.nth += 1
            w.after(self.lat, self.push, data)
        def push(self, data):
            sent.append((w.now, data, self.addr))
            w.servers[US].arrive(data, self.addr)
        def rx(self, dg):
            if b'Call-ID: G' in dg.data or b'Call-ID: P' in dg.data: return ep.EP.rx(self, dg)
            try: ep.EP.rx(self, dg)
            except (ValueError, AttributeError, KeyError, TypeError, IndexError): pass
    caller, callee, good = Hostile(w, HC, 'hc'), Hostile(w, CALLEE, 'callee'), ep.EP(w, GC, 'g')
    caller.plan, callee.plan = case['cm'], case['am']
    for p in case['cm'] + case['am']:
        for m in p[1]: rec.cls('mut:' + m[0])
    rec.nt(True)
    hlegs = []
    def on_call(leg):
        if leg.callid[0] in 'GP':
            leg.data['sdp'] = sdp2(CALLEE[0])
            callee.answer(leg, 180, 'Ringing')
            w.after(0.2, callee.answer, leg, 200, 'OK', sdp2(CALLEE[0]))
            return
        hlegs.append(leg)
        leg.data['sdp'] = sdp2(CALLEE[0], 2)
        for i, c in enumerate(case['prov']):
            w.after(0.1 + 0.02 * i, callee.answer, leg, c, 'P', '' if c != 183 else sdp2(CALLEE[0]))
        x = {302: [('Contact', '<sip:r@203.0.113.99>')], 401: [('WWW-Authenticate', 'Digest realm="r", nonce="n"')]}.get(case['ans'], [])
        if case['ans']: w.after(case['ansd'], callee.answer, leg, case['ans'], 'F', sdp2(CALLEE[0]) if case['ans'] == 200 else '', x, case['ans'] == 200)
    callee.on_call = on_call
    hl = []
    def start():
        leg = caller.call('Hcall@x', 'sip:555@192.0.2.1', '<sip:h@203.0.113.9>', '<sip:555@192.0.2.1>', body = sdp2(HC[0]) if case['sdp'] else '', ctype = 'application/sdp', extra = [('Expires', '60'), ('User-Agent', 'hx')])
        leg.data['sdp'] = sdp2(HC[0], 2)
        if not case['sdp']: leg.inv_tx['ack_body'] = sdp2(HC[0]); leg.inv_tx['ack_ctype'] = 'application/sdp'
        hl.append(leg)
    def do(a):
        legs = hl if a['side'] == 'c' else hlegs
        if not legs: return
        leg = legs[0]
        e = leg.ep
        if a['k'] == 'cancel':
            if leg.role == 'caller' and leg.state in ('calling', 'early') and not leg.got('cancel-tx'): e.cancel(leg)
            return
        if leg.state != 'up' and a['k'] != 'stray': return
        if leg.target is None: return
        k = a['k']
        if k == 'bye': e.bye(leg)
        elif k == 'stray': e.indialog(leg, 'UPDATE', body = sdp2(e.addr[0]), ctype = 'application/sdp')
        elif k == 'reinv': e.indialog(leg, 'INVITE', body = sdp2(e.addr[0], 5), kind = 'reinv', ctype = 'application/sdp')
        elif k == 'info': e.indialog(leg, 'INFO', body = 'Signal=1\r\n', ctype = 'application/dtmf-relay')
        elif k == 'opt': e.indialog(leg, 'OPTIONS')
        elif k == 'notify': e.indialog(leg, 'NOTIFY', extra = [('Event', 'refer')])
        elif k == 'refer': e.indialog(leg, 'REFER', extra = [('Refer-To', '<sip:other@203.0.113.77>')])
    w.at(1.0137, start)
    for a in case['acts']: w.at(1.6231 + a['t'], do, a)
    for s in case['inj']:
        rec.cls('k:' + s['k'])
        w.at(0.5317 + s['t'], lambda s = s: caller.push(mutate(template(s['k'], s['n']), s['m'])))
    # the call that must not notice
    bad = []
    def want(k, what, cond):
        if not cond: bad.append((k, what))
    def good_call(cid, t, dur):
        st = {}
        def go():
            leg = st['leg'] = good.call(cid, 'sip:777@192.0.2.1', '<sip:g@203.0.113.200>', '<sip:777@192.0.2.1>', body = sdp2(GC[0]), ctype = 'application/sdp')
            leg.data['sdp'] = sdp2(GC[0], 3)
        def chk():
            leg = st['leg']
            want('unserved', '%s: state %s, log %r' % (cid, leg.state, [e[:3] for e in leg.ev]), leg.state == 'up' and leg.inv_final == 200)
        def re(v):
            if st['leg'].state == 'up':
                good.indialog(st['leg'], 'INVITE', body = sdp2(GC[0], v), ctype = 'application/sdp', kind = 'reinv', done = lambda tx, m: want('disturbed', '%s: re-INVITE got %r' % (cid, m and m.code), m is not None and m.code in (100, 200)))
        def end():
            leg = st['leg']
            if leg.state != 'up': want('disturbed', '%s: was ended: %r' % (cid, [e[:3] for e in leg.ev]), False)
            else: good.indialog(leg, 'BYE', done = lambda tx, m: want('disturbed', '%s: BYE got %r' % (cid, m and m.code), m is not None and m.code == 200))
            leg.state = 'ended'
        w.at(t, go); w.at(t + 1.0, chk)
        if dur > 8:
            w.at(t + 5.1, re, 5); w.at(t + dur - 2, re, 6)
        w.at(t + dur, end)
        return st
    g = good_call('Gcall@x', 0.0513, 30.0)
    good_call('Gsecond@x', 6.3117, 3.0)
    w.at(45.0, r.cmd, 'd *')
    w.run_until(1100.0)
    w.check_exceptions(allow = (Exception,))
    good_call('Pprobe@x', w.now + 0.01, 3.0)
    w.run(450.0)
    w.check_exceptions(allow = (Exception,))
    if bad: V(*bad[0])
    if good.problems: V('disturbed', 'good endpoint: %s', good.problems[0])
    judge(w.log, sent, invite = True, rec = rec)
    left = r.leftovers()
    if left: V('leak', 'still held by the b2bua long after everything: %s', '; '.join(left))

# --- part udp: the real socket front end ----------------------------------------
def udp_strategy():
    bad = st.sampled_from(('<sip:a@127.0.0.1:99999>', '<sip:a@127.0.0.1:65536>', '<sip:a@127.0.0.1:-1>', '<sip:a@127.0.0.1:0>', '<sip:a@127.0.0.1:99999999999999999999>', '<sip:a@127.0.0.1;transport=tcp>', '<sip:a@127.0.0.1;transport=WSS>', '<sip:a@[::1]:5060>', '<sip:a@255.255.255.255>', '<sip:a@0.0.0.0>', '<sip:a@224.0.0.1>', '<sip:a@x..y>', '<sip:a@%s>' % ('l' * 100), '<sip:a@a\x00b>'))
    port = st.sampled_from(('', ':0', ':1', ':-1', ':65536', ':99999', ':99999999999999999999', ':5060', ':5061;rport', ':99999;rport', ':5060;rport=99999', ':5060;received=a;rport=-3', ':5060;ttl=999', ':5060;maddr=1.2.3.4'))
    step = st.one_of(st.tuples(st.just('via'), st.sampled_from(('OPTIONS', 'INVITE', 'REGISTER', 'CANCEL')), st.integers(0, 99), st.sampled_from(('127.0.0.1', '192.0.2.9', '127.0.0.2', 'h', '[::1]')), port).map(list),
      st.tuples(st.just('contact'), st.integers(0, 99), bad).map(list), st.tuples(st.just('size'), st.sampled_from((0, 1, 31, 8191, 8192, 8193, 20000, 60000)), st.integers(0, 99)).map(list),
      st.tuples(st.just('mut'), st.sampled_from(TMPL), st.integers(0, 6), MUTS).map(list))
    return st.lists(step, min_size = 1, max_size = 8)

class _UG(object):
    n = 0

def udp_run(case, rec):
    import socket, time, signal as _s
    from sippy.Core.EventDispatcher import ED2
    from sippy.SipTransactionManager import SipTransactionManager
    from sippy.SipRequest import SipRequest
    from sippy.SipFrom import SipFrom
    from sippy.SipAddress import SipAddress
    from sippy.SipURL import SipURL
    from sippy.Time.Timeout import Timeout
    import boot
    del boot.exceptions[:]
    class L(object):
        def write(self, *a, **kw): pass
    if not hasattr(_UG, 'me'):
        _UG.me = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        _UG.me.bind(('127.0.0.1', 0))
        _UG.me.settimeout(0.0)
    me = _UG.me
    while True:
        try: me.recv(70000)
        except OSError: break
    _UG.n += 1
    tag = '%d' % _UG.n
    # a free port: the stack binds with SO_REUSEPORT
    ps = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    ps.bind(('127.0.0.1', 0))
    port = ps.getsockname()[1]
    ps.close()
    gc = {'_sip_address': '127.0.0.1', '_sip_port': port, '_sip_logger': L()}
    ours = []
    def on_req(req, t):
        m = req.getMethod()
        if req.countHFs('contact') > 0 and m == 'INVITE':
            # call back, as a BYE would
            ru = req.getHFBody('contact').getUrl().getCopy()
            rq = SipRequest(method = 'BYE', ruri = ru, fr0m = SipFrom(address = SipAddress(url = SipURL('sip:me@127.0.0.1'))), cseq = 1)
            rq.getHFBody('from').genTag()
            try: ours.append(tm.newTransaction(rq, resp_cb = lambda r: None))
            except (AttributeError, socket.error, UnicodeError): pass        # no such address: the caller is told
        return (req.genResponse(200 if m != 'INVITE' else 486, 'OK'), None, None)
    tm = SipTransactionManager(gc, on_req)
    got = []
    want = set()
    class Stop(Exception): pass
    try:
        def pump(until, done):
            end = time.monotonic() + until
            while True:
                ED2.loop(timeout = 0.003)
                while True:
                    try: d = me.recv(70000)
                    except OSError: break
                    got.append(d)
                if done() or time.monotonic() > end: return
        def probe(k):
            cid = 'probe-%s-%d' % (tag, k)
            text = wire.request('OPTIONS', 'sip:probe@127.0.0.1:%d' % port, 'SIP/2.0/UDP 127.0.0.1:%d;branch=z9hG4bKp%s-%d' % (me.getsockname()[1], tag, k), '<sip:g@127.0.0.1>;tag=p%s' % tag, '<sip:probe@127.0.0.1>', cid, 1)
            ok = lambda: any(cid.encode() in d and d.startswith(b'SIP/2.0 200') for d in got)
            for n in range(4):
                me.sendto(text.encode(), ('127.0.0.1', port))
                pump(1.5, ok)
                if ok(): return
            V('unserved', 'a well-formed request sent %d times over 6 s got no answer (%d datagrams received by the client)', 4, len(got))
        probe(0)
        for j, s in enumerate(case):
            rec.cls('s:' + s[0])
            if s[0] == 'via':
                data = wire.request(s[1], 'sip:x@127.0.0.1', 'SIP/2.0/UDP %s%s;branch=z9hG4bKv%s-%d' % (s[3], s[4], tag, j), '<sip:h@127.0.0.1>;tag=v%d' % s[2], '<sip:x@127.0.0.1>', 'v%s-%d' % (tag, j), 1).encode()
            elif s[0] == 'contact':
                data = wire.request('INVITE', 'sip:x@127.0.0.1', 'SIP/2.0/UDP 127.0.0.1:%d;branch=z9hG4bKc%s-%d' % (me.getsockname()[1], tag, j), '<sip:h@127.0.0.1>;tag=v%d' % s[1], '<sip:x@127.0.0.1>', 'c%s-%d' % (tag, j), 1, contact = s[2]).encode()
            elif s[0] == 'size':
                data = wire.request('OPTIONS', 'sip:x@127.0.0.1', 'SIP/2.0/UDP 127.0.0.1:%d;branch=z9hG4bKs%s-%d' % (me.getsockname()[1], tag, j), '<sip:h@127.0.0.1>;tag=v%d' % s[2], '<sip:x@127.0.0.1>', 's%s-%d' % (tag, j), 1, extra = [('Subject', 'x' * s[1])], body = 'b' * 100).encode()[:s[1]]
            else:
                data = mutate(template(s[1], s[2]), s[3])
            try: me.sendto(data, ('127.0.0.1', port))
            except OSError: continue
        rec.nt(True)
        pump(0.02, lambda: False)
        for k in range(1, 8): probe(k)
    finally:
        for t in ours:
            if t.teA is not None: t.teA.cancel()
            if t.teB is not None: t.teB.cancel()
        for t in list(tm.tserver.values()) + list(tm.tclient.values()):
            for n in ('teA', 'teB', 'teC', 'teD', 'teE', 'teF', 'teG'):
                x = getattr(t, n, None)
                if x is not None: x.cancel()
        tm.shutdown()

CHECK = Check('C03', 'exploration', [
    Part('tm', tm_strategy, tm_run, quick = 2500, thorough = 18000, shards = 8, boot = 'virtual', rule = 'at least one mutated datagram'),
    Part('call', call_strategy, call_run, quick = 600, thorough = 4000, shards = 8, boot = 'virtual', rule = 'a call with mutated messages of either side, or injected datagrams'),
    Part('udp', udp_strategy, udp_run, quick = 60, thorough = 400, shards = 8, boot = 'real', rule = 'hostile datagrams sent to a real socket between probes'),
])
