"""C33: audio through the RTP output worker, the receiving stream and the codecs."""
import gc, os, random, shutil, struct, tempfile, traceback, warnings, wave
from array import array
from hypothesis import strategies as st
from core import Check, Part, Violation

def V(cond, msg, key = None):
    if not cond:
        raise Violation(msg, key)

def codecs():
    from sippy.Rtp.Codecs.G711 import G711Codec
    from sippy.Rtp.Codecs.G722 import G722Codec
    return (G711Codec, G722Codec)

class Ref(object):
    """The codecs as the libraries have them: 8000 samples and 8000 bytes a second, with state."""
    def __init__(self, co):
        from G722 import G722
        self.co = co
        self.g = G722(8000, 64000, use_numpy = False)
        self.s = G722(8000, 64000, use_numpy = False)
    def enc(self, pcm):
        from rtpsynth.RtpUtils import linear2ulaw
        return linear2ulaw(pcm) if self.co == 0 else self.g.encode(pcm)
    def dec(self, b):
        from rtpsynth.RtpUtils import ulaw2linear
        return ulaw2linear(b) if self.co == 0 else array('h', self.g.decode(b))
    def silence(self, n):
        return b'\xff' * n if self.co == 0 else self.s.encode(array('h', [0]) * n)

def resample(a, f, t):
    from rtpsynth.RtpUtils import resample_linear
    return array('h', a) if f == t else resample_linear(array('h', a), f, t)

def noise(r, n):
    k = r.choice([300, 8000, 32767])
    return array('h', [r.randint(-k, k) for _ in range(n)])

# ---- sending

qop = st.tuples(st.just('q'), st.one_of(st.integers(1, 30), st.sampled_from([79, 80, 81, 159, 160, 161, 320, 800]), st.integers(1, 1500)), st.sampled_from([8000, 8000, 8000, 16000, 48000, 11025]), st.sampled_from(['array', 'array', 'bytes', 'again']))
oop = st.one_of(qop, qop, st.tuples(st.just('tick'), st.integers(1, 12)), st.tuples(st.just('tick'), st.integers(1, 3))).map(list)
ostrategy = st.fixed_dictionaries({'co': st.integers(0, 1), 'pt': st.sampled_from([20, 20, 10, 30, 40, 60, 5, 1]), 'ops': st.lists(oop, min_size = 2, max_size = 20), 'seed': st.integers(0, 1 << 30), 'log': st.sampled_from([False, False, False, True]), 'late': st.integers(0, 3)})

class FakeProc(object):
    all = []
    def __init__(self):
        self.chans, self.down = [], False
        FakeProc.all.append(self)
    def create_channel(self, proc_in = None, **kw):
        c = FakeProcChannel(proc_in)
        self.chans.append(c)
        return c
    def shutdown(self): self.down = True

class FakeProcChannel(object):
    def __init__(self, f): self.f, self.closed = f, False
    def close(self):
        V(not self.closed, 'worker closes its channel twice', 'close')
        self.closed = True

def run_out(case, rec):
    import sippy.Rtp.Singletons as S
    from sippy.Rtp.Params import RTPParams
    saved, S.RtpProc = S.RtpProc, FakeProc
    S._rtp_proc_singleton, S._rtp_proc_refcount = None, 0
    FakeProc.all = []
    tmp = tempfile.mkdtemp(prefix = 'c33') if case['log'] else None
    try: drive_out(case, rec, tmp)
    finally:
        S.RtpProc = saved
        S._rtp_proc_singleton, S._rtp_proc_refcount = None, 0
        if tmp is not None: shutil.rmtree(tmp)

def drive_out(case, rec, tmp):
    from sippy.Rtp.Params import RTPParams
    from sippy.Rtp.OutputWorker import RTPOutputWorker
    from sippy.Rtp.Core.AudioChunk import AudioChunk
    r = random.Random(case['seed'])
    ms, co = case['pt'], case['co']
    size = ms * 8
    p = RTPParams(None, out_ptime = ms)
    p.codec = codecs()[co]
    sent = []
    x = RTPOutputWorker(p)
    x.set_pkt_send_f(lambda b: sent.append(bytes(b)))
    if tmp is not None: x.enable_datalog(os.path.join(tmp, 'log.wav'))
    x.start()
    proc = FakeProc.all[-1]
    V(len(proc.chans) == 1, '%d pacing channels' % len(proc.chans))
    ch = proc.chans[0]
    ref = Ref(co)
    queue, logged = array('h'), array('h')
    nq = nticks = nmid = 0
    now, dl = 5000000000, 0
    head = None                # (seq, ts, tick) of the first packet
    chunks, ends = [], []
    def tick():
        nonlocal now, dl, queue, head, nticks, nmid
        at = len(sent)
        try: res = ch.f(now, dl)
        except Exception as ex: raise Violation('tick %d: %s' % (nticks, ''.join(traceback.format_exception(ex)[-4:])), 'exc')
        base = dl if dl else now
        V(res == base + ms * 1000000, 'tick %d: next packet wanted at %s, due at %s' % (nticks, res, base + ms * 1000000), 'pace')
        dl = res
        now = max(now, dl) + case['late'] * 100000
        got = sent[at:]
        if len(queue) == 0:
            V(not got, 'tick %d: %d packets though no audio is queued' % (nticks, len(got)), 'invented')
        else:
            V(len(got) == 1, 'tick %d: %d packets while %d samples wait' % (nticks, len(got), len(queue)), 'count')
            take = queue[:size]
            queue = queue[size:]
            if 0 < len(queue) < size: nmid += 1
            want = ref.enc(take + array('h', [0]) * (size - len(take)))
            pk = got[0]
            b0, b1, seq, ts, ssrc = struct.unpack('!BBHII', pk[:12])
            V(b0 == 0x80 and b1 & 127 == (0, 9)[co], 'tick %d: header %02x %02x' % (nticks, b0, b1), 'header')
            V(len(pk) - 12 == size, 'tick %d: %d bytes in a packet of %d ms' % (nticks, len(pk) - 12, ms), 'size')
            V(pk[12:] == want, 'tick %d: packet holds other samples than queued (first difference at %d of %d, %d real)' % (nticks, next((i for i in range(size) if pk[12 + i] != want[i]), -1), size, len(take)), 'samples')
            if head is None: head = (seq, ts, nticks, ssrc, 0)
            h = head
            V(ssrc == h[3] and (seq - h[0]) & 65535 == h[4] and (ts - h[1]) & 0xffffffff == (nticks - h[2]) * size, 'tick %d: numbering seq %d ts %d after seq %d ts %d %d ticks and %d packets ago' % (nticks, seq, ts, h[0], h[1], nticks - h[2], h[4]), 'numbering')
            head = h[:4] + (h[4] + 1,)
        nticks += 1
        rc, pr = x.get_frm_ctrs()
        gone = sum(k for end, k in ends if end <= len(logged) - len(queue))
        V(rc == nq and pr <= gone, 'counters %s/%s after %d frames' % (rc, pr, nq), 'counters')
        if len(queue) == 0: V(pr == rc, 'everything has been sent, yet counters are %d/%d' % (rc, pr), 'counters')
    for o in case['ops']:
        if o[0] == 'q':
            n, rate, how = o[1:]
            if how == 'again' and chunks: c, pcm, rate = r.choice(chunks)
            else:
                pcm = noise(r, n)
                c = AudioChunk(array('h', pcm) if how != 'bytes' else pcm.tobytes(), rate)
                chunks.append((c, pcm, rate))
            nq += len(pcm)
            x.soundout(c)
            out = resample(pcm, rate, 8000)
            queue += out
            logged += out
            ends.append((len(logged), len(pcm)))
        else:
            for _ in range(o[1]): tick()
    for _ in range(len(queue) // size + 2): tick()
    x.end()
    at = len(sent)
    x.soundout(AudioChunk(array('h', [5] * 400), 8000))
    V(ch.f(now, dl) is None and len(sent) == at, 'worker goes on after end()', 'end')
    x.join()
    V(ch.closed and proc.down, 'worker does not let go of the pacing thread', 'end')
    if tmp is not None:
        x = ch = None
        proc.chans[0].f = None
        gc.collect()
        with wave.open(os.path.join(tmp, 'log.wav')) as f:
            V((f.getframerate(), f.getnchannels(), f.getsampwidth()) == (8000, 1, 2), 'log format')
            V(array('h', f.readframes(f.getnframes())) == logged, 'the log is not what was queued', 'log')
    rec.cls('G711' if co == 0 else 'G722', *(['carried'] if nmid else []))
    rec.nt(nmid > 0 and len(sent) > 3)

# ---- receiving

seg = st.fixed_dictionaries({'n': st.sampled_from([1, 2, 5, 8, 9, 20, 40, 60]), 's0': st.sampled_from([0, 1, 100, 30000, 65000, 65515, 65524, 65534]), 'ts0': st.sampled_from([0, 1, 846930886, 2**31 - 300, 2**32 - 500, 2**32 - 4000]),
  'lose': st.lists(st.integers(0, 59), max_size = 6), 'dup': st.lists(st.integers(0, 59), max_size = 3), 'shift': st.lists(st.tuples(st.integers(0, 59), st.integers(1, 3)).map(list), max_size = 6), 'burst': st.sampled_from([0, 0, 0, 3, 12, 50]),
  'how': st.sampled_from(['ssrc', 'ssrc', 'update', 'codec']), 'tail': st.booleans(), 'junk': st.lists(st.tuples(st.integers(0, 70), st.sampled_from(['empty', 'short', 'rtcp', 'ver'])).map(list), max_size = 2), 'ext': st.booleans()})
istrategy = st.fixed_dictionaries({'co': st.integers(0, 1), 'sr': st.sampled_from([8000, 8000, 16000, 24000, 48000]), 'pt': st.sampled_from([20, 20, 10, 30, 60]), 'segs': st.lists(seg, min_size = 1, max_size = 3), 'back': st.sampled_from([0, 0, 0, 5000, 100000, 1 << 30]), 'seed': st.integers(0, 1 << 30)})

JUNK = {'empty': b'', 'short': b'\x80\0\0', 'rtcp': b'\x80\xc8\0\6' + bytes(range(24)), 'ver': b'\0' * 40}

def run_in(case, rec):
    from sippy.Rtp.Params import RTPParams
    from sippy.Rtp.Ingest import RTPInStream
    r = random.Random(case['seed'])
    co, sr, size = case['co'], case['sr'], case['pt'] * 8
    p = RTPParams(None, out_sr = sr)
    def guarded(c):
        class G(c):
            def silence(self, n):
                V(n <= 8000 * 3600, 'silence of %d samples' % n, 'silence')
                return c.silence(self, n)
        return G
    both = [guarded(c) for c in codecs()]
    p.codec = both[co]
    out = []
    x = RTPInStream(p, out.append)
    ref = Ref(co)
    expected = b''             # encoded stream since the format was last changed
    now = 100.0
    addr = ('192.0.2.1', 4000)
    clean = True
    nlost = nshift = 0
    def judge(final):
        """Chunks so far against the encoded stream so far."""
        nonlocal out, expected
        chunk = 800
        whole = len(expected) // chunk
        V(len(out) == whole, '%d bytes of audio came out as %d chunks of 100 ms' % (len(expected), len(out)), 'length')
        for i, c in enumerate(out):
            want = resample(ref.dec(expected[i * chunk:(i + 1) * chunk]), 8000, sr)
            V(c.samplerate == sr and c.nframes == sr // 10, 'chunk of %d samples at %d' % (c.nframes, c.samplerate), 'length')
            V(array('h', c.audio) == want, 'chunk %d: samples differ from what was sent (from sample %d of %d)' % (i, next((j for j in range(len(want)) if c.audio[j] != want[j]), -1), len(want)), 'samples')
            if clean: V(abs(c.rtime - (100.0 + 0.1 * (i + done))) < 1e-6, 'chunk %d is dated %s, its first sample arrived at %s' % (i, c.rtime, 100.0 + 0.1 * (i + done)), 'time')
        expected = expected[whole * chunk:]
        out.clear()
        return whole
    done = 0
    segs = case['segs']
    for k, s in enumerate(segs):
        last = k == len(segs) - 1
        n = s['n']
        # (a short burst ended by a new source is complete only if nothing is missing in it)
        full = last or s['tail'] or segs[k + 1]['how'] != 'ssrc' or s['lose'] or s['shift'] or s['burst']
        ntail = 20 if full else 0
        if k > 0:
            if s['how'] == 'update': x.stream_update()
            elif s['how'] == 'codec':
                done += judge(False)
                co, sr = 1 - co, r.choice([8000, 16000, 48000])
                rest = expected
                p.codec, p.out_sr = both[co], sr
                x.stream_update()
                # what was short of a whole chunk may be handed over or be given up
                V(len(out) <= 1, 'a change of codec brings %d chunks' % len(out), 'length')
                if out: V(array('h', out[0].audio) == resample(ref.dec(rest), 8000, out[0].samplerate), 'the rest in the old format is garbled', 'samples')
                out.clear()
                expected = b''
                ref = Ref(co)
                rec.cls('codec change')
            else: rec.cls('new source')
            clean = False
        pay = [bytes(r.getrandbits(8) for _ in range(size)) for _ in range(n + ntail)]
        lose = {i for i in s['lose'] if i < n}
        if s['burst'] and n > 8: lose |= set(range(n // 2, min(n - 1, n // 2 + s['burst'])))
        ssrc = 1000 + k
        s0 = s['s0']
        order = [i for i in range(n + ntail) if i not in lose]
        if not order: continue
        # the numbering has no beginning, so the first packets must not cross it out of order
        early = order[0] + 8
        wrapat = (65536 - s0) % 65536
        shift = {i: d for i, d in s['shift'] if i < n and i not in lose and i > order[0] and not (i < early + 4 and abs(wrapat - i) < 12) and not (s0 == 0 and i < early)}
        if s0 < 4 and order[0] == 0 and 0 in lose: shift = {}
        if shift: nshift += 1
        deliver = sorted([(i + shift.get(i, 0) + (0.5 if i in shift else 0), i) for i in order] + [(i + 0.6 + shift.get(i, 0), i) for i in s['dup'] if i in order])
        if len(deliver) != len(order) or shift or lose: clean = False
        junk = {}
        for a, b in s['junk']: junk.setdefault(a, []).append(b)
        for j, (_, i) in enumerate(deliver):
            for b in junk.get(j, ()): x.rtp_received(JUNK[b], addr, now)
            h = struct.pack('!BBHII', 0x80, (0, 9)[co] | (128 if i == 0 else 0), (s0 + i) & 65535, (s['ts0'] + i * size) & 0xffffffff, ssrc)
            if s['ext'] and i % 3 == 1: h = bytes([0x90]) + h[1:] + b'\xbe\xde\0\1abcd'
            try: x.rtp_received(h + pay[i], addr, now)
            except Exception as ex: raise Violation('packet %d of source %d: %s' % (i, k, ''.join(traceback.format_exception(ex)[-4:])), 'exc')
            now += case['pt'] / 1000.0
        gap = 0
        for i in range(order[0], order[-1] + 1):
            if i in lose: gap += size
            else:
                if gap: expected += ref.silence(gap); nlost += 1
                gap = 0
                expected += pay[i]
    judge(True)
    if case['back']:
        # the clock of the source steps back while packets are lost: whatever comes out, not hours of silence
        base = s['s0'] + n + ntail
        for j in range(1, 12):
            h = struct.pack('!BBHII', 0x80, (0, 9)[co], (base + j) & 65535, (s['ts0'] + (base - s['s0'] + j) * size - case['back']) & 0xffffffff, ssrc)
            x.rtp_received(h + bytes(size), addr, now)
        V(0 < len(out) * 800 + 800 <= 8000 * 60, 'source steps back by %d: %d s of audio came out' % (case['back'], len(out) / 10), 'silence')
        rec.cls('clock stepped back')
    rec.cls('G711' if co == 0 else 'G722', *(['lost'] if nlost else []), *(['shifted'] if nshift else []))
    rec.nt(nlost > 0 or nshift > 0)

# ---- conversions

cstrategy = st.fixed_dictionaries({'co': st.integers(0, 1), 'sr': st.sampled_from([8000, 16000, 24000, 32000, 48000]), 'n': st.integers(0, 4000), 'seed': st.integers(0, 1 << 30), 'k': st.integers(1, 6)})

def run_conv(case, rec):
    warnings.simplefilter('ignore')
    import audioop
    from sippy.Rtp.Core.AudioChunk import AudioChunk
    r = random.Random(case['seed'])
    co, sr, n = case['co'], case['sr'], case['n']
    c = codecs()[co]()
    V(c.out_srate == c.srate, 'a codec starts with out_srate %s' % c.out_srate)
    mult = sr // 8000
    for arg in (True, False):
        if arg: e2d, d2e = lambda n: c.e2d_frames(n, sr), lambda n: c.d2e_frames(n, sr)
        else:
            c.out_srate = sr
            e2d, d2e = c.e2d_frames, c.d2e_frames
        V(e2d(n) == n * mult, '%d bytes are %s samples at %d' % (n, e2d(n), sr), 'e2d')
        V(d2e(n * mult) == n, '%d samples at %d are %s bytes' % (n * mult, sr, d2e(n * mult)), 'd2e')
        V(d2e(n) == n // mult, '%d samples at %d are %s bytes' % (n, sr, d2e(n)), 'd2e')
    V(abs(c.e2t(n) - n / 8000.0) < 1e-9 and abs(c.e2t(n) - e2d(n) / sr) < 1e-9, '%d bytes last %s s' % (n, c.e2t(n)), 'e2t')
    m = min(n, 600)
    pcm = noise(r, m)
    keep = array('h', pcm)
    src = [pcm, pcm.tobytes(), bytearray(pcm.tobytes()), memoryview(pcm), memoryview(pcm.tobytes())][case['k'] % 5]
    ch = AudioChunk(src, 8000)
    enc = c.encode(ch)
    V(len(enc) == m and enc == Ref(co).enc(keep), 'encoding of %d samples' % m, 'encode')
    V(array('h', ch.audio) == keep and ch.nframes == m and abs(ch.duration() - m / 8000.0) < 1e-9, 'encoding changes the chunk', 'encode')
    V(ch.to_bytes() == struct.pack('<%dh' % m, *keep), 'to_bytes()', 'bytes')
    if co == 0:
        import array as A
        ref = audioop.lin2ulaw(keep.tobytes(), 2)
        V(all(abs(a - b) <= 1 or {a, b} == {127, 255} for a, b in zip(enc, ref)), 'not G.711', 'encode')
    dc = c.decode(enc)
    V(dc.samplerate == sr and dc.nframes == e2d(m), 'decoded %d bytes to %d samples at %d' % (m, dc.nframes, dc.samplerate), 'decode')
    V(array('h', dc.audio) == resample(Ref(co).dec(enc), 8000, sr), 'decoded samples differ', 'decode')
    if co == 0 and m:
        raw = c.decode(enc, resample = False)
        V(raw.samplerate == 8000 and array('h', raw.audio) == array('h', audioop.ulaw2lin(enc, 2)), 'not G.711', 'decode')
        V(c.decode(c.encode(raw), resample = False).audio == raw.audio, 'coding what was decoded changes it', 'decode')
    f = codecs()[co]()
    f.out_srate = sr
    sil = f.silence(n)
    V(len(sil) == n, 'silence of %d samples has %d bytes' % (n, len(sil)), 'silence')
    if n: V(max(abs(v) for v in f.decode(sil).audio) < 64, 'silence is audible', 'silence')
    V(c.rtpmap() == 'rtpmap:%d %s/8000' % ((0, 'PCMU'), (9, 'G722'))[co], c.rtpmap())
    rec.nt(n > 0 and mult > 1)

CHECK = Check('C33', 'exploration', [
    Part('send', ostrategy, run_out, quick = 1200, thorough = 25000, shards = 8, rule = 'more than three packets, a packet spans two chunks or is padded'),
    Part('receive', istrategy, run_in, quick = 1000, thorough = 20000, shards = 8, rule = 'packets lost or out of order'),
    Part('convert', cstrategy, run_conv, quick = 500, thorough = 8000, shards = 8, rule = 'conversion between different rates'),
])
