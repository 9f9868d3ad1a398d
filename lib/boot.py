"""Make the package under test importable; optionally own its clock."""
import os, sys, random

VENV_SP = '/opt/venv/lib/python3.12/site-packages'
REPO = os.environ.get('VERIF_REPO', '/repo')
booted = None

class _Clock(object):
    BASE = 1 << 20               # monotonic seconds at start
    REAL = 1 << 30               # wall clock minus monotonic
    def __init__(self):
        self.now = float(self.BASE)
        self.real_off = float(self.REAL)
        self.reads = 0
    def monotonic(self):
        return self.now
    def time(self):
        return self.now + self.real_off
clock = _Clock()

exceptions = []                  # (message, exception) recorded from dump_exception

def _fake_gettime(ctype, ptr):
    clock.reads += 1
    v = clock.now
    if ctype == 0:
        v += clock.real_off
    s = int(v)
    ts = ptr.contents
    ts.tv_sec = s
    ts.tv_nsec = int(round((v - s) * 1e9))
    return 0

def boot(virtual = True):
    global booted
    if booted is not None:
        if booted != virtual:
            raise RuntimeError('boot mode mismatch')
        return
    booted = virtual
    os.environ['SIPLOG_BEND'] = 'none'
    os.environ.setdefault('SIPLOG_LOGFILE_FILE', os.devnull)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if VENV_SP not in sys.path:
        sys.path.append(VENV_SP)
    sys.argv[0] = os.path.join(REPO, 'sippy', 'b2bua.py')
    import sippy.Core.Exceptions as E
    def dump_exception(msg, f = None, extra = None):
        exceptions.append((msg, sys.exc_info()[1]))
    E.dump_exception = dump_exception
    if virtual:
        import sippy.Time.clock_dtime as C
        C.clock_gettime = _fake_gettime
    random.seed(1)
