"""Real threads, but the harness decides when the calls they hand to the event loop run."""
import queue, signal, threading

class QueueElp(object):
    """Takes the hand-overs of other threads; the harness runs them, in order, in its own thread."""
    filter = None
    def __init__(self): self.q = queue.Queue()
    def call_from_thread(self, f, *a): self.q.put((f, a))
    def run(self, n = -1):
        done = 0
        while n < 0 or done < n:
            try: f, a = self.q.get_nowait()
            except queue.Empty: break
            if self.filter: a = self.filter(a)
            f(*a); done += 1
        return done

def install():
    """Replace the periodic-loop object of the dispatcher; returns the queue (emptied)."""
    from sippy.Core.EventDispatcher import ED2
    if not isinstance(ED2.elp, QueueElp):
        ED2.elp = QueueElp()
        threading.excepthook = lambda a: None
    ED2.elp.filter = None
    ED2.elp.run()
    ED2._exception = None
    return ED2.elp

class watchdog(object):
    """Turns a harness thread stuck inside the code under test into a violation."""
    fired = False
    def __init__(self, secs = 45): self.secs = 6 if watchdog.fired else secs
    def alarm(self, *a):
        from core import Violation
        watchdog.fired = True
        raise Violation('a call into the code under test does not return (after %d s)' % self.secs, 'hang')
    def __enter__(self):
        signal.signal(signal.SIGALRM, self.alarm)
        signal.setitimer(signal.ITIMER_REAL, self.secs)
    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
