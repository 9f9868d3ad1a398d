"""C08: after any calls, once they are over, nothing they used is left."""
from core import Check, Part, Violation
import scen

def run(case, rec):
    r = scen.Run(case)
    r.w.check_exceptions()
    rec.nt(any(len(c.outs) for c in r.calls))
    left = r.rig.leftovers()
    if left:
        raise Violation('left over after all calls ended: %s' % '; '.join(left), 'leak')

CHECK = Check('C08', 'exploration', [Part('calls', lambda: scen.scenario(), run, quick = 100, thorough = 4000, shards = 8, rule = 'a call reached a callee'),
  Part('incall', lambda: scen.incall(), run, quick = 100, thorough = 4000, shards = 8, rule = 'a call reached a callee')])
