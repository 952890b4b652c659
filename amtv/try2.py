import sys, time, os
sys.path.insert(0, '/verif')
from amtv.ssa import Prog
from amtv import verify, terms
prog = Prog.load(os.environ.get('SSA', '/tmp/w/ssa.json'))
pat = sys.argv[1:]
for t in verify.tasks(prog):
    s = '.'.join(str(x) for x in t)
    if pat and not any(p in s for p in pat): continue
    R = verify.run_task(prog, t)
    bad = [o for o in R.obligations if o[2] != 'proved']
    print('%-12s %-9s obl %d paths %d cases %s q %d solver %.1f wall %.1f %s %s' % (s, R.status, len(R.obligations), R.paths, R.cases, R.queries, R.solver, R.wall, R.by, R.reason))
    for o in bad[:12]: print('    ', o)
    if getattr(R, 'trace', None): print(R.trace)
