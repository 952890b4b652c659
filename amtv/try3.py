"""Run matching tasks in parallel: try3.py SSA PATTERN..."""
import sys, time, os, pickle, subprocess
sys.path.insert(0, '/verif')
from amtv.ssa import Prog
from amtv import verify
import multiprocessing as mp
prog = Prog.load(os.environ.get('SSA', '/tmp/w/ssa.json'))
def go(t):
    return t, verify.run_task(prog, t)
if __name__ == '__main__':
    pat = sys.argv[1:]
    ts = [t for t in verify.tasks(prog) if not pat or any(p in '.'.join(map(str, t)) for p in pat)]
    t0 = time.time(); tot = 0
    with mp.get_context('fork').Pool(int(os.environ.get('NP', '8')), maxtasksperchild=1) as pool:
        for t, R in pool.imap_unordered(go, ts, 1):
            s = '.'.join(str(x) for x in t).replace('github.com/wdamron/amt.', '')
            bad = [o for o in R.obligations if o[2] != 'proved']
            tot += R.wall
            if R.status != 'ok' or bad or R.wall > 5 or pat:
                print('%-12s %-9s obl %d paths %d cases %s q %d solver %.1f wall %.1f %s %s' % (s, R.status, len(R.obligations), R.paths, R.cases, R.queries, R.solver, R.wall, R.by, R.reason), flush=True)
                for o in bad[:12]: print('    ', o)
                if getattr(R, 'trace', None): print(R.trace)
    print('%d tasks, cpu %.1f wall %.1f' % (len(ts), tot, time.time() - t0))
