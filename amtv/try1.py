import sys, time
sys.path.insert(0, '/verif')
from amtv.ssa import Prog
from amtv.cx import *
from amtv.state import *
from amtv.execu import *
from amtv import loops, terms
P_ = Prog.load('/tmp/w/ssa.json')
pkg = P_.pkg

def start(name, flavour, is_set):
    f = P_.funcs[name]
    cx = Cx(P_, flavour, is_set, name)
    ex = Exec(cx, {})
    ex.loop_handler = loops.handle
    st = State(cx)
    st.rootf = {'seed': cx.seed, 'len': cx.len0, 'dep': cx.dep0}
    regs = []
    for p in f.params:
        pt = P_.under(p['t'])
        if p is f.params[0]:
            regs.append(StructV([Root()]))
        elif p['n'] == 'p:key': regs.append(cx.key)
        elif p['n'] == 'p:value': regs.append(cx.value)
        else: regs.append(CB(p['n']))
    ex.push(st, f, regs)
    return ex, st
def newlinkarr(ex, st, args, ins):
    cap = zx(args[0],64)
    st.oblige('newLinkArray capacity', ULE(cap, bv(16,64)), ('C08',))
    i = st.new_id()
    c = If(cap == 0, bv(4,64), round4(cap))
    st.heap[i] = FreshArr(i, z3.simplify(c), (), True)
    return Elem(('fresh', i), bv(0,64))
if __name__ == '__main__':
    name, fl, iss = sys.argv[1], sys.argv[2], sys.argv[3]=='1'
    ex, st = start(name.replace('PKG', pkg), fl, iss)
    ex.contracts[pkg+'.newLinkArray'] = newlinkarr
    t=time.time()
    try:
        res = ex.run(st)
        for l, s in res:
            print(l, s.result, len(s.pc), 'cells', len(s.cells), 'elems', len(s.elems), 'obl', len(s.obls), 'feas', s.feasible())
    except Unsupported as e:
        print('UNSUPPORTED', e)
    for n in ex.cx.notes: print(n)
    print(time.time()-t, terms.Stats.queries, terms.Stats.time, terms.Stats.slow, terms.Stats.unknown)
