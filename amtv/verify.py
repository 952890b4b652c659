"""Verification of one function of the package against its contract."""
import functools
import time
import traceback
import z3
from . import terms, loops, spec
from . import cx as cxm
from .terms import *
from .state import *
from .cx import Cx, sort_of
from .execu import Exec, NilDeref

CONTAINERS = [  # name, flavour, is_set
    ('IntMap', 'int', False), ('IntSet', 'int', True), ('StringMap', 'str', False), ('StringSet', 'str', True),
    ('BytesMap', 'bytes', False), ('BytesSet', 'bytes', True), ('ArrMap', 'arr', False), ('ArrSet', 'arr', True),
    ('Map', 'gen', False), ('Set', 'gen', True)]
MAP_OPS = ['Nil', 'Len', 'Dep', 'Get', 'Val', 'Ptr', 'Set', 'Mod', 'Del', 'All']
SET_OPS = ['Nil', 'Len', 'Dep', 'Has', 'Add', 'Del', 'All']
READS = {'Get', 'Val', 'Ptr', 'Has'}


class Result:
    def __init__(self, name, kind):
        self.name, self.kind = name, kind
        self.status = 'ok'          # ok | refuted | undecided
        self.reason = ''
        self.obligations = []       # (name, tags, status, detail)
        self.queries = 0
        self.solver = 0.0
        self.by = {}
        self.wall = 0.0
        self.paths = 0
        self.loops = []
        self.inlined = []
        self.callees = []
        self.boxes = []
        self.cases = {}


def find_method(prog, cont, op):
    for n, f in prog.funcs.items():
        if n.startswith('(' + prog.pkg + '.' + cont) and n.endswith(').' + op):
            rest = n[len('(' + prog.pkg + '.' + cont):-len(').' + op)]
            if rest == '' or rest.startswith('['):
                return f
    return None


def scan_roles(prog, f):
    """(index of the *link, index of the callback, indices of container values)
    if f's parameters are those of a scan, else None."""
    link, cb, conts = [], [], []
    for i, p in enumerate(f.params):
        t = prog.types[p['t']]
        u = prog.under(p['t'])
        if t['kind'] == 'pointer' and prog.types[t['elem']].get('name') == 'link':
            link.append(i)
        elif u['kind'] in ('signature', 'func'):
            cb.append(i)
        elif u['kind'] == 'struct' and len(u['fields']) == 1 and prog.under(u['fields'][0]['type'])['kind'] == 'pointer' and \
                prog.types[prog.under(u['fields'][0]['type'])['elem']].get('name') == 'root':
            conts.append(i)
        else:
            return None
    if len(link) != 1 or len(cb) != 1 or len(conts) > 1:
        return None
    return link[0], cb[0], conts


def reaches_itself(prog, n):
    seen, work = set(), list(prog.funcs[n].callees())
    while work:
        x = work.pop()
        if x == n:
            return True
        if x in seen or x not in prog.funcs:
            continue
        seen.add(x)
        work += list(prog.funcs[x].callees())
    return False


def scan_functions(prog):
    """Functions over a *link and a callback that call themselves: the scans."""
    if getattr(prog, 'scans', None) is None:
        prog.scans = {n: f for n, f in prog.funcs.items() if scan_roles(prog, f) and reaches_itself(prog, n)}
    return prog.scans


# ------------------------------------------------------------------ contracts used at calls
def c_newlinkarray(ex, st, args, ins):
    if len(args) != 1 or not z3.is_bv(args[0]):
        return NotImplemented
    cap = zx(args[0], 64)
    st.oblige('newLinkArray is asked for at most 16 slots', ULE(cap, bv(16, 64)), ('C08',), st.where())
    i = st.new_id()
    st.heap[i] = FreshArr(i, z3.simplify(If(cap == 0, bv(4, 64), round4(cap))), (), True)
    return Elem(('fresh', i), bv(0, 64))


def c_ptr(ex, st, args, ins):
    cx = ex.cx
    if len(args) != 2 or not isinstance(args[0], StructV) or len(args[0].fs) != 1:
        return NotImplemented
    r = args[0].fs[0]
    if r is NULL:
        raise NilDeref()
    if not isinstance(r, Root) or not (z3.is_expr(args[1]) and args[1].eq(cx.key)) or st.cells or st.elems or st.boxlog:
        return NotImplemented
    out = []
    for case in (cx.hit(), Not(cx.hit())):
        s = st.copy()
        s.node_facts(cx.D)
        s.slot_facts(cx.D)
        s.assume_branch(case)
        if not s.feasible():
            continue
        if len(out) == 0 and case is not None and s.valid(cx.hit()):
            fields = cx.box_fields(ex.boxty)
            v = BoxP(cxm.SP(cx.D, cx.ridx(cx.D)), (fields['val'],), ex.boxty)
            cx.note_box(ex.boxty, 'contract of Ptr')
            out.append((s, v))
        else:
            out.append((s, NULL))
    return out


def c_scan(roles, ex, st, args, ins):
    li, ci, conts = roles
    a, cb = args[li], args[ci]
    for j in conts:
        if not (isinstance(args[j], StructV) and len(args[j].fs) == 1 and isinstance(args[j].fs[0], Root)):
            return NotImplemented
    if a is NULL:
        raise NilDeref()
    if not isinstance(cb, CB):
        return NotImplemented
    if isinstance(a, PT):
        a = ex.resolve(st, a)
    if not isinstance(a, (Cell, Elem)):
        return NotImplemented
    n = st.new_id()
    r = z3.Bool('scanres_%d' % n)
    st.boxlog = st.boxlog + ((HAVOC, st.new_id()),)
    st.events = st.events + (('scan', st.norm_addr(a), r),)
    return r


def box_type_of(prog, cont, flavour, is_set):
    """The box type the container's Ptr reads (from its own code)."""
    f = find_method(prog, cont, 'Ptr' if not is_set else 'Has')
    seen = []
    work, done = [f], set()
    while work:
        g = work.pop()
        if g is None or g.name in done:
            continue
        done.add(g.name)
        for b in g.blocks:
            for i in b['ins']:
                if i['op'] == 'convert':
                    t = prog.types[i['t']]
                    if t['kind'] == 'pointer':
                        e = t['elem']
                        u = prog.under(e)
                        if u['kind'] == 'struct' and prog.types[e].get('name') not in ('link', 'root'):
                            seen.append(e)
                if i['op'] == 'call' and i.get('fn') and i['fn'].get('k') == 'func':
                    work.append(prog.funcs.get(i['fn']['n']))
    return seen[0] if seen else None


# ------------------------------------------------------------------ start states
def bind_params(ex, st, f, rootnull):
    cx, prog = ex.cx, ex.prog
    regs = []
    for n, p in enumerate(f.params):
        u = prog.under(p['t'])
        if n == 0:
            regs.append(StructV([NULL if rootnull else Root()]))
            continue
        if u['kind'] in ('signature', 'func'):
            regs.append(CB(p['n']))
            continue
        s = sort_of(prog, p['t'])
        if cx.flavour == 'int' and z3.is_bv_sort(s) if hasattr(z3, 'is_bv_sort') else (cx.flavour == 'int' and isinstance(s, z3.BitVecSortRef) and s.size() == 64):
            regs.append(cx.key)
        elif s is Key:
            regs.append(cx.key)
        elif s is Val:
            regs.append(cx.value)
        else:
            raise Unsupported('parameter ' + p['n'])
    return regs


def root_fields(prog, cx, st):
    fs = {'seed': cx.seed, 'len': cx.len0, 'dep': cx.dep0}
    for f in prog.struct_fields(prog.decls['root']):
        try:
            so = sort_of(prog, f['type'])
        except Unsupported:
            continue
        if f['name'] in ('len', 'dep'):
            if isinstance(so, z3.BitVecSortRef) and so.size() < 64:
                # a narrower counter holds the total as long as it fits
                v = fs[f['name']]
                fs[f['name']] = z3.Extract(so.size() - 1, 0, v)
                st.assume(ULT(v, bv(1 << so.size(), 64)))
        elif f['name'] != '_' and f['name'] not in fs and isinstance(so, (z3.BitVecSortRef, z3.BoolSortRef)):
            # a field no contract describes: it may hold anything
            fs[f['name']] = z3.Const('hv!root.' + f['name'], so)
    return fs


def start(prog, f, cont, flavour, is_set, op, mode, rootnull=False, bound=None):
    cx = Cx(prog, flavour, is_set, op, mode)
    if bound:
        cx.bounded = bound
        cx.D, cx.S = bv(bound[0], 8), bv(bound[1], 8)
    cx.rootnull = rootnull
    ex = Exec(cx, {})
    ex.loop_handler = loops.handle
    ex.boxty = box_type_of(prog, cont, flavour, is_set) if cont else None
    ex.valtype = None
    st = State(cx)
    st.rootf = root_fields(prog, cx, st)
    cx.totals = bool(cont) and not rootnull and (mode == 'route' or op == 'All')
    ex.contracts[prog.pkg + '.newLinkArray'] = c_newlinkarray
    for n, g in scan_functions(prog).items():
        ex.contracts[n] = functools.partial(c_scan, scan_roles(prog, g))
    if op in ('Get', 'Val') and ex.boxty is not None:
        g = find_method(prog, cont, 'Ptr')
        if g is not None and g is not f:
            ex.contracts[g.name] = c_ptr
    return ex, st


def run_states(ex, st):
    res = ex.run(st)
    outs = [s for _, s in res]
    return outs, list(ex.deads)


def finish(R, ex, C, states, deads, t0):
    """Check every obligation: those met on the way and the contract clauses."""
    seen = {}
    for s in list(states) + list(deads):
        for o in s.obls:
            seen.setdefault(id(o), o)
        gl = sorted({w[1] for w in s.writes if w[0] == 'global'})
        C.ensures(s, 'no memory outside the container is written', not gl, ('C14', 'C09'), ', '.join('package variable ' + g for g in gl))
    todo = list(seen.values()) + C.items
    memo = {}
    for o in todo:
        key = (frozenset(f.get_id() for f in o.pc), o.f.get_id(), o.name)
        if key in memo:
            continue
        if o.status == 'proved':
            r = 'proved'
        elif z3.is_true(o.f):
            r = 'proved'
        else:
            c = check(o.pc + [Not(o.f)])
            r = {'unsat': 'proved', 'sat': 'refuted'}.get(c, 'unknown')
            if r == 'refuted' and o.name not in WRITES and any(y.startswith('hv!') for f in o.pc + [o.f] for y in symbols(f)):
                # a loop variable about which no invariant was found
                r = 'unknown'
        memo[key] = r
        detail = o.where or ''
        if r == 'refuted':
            detail = (detail + ' ' + model_text(o)).strip()
        R.obligations.append((o.name, list(o.tags), r, detail))
    st = [x[2] for x in R.obligations]
    if 'refuted' in st:
        R.status = 'refuted'
    elif 'unknown' in st and R.status == 'ok':
        R.status = 'undecided'
        R.reason = 'solver gave no answer for: ' + ', '.join(sorted({x[0] for x in R.obligations if x[2] == 'unknown'}))
    R.queries, R.solver, R.by = Stats.queries, Stats.time, dict(Stats.by)
    R.wall = time.time() - t0
    R.loops = ex.cx.notes
    R.inlined = sorted(ex.cx.inlined)
    R.callees = sorted(ex.cx.callees)
    R.boxes = [(lay, w) for lay, (ty, w) in ex.cx.boxtypes.items()]


WRITES = ('nothing shared is written', 'no memory outside the container is written')


def model_text(o):
    """A readable part of the solver's counterexample."""
    r, m = check(o.pc + [Not(o.f)], want_model=True)
    if r != 'sat' or m is None:
        return ''
    out = []
    for d in m.decls():
        if d.arity() == 0 and d.name() in ('D', 'S', 'key', 'len0', 'dep0', 'iter', 'capacity'):
            out.append('%s=%s' % (d.name(), m[d]))
    for fn in (cxm.CPM, cxm.CTM):
        D = z3.BitVec('D', 8)
        v = m.eval(fn(D), model_completion=False)
        if z3.is_bv_value(v):
            out.append('%s(D)=%#x' % (fn.name(), v.as_long()))
    return 'counterexample: ' + ' '.join(out)


def verify_op(prog, cont, flavour, is_set, op, bound=None):
    f = find_method(prog, cont, op)
    R = Result('%s.%s%s' % (cont, op, ' (route ends at level %d, keys part at level %d)' % bound if bound else ''), 'method')
    t0 = time.time()
    if f is None:
        R.status, R.reason = 'undecided', 'method not found'
        return R
    R.func = f.name
    ex = None
    try:
        mode = 'scan' if op == 'All' else 'route'
        ex, st = start(prog, f, cont, flavour, is_set, op, mode, False, bound)
        cx = ex.cx
        if bound:
            for k in range(bound[0] + 1):
                st.node_facts(bv(k, 8))
                st.slot_facts(bv(k, 8))
            for k in range(bound[0], bound[1] + 1):
                st.assume(*cx.sep_facts(bv(k, 8)))
            if op == 'Del':     # at most three branches collapse
                for k in range(1, bound[0] - 2):
                    st.assume(UGE(count(cxm.CPM(bv(k, 8))), 2))
        if mode == 'scan':
            cx.k0 = bv(0, 8)
        ex.push(st, f, bind_params(ex, st, f, False))
        for r in f.results[:1]:
            u = prog.under(r)
            if u['kind'] == 'pointer':
                ex.valtype = u['elem']
        states, deads = run_states(ex, st)
        R.paths = len(states)
        C = spec.Clauses(ex)
        rets = []
        for s in states:
            if s.kind == 'panic':
                s.oblige('no panic on an initialized container', z3.BoolVal(False), ('C08', 'C11'))
            else:
                rets.append(s)
        for s in deads:
            if s.kind == 'panic':
                s.oblige('no panic on an initialized container', z3.BoolVal(False), ('C08', 'C11'))
        cases = {}
        for s in rets:
            if mode == 'scan':
                spec.forks(s, lambda t: spec.all_post(ex, C, t))
                cases['all'] = cases.get('all', 0) + 1
            elif op in ('Nil', 'Len', 'Dep'):
                simple_post(ex, C, s, op)
                cases['all'] = cases.get('all', 0) + 1
            else:
                for case in spec.CASES:
                    t = s.copy()
                    t.node_facts(cx.D)
                    t.slot_facts(cx.D)
                    t.assume_branch(getattr(cx, case)())
                    if not t.feasible():
                        continue
                    cases[case] = cases.get(case, 0) + 1
                    fn = spec.lookup_post if op in READS else (spec.delete_post if op == 'Del' else spec.insert_post)
                    spec.forks(t, lambda u: fn(ex, C, u, case))
        R.cases = cases
        want = ['all'] if mode == 'scan' or op in ('Nil', 'Len', 'Dep') else list(spec.CASES)
        missing = [c for c in want if not cases.get(c)]
        if missing and not deads:
            R.status, R.reason = 'undecided', 'no path for case ' + ', '.join(missing)
        finish(R, ex, C, states, deads, t0)
    except Unsupported as e:
        R.status, R.reason = 'undecided', str(e)
        R.wall = time.time() - t0
        R.queries, R.solver, R.by = Stats.queries, Stats.time, dict(Stats.by)
    return R


def simple_post(ex, C, s, op):
    cx = ex.cx
    C.ensures(s, 'nothing shared is written', not s.writes, ('C09',))
    v = s.result
    if op == 'Nil':
        C.ensures(s, 'an initialized container is not nil', Not(v), ('C11',))
    elif op == 'Len':
        C.ensures(s, 'Len returns the recorded length', zx(v, 64) == cx.len0, ('C03',))
    else:
        C.ensures(s, 'Dep returns depth sum / length, 0 when empty',
                  v == If(cx.len0 == 0, zeroFlt, fdiv(toF(cx.dep0), toF(cx.len0))), ('C04',))


NULL_VALUE = {'Nil': True, 'Len': 0, 'Dep': 'flt', 'Val': 'val'}


def verify_null(prog, cont, flavour, is_set, op):
    """The method on an uninitialized container."""
    f = find_method(prog, cont, op)
    R = Result('%s.%s (uninitialized)' % (cont, op), 'method')
    t0 = time.time()
    if f is None:
        R.status, R.reason = 'undecided', 'method not found'
        return R
    R.func = f.name
    try:
        ex, st = start(prog, f, cont, flavour, is_set, op, 'scan' if op == 'All' else 'route', rootnull=True)
        ex.cx.k0 = bv(0, 8)
        ex.push(st, f, bind_params(ex, st, f, True))
        states, deads = run_states(ex, st)
        R.paths = len(states)
        C = spec.Clauses(ex)
        n = 0
        for s in states + deads:
            n += 1
            eff = not s.writes and not s.events
            C.ensures(s, 'uninitialized: no effect', eff, ('C11', 'C14'))
            if op in NULL_VALUE:
                C.ensures(s, 'uninitialized: does not panic', s.kind == 'ret', ('C11',))
                if s.kind == 'ret':
                    v, w = s.result, NULL_VALUE[op]
                    good = {'Nil': lambda: v, 'Len': lambda: v == 0, 'Dep': lambda: v == zeroFlt, 'Val': lambda: v == zeroVal}[op]()
                    C.ensures(s, 'uninitialized: %s' % {'Nil': 'reported nil', 'Len': 'length 0', 'Dep': 'depth 0', 'Val': 'zero value'}[op], good, ('C11',))
            else:
                C.ensures(s, 'uninitialized: panics', s.kind == 'panic', ('C11',))
        if n == 0:
            R.status, R.reason = 'undecided', 'no path'
        R.cases = {'uninitialized': n}
        finish(R, ex, C, [], [], t0)
    except Unsupported as e:
        R.status, R.reason = 'undecided', str(e)
        R.wall = time.time() - t0
    return R


def verify_scan(prog, fname, cont, flavour, is_set):
    f = prog.funcs[fname]
    R = Result(fname.split('.')[-1], 'function')
    R.func = fname
    t0 = time.time()
    try:
        ex, st = start(prog, f, cont, flavour, is_set, 'scan', 'scan')
        cx = ex.cx
        cx.k0 = z3.BitVec('k0', 8)
        regs = []
        li, ci, conts = scan_roles(prog, f)
        for n, p in enumerate(f.params):
            regs.append(Cell(cx.k0) if n == li else CB(p['n']) if n == ci else StructV([Root()]))
        ex.push(st, f, regs)
        states, deads = run_states(ex, st)
        R.paths = len(states)
        C = spec.Clauses(ex)
        for s in states:
            if s.kind == 'panic':
                s.oblige('no panic on an initialized container', z3.BoolVal(False), ('C08', 'C06'))
            else:
                spec.forks(s, lambda t: spec.scan_post(ex, C, t))
        R.cases = {'scan': len(states)}
        if not states:
            R.status, R.reason = 'undecided', 'no path'
        finish(R, ex, C, states, deads, t0)
    except Unsupported as e:
        R.status, R.reason = 'undecided', str(e)
        R.wall = time.time() - t0
    return R


HELPERS = ['newLinkArray', 'newRoot', 'HashBytes', 'Int.Hash', 'Int.Equal', 'String.Hash', 'String.Equal', 'Bytes.Hash', 'Bytes.Equal']


def verify_helper(prog, h):
    name = {'newLinkArray': prog.pkg + '.newLinkArray', 'newRoot': prog.pkg + '.newRoot', 'HashBytes': prog.pkg + '.HashBytes'}.get(h)
    if name is None:
        t, m = h.split('.')
        name = '(%s.%s).%s' % (prog.pkg, t, m)
    R = Result(h, 'function')
    R.func = name
    t0 = time.time()
    f = prog.funcs.get(name)
    if f is None:
        # not part of the exported interface: callers are checked without it
        R.status, R.reason = ('ok', 'absent') if h[0].islower() else ('undecided', 'function not found')
        return R
    try:
        cx = Cx(prog, 'int' if h.startswith('Int') else 'str', False, h, 'helper')
        cx.carve = False
        ex = Exec(cx, {})
        ex.loop_handler = loops.handle
        ex.boxty = None
        st = State(cx)
        regs = []
        iter_ = z3.BitVec('iter', 64)
        other = z3.BitVec('key2', 64) if h.startswith('Int') else z3.Const('key2', Key)
        nkeys = 0
        for p in f.params:
            if prog.is_named(p['t'], 'hash/maphash', 'Seed'):
                regs.append(cx.seed)
                continue
            u = prog.under(p['t'])
            if h == 'newLinkArray':
                cap = z3.BitVec('capacity', u['bits'])
                regs.append(cap)
            elif u['kind'] == 'basic' and u['name'] == 'uint':
                regs.append(iter_)
            else:
                regs.append(cx.key if nkeys == 0 else other)
                nkeys += 1
        if h == 'newLinkArray':
            st.assume(ULE(zx(cap, 64), bv(16, 64)))
        if h.endswith('Hash') or h == 'HashBytes':
            st.assume(iter_ != bv(2 ** 64 - 1, 64))
        ex.push(st, f, regs)
        states, deads = run_states(ex, st)
        R.paths = len(states)
        C = spec.Clauses(ex)
        for s in states:
            if s.kind == 'panic':
                C.ensures(s, 'no panic', False, ('C08', 'C12'))
                continue
            C.ensures(s, 'nothing shared is written', not s.writes and not s.events, ('C14',))
            v = s.result
            if h == 'newLinkArray':
                good = isinstance(v, Elem) and v.arr[0] == 'fresh' and isinstance(s.heap.get(v.arr[1]), FreshArr)
                C.ensures(s, 'a new array is returned', bool(good), ('C08', 'C14', 'C01', 'C02'))
                if good:
                    o = s.heap[v.arr[1]]
                    C.ensures(s, 'all its slots are zero', not o.log, ('C08', 'C05'))
                    want = If(zx(cap, 64) == 0, bv(4, 64), round4(zx(cap, 64)))
                    C.ensures(s, 'it has room for the capacity asked for', UGE(o.cap, zx(cap, 64)), ('C08', 'C01', 'C02', 'C16'))
                    C.ensures(s, 'it has exactly the rounded size', o.cap == want, ('C16',))
                    C.ensures(s, 'it has room up to the rounded size', UGE(o.cap, want), ('C08', 'C01', 'C02'))
            elif h == 'newRoot':
                root_post(ex, C, s, v)
            elif h.endswith('Hash') or h == 'HashBytes':
                want = cx.H(cx.key, iter_)
                C.ensures(s, 'hashes iter+1 copies of the content', v == want, ('C12',))
            else:
                C.ensures(s, 'equal exactly when the contents are', v == (cx.key == other), ('C12',))
        R.cases = {'all': len(states)}
        if not states and not deads:
            R.status, R.reason = 'undecided', 'no path'
        finish(R, ex, C, states, deads, t0)
    except Unsupported as e:
        R.status, R.reason = 'undecided', str(e)
        R.wall = time.time() - t0
    return R


def root_post(ex, C, s, v):
    """v is a new, empty, usable root."""
    good = isinstance(v, Ptr) and v.path == () and isinstance(s.heap.get(v.obj), Obj) and ex.is_root(s.heap[v.obj].ty)
    C.ensures(s, 'a new root is returned', bool(good), ('C11', 'C14', 'C08'))
    if not good:
        return
    o = s.heap[v.obj]
    fs = ex.prog.struct_fields(o.ty)
    for i, f in enumerate(fs):
        x = o.val.fs[i]
        if ex.is_link(f['type']):
            C.ensures(s, 'a new container holds no key', And(x.pm == 0, x.tm == 0), ('C11', 'C03', 'C01', 'C02', 'C08'))
            tgt = ex.resolve(s, PT(x.ptr))
            items = [j for j, g in enumerate(fs) if ex.is_linkarr(g['type'])]
            okp = isinstance(tgt, Ptr) and tgt.obj == v.obj and len(items) == 1 and tuple(tgt.path) in ((items[0],), (items[0], 0))
            C.ensures(s, 'the top level uses the embedded array of 16 slots',
                      bool(okp) and ex.prog.under(fs[items[0]]['type'])['len'] == 16, ('C11', 'C08', 'C16', 'C01', 'C02'))
        elif f['name'] == 'len':
            C.ensures(s, 'a new container has length 0', x == 0, ('C11', 'C03'))
        elif f['name'] == 'dep':
            C.ensures(s, 'a new container has depth sum 0', x == 0, ('C11', 'C04'))
        elif f['name'] == 'seed':
            C.ensures(s, 'a new container has a hash seed', x != zeroSeed, ('C11', 'C08'))


def verify_new(prog, cont):
    R = Result('New' + cont, 'function')
    R.func = prog.pkg + '.New' + cont
    t0 = time.time()
    f = prog.funcs.get(R.func)
    if f is None:
        R.status, R.reason = 'undecided', 'function not found'
        return R
    try:
        cx = Cx(prog, 'str', False, 'New', 'helper')
        cx.carve = False
        ex = Exec(cx, {})
        ex.loop_handler = loops.handle
        st = State(cx)
        ex.push(st, f, [])
        states, deads = run_states(ex, st)
        C = spec.Clauses(ex)
        for s in states:
            C.ensures(s, 'does not panic', s.kind == 'ret', ('C11', 'C08'))
            if s.kind != 'ret':
                continue
            C.ensures(s, 'nothing shared is written', not s.writes, ('C14',))
            v = s.result
            one = isinstance(v, StructV) and len(v.fs) == 1
            C.ensures(s, 'the container value is one pointer to its root', one, ('C14', 'C11'))
            if one:
                root_post(ex, C, s, v.fs[0])
        R.paths = len(states)
        R.cases = {'all': len(states)}
        if not states and not deads:
            R.status, R.reason = 'undecided', 'no path'
        finish(R, ex, C, states, deads, t0)
    except Unsupported as e:
        R.status, R.reason = 'undecided', str(e)
        R.wall = time.time() - t0
    return R


def tasks(prog):
    out = []
    for c, fl, s in CONTAINERS:
        for op in (SET_OPS if s else MAP_OPS):
            out.append(('op', c, fl, s, op))
            out.append(('null', c, fl, s, op))
        out.append(('new', c))
    for h in HELPERS:
        out.append(('helper', h))
    out.append(('lemma', 'set bits'))
    out.append(('lemma', 'histories'))
    for n in scan_functions(prog):
        c = scan_owner(prog, n)
        if c:
            out.append(('scan', n) + c)
    heavy = {'Set': 0, 'Mod': 0, 'Add': 0, 'Del': 1}
    out.sort(key=lambda t: heavy.get(t[4], 3) if t[0] == 'op' else 0 if t[0] == 'lemma' else 4)
    return out


def scan_owner(prog, n):
    for c, fl, s in CONTAINERS:
        f = find_method(prog, c, 'All')
        if f is not None:
            seen, work = set(), [f.name]
            while work:
                x = work.pop()
                if x in seen or x not in prog.funcs:
                    continue
                seen.add(x)
                work += list(prog.funcs[x].callees())
            if n in seen:
                return (c, fl, s)
    return None


def verify_lemma(what, prop):
    from . import lemmas
    t0 = time.time()
    R = Result(what, 'lemma')
    if what == 'histories':
        res, dt = lemmas.lean(prop)
        R.by = {'lean': len(res)}
        R.solver = dt
    else:
        res = lemmas.smt()
        R.by, R.solver = dict(Stats.by), Stats.time
    R.queries = len(res)
    for name, ok, detail in res:
        R.obligations.append((name, [prop] if prop else [], 'proved' if ok else 'unknown', detail))
        if not ok:
            R.status, R.reason = 'undecided', name
    R.wall = time.time() - t0
    return R


def run_task(prog, t, prop=None):
    terms.clear_cache()
    Stats.queries, Stats.time, Stats.slow, Stats.unknown, Stats.by = 0, 0.0, [], 0, {}
    try:
        if t[0] in ('op', 'bounded'):
            return verify_op(prog, *t[1:])
        if t[0] == 'null':
            return verify_null(prog, *t[1:])
        if t[0] == 'scan':
            return verify_scan(prog, t[1], *t[2:])
        if t[0] == 'new':
            return verify_new(prog, t[1])
        if t[0] == 'lemma':
            return verify_lemma(t[1], prop)
        return verify_helper(prog, t[1])
    except Exception as e:
        R = Result('.'.join(str(x) for x in t[1:] if isinstance(x, str)), 'error')
        R.status, R.reason = 'undecided', 'internal: %s: %s' % (type(e).__name__, e)
        R.trace = traceback.format_exc()
        return R


def container_checks(prog, results):
    """Agreements between the functions of one container: (name, tags, ok, why)."""
    out = []
    for c, fl, s in CONTAINERS:
        lays = {}
        for t, R in results.items():
            if (t[0] == 'op' and t[1] == c) or (t[0] == 'scan' and t[2] == c):
                for lay, w in R.boxes:
                    lays.setdefault(lay, []).append(R.name)
        if lays:
            ok = len(lays) == 1
            out.append(('%s: one layout of stored entries in all functions' % c, ('C01', 'C02', 'C06', 'C07', 'C08', 'C13'), ok,
                        '' if ok else '; '.join('%s: %s' % (k, ','.join(v)) for k, v in lays.items())))
    return out
