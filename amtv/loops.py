"""Loop rule: closed-form inductive invariants.

For every loop the executor asks for an invariant of the form "after n
iterations the state is F(n)". Candidate closed forms come from a fixed library
(the route of the key, hash digits, ranks, linear counters, link-array shifts,
...); they are assumed at the head of the loop, the body is executed once for an
arbitrary iteration, and every candidate that is not re-established on every
back edge is dropped (Houdini). What remains is an inductive invariant checked
by the solver; it covers every number of iterations. Termination needs a bound
on the iteration counter that is itself inductive."""
import z3
from .terms import *
from .state import *
from .execu import get_path, NilDeref
from . import cx as cxm


import os
DEBUG = os.environ.get('AMTV_DEBUG')


class StratFail(Exception):
    pass


def region_stop(depth, func, header):
    blocks = func.loops[header]

    def stop(st, fr, src, tgt):
        if len(st.frames) != depth or fr.func is not func:
            return None
        if tgt == header:
            return ('back', src)
        if tgt not in blocks:
            return ('exit', src, tgt)
        return None
    return stop


def same(st, a, b):
    """Provably equal values?"""
    if a is b:
        return True
    if z3.is_expr(a) and z3.is_expr(b):
        return a.sort() == b.sort() and st.valid(a == b)
    if isinstance(a, PT) and isinstance(b, PT):
        return st.valid(a.t == b.t)
    if isinstance(a, AddrInt) and isinstance(b, AddrInt) and a.idx is not None and b.idx is not None:
        return same(st, a.base, b.base) and st.valid(a.idx == b.idx)      # offset = 16 * index
    a, b = st.norm_addr(a), st.norm_addr(b)
    if isinstance(a, Cell) and isinstance(b, Cell):
        return st.valid(a.k == b.k)
    if isinstance(a, Elem) and isinstance(b, Elem) and a.arr[0] == b.arr[0]:
        if a.arr[0] == 'fresh':
            return a.arr[1] == b.arr[1] and st.valid(a.i == b.i)
        return st.valid(And(a.arr[1] == b.arr[1], a.i == b.i))
    if isinstance(a, SliceV) and isinstance(b, SliceV):
        return a.obj == b.obj and st.valid(And(a.off == b.off, a.len == b.len))
    if type(a) is type(b) and isinstance(a, Val_):
        fa = [getattr(a, n) for n in a._f]
        fb = [getattr(b, n) for n in b._f]
        return all(x is y or (isinstance(x, (str, int, tuple, list, type(None))) and str(x) == str(y)) or
                   (isinstance(x, (Val_, z3.ExprRef)) and not isinstance(x, str) and same(st, x, y)) for x, y in zip(fa, fb))
    return False


def filter_valid(pc, items):
    """items: [(tag, formula)] -> those whose formula follows from pc."""
    alive = []
    for t, f in items:
        f = z3.simplify(f)
        if z3.is_false(f):
            continue
        alive.append((t, f))
    out = [x for x in alive if z3.is_true(x[1])]
    alive = [x for x in alive if not z3.is_true(x[1])]
    while alive:
        r, m = check(pc + [Or([Not(f) for _, f in alive])], want_model=True)
        if r == 'unsat':
            break
        if r == 'sat':
            n = [x for x in alive if z3.is_true(m.eval(x[1], model_completion=True))]
            if len(n) < len(alive):
                alive = n
                continue
        alive = [x for x in alive if check(pc + [Not(x[1])]) == 'unsat']
        break
    return out + alive


def linear_cands(init, it):
    w = init.size()
    itw = zx(it, w)
    out = []
    for c in (0, 1, -1, 4, -4, 16, 2, -2, -16, 3):
        out.append(('init%+d*n' % c if c else 'unchanged', init + itw * bv(c % (1 << w), w) if c else init))
    if w >= 32:
        for c in (1, 4):
            sh = If(ULT(zx(it, 64), bv(w, 64)), itw * bv(c, w), bv(w, w))
            out += [('init>>%d*n' % c, z3.LShR(init, sh)), ('init<<%d*n' % c, init << sh)]
    return out


def moving(S, v):
    """Addresses that advance by one link per iteration."""
    out = []
    for c in (1, -1):
        if isinstance(v, AddrInt):
            out.append(('address%+d*n' % c, lambda g, c=c: AddrInt(v.base, v.off + zx(S.it(g), 64) * bv(16 * c % 2 ** 64, 64),
                                                                  None if v.idx is None else v.idx + zx(S.it(g), 64) * bv(c % 2 ** 64, 64))))
        elif isinstance(v, Elem):
            out.append(('slot%+d*n' % c, lambda g, c=c: Elem(v.arr, v.i + zx(S.it(g), 64) * bv(c % 2 ** 64, 64))))
    return out


def fit(t, w):
    return zx(t, w)


def level_pool(cx, L, keys):
    out = [('level', L)]
    for n, kap in keys:
        d = cx.dig(kap, L)
        out += [('digit(%s)' % n, d), ('hash(%s)>>used' % n, cx.hsh(kap, L)), ('1<<digit(%s)' % n, bit32(d)),
                ('hash(%s)' % n, cx.H(kap, zx(z3.LShR(L, 4), 64)))]
        if n == 'key':
            out += [('rank', rank(cxm.CPM(L), d)), ('pmap&bit', cxm.CPM(L) & bit32(d)), ('tmap&bit', cxm.CTM(L) & bit32(d))]
    out += [('pmap', cxm.CPM(L)), ('tmap', cxm.CTM(L)), ('count', count(cxm.CPM(L))),
            ('level/16+1', zx(z3.LShR(L, 4), 64) + 1), ('level/16', zx(z3.LShR(L, 4), 64)),
            ('level%16', L & 15), ('4*(level%16)', (L & 15) * 4), ('level+1', L + 1)]
    return out


def bool_pool(cx, L):
    b = cx.dig(cx.key, L)
    return [('present', hasbit(cxm.CPM(L), b)), ('absent', Not(hasbit(cxm.CPM(L), b))),
            ('branch', And(hasbit(cxm.CPM(L), b), Not(hasbit(cxm.CTM(L), b)))),
            ('leaf', hasbit(cxm.CTM(L), b)), ('notleaf', Not(hasbit(cxm.CTM(L), b)))]


class Strategy:
    name = '?'
    guardprev = False
    havoc = False       # values of existing entries written by callbacks in the loop

    def __init__(self, ex, entry, func, header):
        self.ex, self.entry, self.func, self.header = ex, entry, func, header
        self.cx = ex.cx
        self.extra_inv = []

    def inv(self, g):
        return []

    def instantiate(self, st, g):
        pass

    def pool(self, g):
        return []

    def bools(self, g):
        return [('true', z3.BoolVal(True)), ('false', z3.BoolVal(False))]

    def ptr_cands(self):
        return []

    def setup(self, st):
        pass

    def check_mem(self, hs, back):
        """Memory at a back edge. True if consistent with the closed form at gn;
        may raise StratFail; may return 'restart' after refining itself."""
        if back.cells is not hs.cells or back.elems is not hs.elems:
            raise StratFail('link memory is modified')
        for i, o in hs.heap.items():
            if isinstance(o, FreshArr) and back.heap[i] is not o:
                raise StratFail('link memory is modified')
        return True

    def split_stops(self, hs, backs):
        """Back edges taken after a stop request are followed to the end of the loop
        instead of being part of the induction."""
        return backs, []

    def check_events(self, hs, back):
        if back.events is not hs.events:
            raise StratFail('callback called in the loop')

    def seq_form(self, o, st):
        return SeqO(None, (), o.scratch, o.ety)

    def seq_check(self, hs, back, oid):
        return True

    def slice_form(self, v, st):
        return None

    def done_checks(self, hs, backs, exits):
        pass

    def exit_level(self):
        """The only level at which the loop can be left, if there is one."""
        return None


def modified_locs(hs, back):
    """Non-phi scalar locations whose value at the back edge is a different term."""
    out = []
    for n, v in hs.rootf.items():
        if not back.rootf[n].eq(v):
            out.append(('root', n))
    for i, o in hs.heap.items():
        b = back.heap.get(i)
        if b is o:
            continue
        if isinstance(o, HashO):
            out.append(('hash', i, ()))
        elif isinstance(o, SeqO):
            out.append(('seq', i))
        elif isinstance(o, Obj):
            for p in diff_paths(o.val, b.val, ()):
                if isinstance(get_path(o.val, p), HashO):
                    out.append(('hash', i, p))
                else:
                    out.append(('obj', i, p))
    return out


def diff_paths(a, b, p):
    if a is b:
        return []
    if isinstance(a, StructV) and isinstance(b, StructV):
        return [q for i, (x, y) in enumerate(zip(a.fs, b.fs)) for q in diff_paths(x, y, p + (i,))]
    if isinstance(a, ArrV) and isinstance(b, ArrV):
        return [q for i, (x, y) in enumerate(zip(a.es, b.es)) for q in diff_paths(x, y, p + (i,))]
    if z3.is_expr(a) and z3.is_expr(b) and a.eq(b):
        return []
    return [p]


def get_hash(st, loc):
    o = st.heap[loc[1]]
    return o if loc[2] == () else get_path(o.val, loc[2])


def set_hash(ex, st, loc, h):
    if loc[2] == ():
        st.heap[loc[1]] = h
    else:
        o = st.heap[loc[1]]
        st.heap[loc[1]] = Obj(o.ty, ex.set_path(st, o.val, loc[2], h))


def get_loc(st, loc):
    if loc[0] == 'phi':
        return st.frames[-1].regs[loc[1]]
    if loc[0] == 'root':
        return st.rootf[loc[1]]
    if loc[0] == 'hash':
        return get_hash(st, loc).n
    if loc[0] == 'obj':
        return get_path(st.heap[loc[1]].val, loc[2])
    return None


def set_loc(ex, st, loc, v):
    if loc[0] == 'phi':
        st.frames[-1].regs[loc[1]] = v
    elif loc[0] == 'root':
        st.rootf[loc[1]] = v
    elif loc[0] == 'hash':
        h = get_hash(st, loc)
        set_hash(ex, st, loc, HashO(h.seed, h.content, v))
    elif loc[0] == 'obj':
        o = st.heap[loc[1]]
        st.heap[loc[1]] = Obj(o.ty, ex.set_path(st, o.val, loc[2], v))


def phi_edges(func, header):
    return [i for i in func.blocks[header]['ins'] if i['op'] == 'phi']


def edge_value(ex, st, phi, func, header, src):
    pi = func.blocks[header]['preds'].index(src)
    e = phi['edges'][pi]
    if e['k'] == 'reg':
        return st.frames[-1].regs.get(e['n'], UNDEF)
    return ex.val(st, e)


def run_strategy(ex, S):
    """Returns exits [(state, src, tgt)]."""
    entry, func, header = S.entry, S.func, S.header
    depth = len(entry.frames)
    phis = phi_edges(func, header)
    src0 = entry.frames[-1].block
    init = {('phi', p['r']): edge_value(ex, entry, p, func, header, src0) for p in phis}
    hashcontent = {}
    cands = {}          # loc -> list of (name, fn(g)) alive, in order of preference
    ptrs = {}           # loc -> list of (name, fn(g,st)) alive
    slices = {}
    S.newwrites = ()

    def scalar_cands(loc, v):
        out = []
        if z3.is_bool(v):
            for n, _ in S.bools(S.g):
                out.append((n, lambda g, n=n: dict(S.bools(g))[n]))
            out.append(('unchanged', lambda g: v))
        else:
            w = v.size()
            for idx, (n, t) in enumerate(S.pool(S.g)):
                if t.size() < w or t.size() >= w:
                    out.append((n, lambda g, idx=idx, w=w: fit(S.pool(g)[idx][1], w)))
            lin = [(n, lambda g, j=j: linear_cands(v, S.it(g))[j][1]) for j, (n, _) in enumerate(linear_cands(v, S.it(S.g)))]
            if S.linear_first:
                out = lin + out
            else:
                out = out + lin
        ok = filter_valid(entry.pc + S.entry_facts, [(i, c[1](S.g0) == v) for i, c in enumerate(out)])
        keep = {i for i, _ in ok}
        return [c for i, c in enumerate(out) if i in keep]

    S.entry_facts = []
    tmp = entry.copy()
    S.instantiate(tmp, S.g0)
    S.entry_facts = tmp.pc[len(entry.pc):]
    for f in S.inv(S.g0):
        if check(entry.pc + S.entry_facts + [Not(f)]) != 'unsat':
            raise StratFail('invariant does not hold on entry')
    for loc, v in init.items():
        if z3.is_bv(v) or z3.is_bool(v):
            cands[loc] = scalar_cands(loc, v)
        elif isinstance(v, (SliceV, NilSlice)):
            slices[loc] = 'unchanged'
        else:
            pc = [(n, fn) for n, fn in S.ptr_cands() if v is not UNDEF and same(tmp, fn(S.g0), v)]
            if v is not UNDEF:
                pc.append(('unchanged', lambda g, v=v: v))
                pc += moving(S, v)
            ptrs[loc] = pc
    mods = {}
    mark = len(ex.deads)

    def header_state():
        hs = entry.copy()
        S.instantiate(hs, S.g)
        hs.assume(*S.inv(S.g))
        hs.assume(*S.extra_inv)
        S.setup(hs)
        if S.havoc:
            hs.boxlog = hs.boxlog + ((HAVOC, hs.new_id()),)
        hs.writes = hs.writes + S.newwrites
        f = hs.frames[-1]
        f.prev, f.block, f.ip = src0, header, len(phis)
        values.clear()
        for loc in list(cands):
            v0 = init.get(loc, mods.get(loc))
            if cands[loc]:
                val = z3.simplify(cands[loc][0][1](S.g))
                hs.assume(*[c[1](S.g) == val for c in cands[loc][1:]])
            else:
                val = z3.FreshConst(v0.sort(), 'hv')
            values[loc] = val
            if loc[0] == 'hash':
                h = get_hash(hs, loc)
                set_hash(ex, hs, loc, HashO(h.seed, hashcontent.get(loc, h.content), val))
            else:
                set_loc(ex, hs, loc, val)
        for loc in ptrs:
            v = ptrs[loc][0][1](S.g) if ptrs[loc] else UNDEF
            set_loc(ex, hs, loc, v)
        for loc in list(mods):
            if loc[0] == 'seq':
                hs.heap[loc[1]] = S.seq_form(entry.heap[loc[1]], hs)
        for loc in slices:
            if slices[loc] == 'unchanged':
                set_loc(ex, hs, loc, init[loc])
            elif slices[loc] == 'form':
                v = S.slice_form(init[loc], hs)
                set_loc(ex, hs, loc, v)
            else:
                set_loc(ex, hs, loc, UNDEF)
        return hs

    values = {}
    for rnd in range(40):
        del ex.deads[mark:]
        hs = header_state()
        S.hs = hs
        base = hs.copy()
        res = ex.run(hs, region_stop(depth, func, header))
        hs = base
        backs = [(lab, s) for lab, s in res if lab[0] == 'back']
        exits = [(s, lab[1], lab[2]) for lab, s in res if lab[0] == 'exit']
        others = [s for lab, s in res if lab[0] not in ('back', 'exit')]
        if any(s.kind != 'panic' for s in others):
            raise StratFail('return inside loop')
        ex.deads += others
        restart = False
        backs, stopped = S.split_stops(hs, backs)
        # 1. modified locations
        for lab, s in backs:
            for loc in modified_locs(hs, s):
                if loc[0] == 'seq' and loc[1] not in entry.heap:
                    continue
                if loc in mods or loc in cands or loc in ptrs:
                    continue
                restart = True
                if loc[0] == 'seq':
                    mods[loc] = True
                    continue
                v0 = get_loc(entry, loc)
                mods[loc] = v0
                if loc[0] == 'hash':
                    h0, h1 = get_hash(entry, loc), get_hash(s, loc)
                    if not (h0.seed is h1.seed or (h0.seed is not None and h1.seed is not None and h0.seed.eq(h1.seed))):
                        raise StratFail('hash reseeded in loop')
                    if h0.content is None and h1.content is not None and not isinstance(h1.content, tuple):
                        hashcontent[loc] = h1.content
                    cands[loc] = scalar_cands(loc, v0)
                elif z3.is_bv(v0) or z3.is_bool(v0):
                    cands[loc] = scalar_cands(loc, v0)
                else:
                    ptrs[loc] = [(n, fn) for n, fn in S.ptr_cands() if same(tmp, fn(S.g0), v0)]
        if DEBUG:
            print('round', rnd, S.name, 'backs', len(backs), 'exits', len(exits), 'mods', list(mods), 'slices', slices,
                  {loc_name(l): (c[0][0] if c else None) for l, c in list(cands.items()) + list(ptrs.items())}, 'restart', restart)
        if restart:
            continue
        # 2. slices, pointers
        for lab, s in backs:
            if restart:
                break
            src = lab[1]
            bv_ = {('phi', p['r']): edge_value(ex, s, p, func, header, src) for p in phis}
            for loc in slices:
                if slices[loc] == 'undef':
                    continue
                v = bv_[loc]
                if slices[loc] == 'unchanged':
                    if not (isinstance(v, type(init[loc])) and same(s, v, init[loc])):
                        slices[loc] = 'form' if S.slice_form(init[loc], None) else 'undef'
                        restart = True
                else:
                    if not S.slice_check(s, v, init[loc]):
                        slices[loc] = 'undef'
                        restart = True
            for loc in ptrs:
                if not ptrs[loc]:
                    continue
                v = bv_[loc] if loc[0] == 'phi' else get_loc(s, loc)
                S.instantiate(s, S.gn)
                if not (v is not UNDEF and same(s, v, ptrs[loc][0][1](S.gn))):
                    ptrs[loc].pop(0)        # the next one is tried with its own value at the head
                    restart = True
        if restart:
            continue
        # 4. scalar candidates (Houdini)
        for lab, s in backs:
            src = lab[1]
            items = []
            for loc in cands:
                if loc[0] == 'phi':
                    p = [p for p in phis if p['r'] == loc[1]][0]
                    v = edge_value(ex, s, p, func, header, src)
                else:
                    v = get_loc(s, loc)
                    if loc[0] == 'hash':
                        h0, h1 = get_hash(hs, loc), get_hash(s, loc)
                        if isinstance(h1.content, tuple) or (h0.content is None) != (h1.content is None) or \
                                (h0.content is not None and not same(s, h0.content, h1.content)) or not same(s, h0.seed, h1.seed):
                            raise StratFail('hash contents vary in loop')
                if v is UNDEF:
                    cands[loc] = []
                    continue
                for i, c in enumerate(cands[loc]):
                    items.append(((loc, i), c[1](S.gn) == v))
            ok = {t for t, _ in filter_valid(s.pc, items)}
            for loc in cands:
                n = [c for i, c in enumerate(cands[loc]) if (loc, i) in ok]
                if len(n) != len(cands[loc]):
                    restart = True      # it was assumed at the head
                    cands[loc] = n
        if restart:
            continue
        if S.guardprev:
            if S.strengthen(hs, backs, len(entry.branch), init, values) == 'restart':
                continue
        # 3. memory and events
        for lab, s in backs:
            S.instantiate(s, S.gn)
            nw = s.writes[len(hs.writes):]
            if nw and not S.newwrites:
                S.newwrites = nw
            S.check_events(hs, s)
            if s.boxlog is not hs.boxlog:
                if s.boxlog[:len(hs.boxlog)] != hs.boxlog or not all(x[0] is HAVOC or x[3:] for x in s.boxlog[len(hs.boxlog):]):
                    raise StratFail('stored value modified in loop')
                if not S.havoc:     # values written by callbacks
                    S.havoc = True
                    restart = True
                    break
            if S.check_mem(hs, s) == 'restart':
                restart = True
                break
            for loc in mods:
                if loc[0] == 'seq':
                    r = S.seq_check(hs, s, loc[1])
                    if not r:
                        raise StratFail('path contents')
                    if r == 'restart':
                        restart = True
            if restart:
                break
        if restart:
            continue
        # 5. invariants preserved
        for lab, s in backs:
            for fml in S.inv(S.gn):
                if not s.valid(fml):
                    raise StratFail('invariant not preserved')
        S.done_checks(hs, backs, exits)
        T = S.exit_level()
        if T is not None and exits and all(s.valid(S.g == T) for s, _, _ in exits):
            # the loop is left at level T only: take the exits from the header state at T
            keepdeads = list(ex.deads)
            S.g, S.gn = T, z3.simplify(T + 1)
            res = ex.run(header_state(), region_stop(depth, func, header))
            ex.deads[:] = keepdeads
            exits = [(s, lab[1], lab[2]) for lab, s in res if lab[0] == 'exit']
        break
    else:
        raise StratFail('no fixpoint')
    if stopped:
        exits = exits + run_stopped(ex, stopped, depth, header)
    # commit
    inv_desc = {}
    for loc in cands:
        inv_desc[loc_name(loc)] = cands[loc][0][0] if cands[loc] else 'any'
    for loc in ptrs:
        inv_desc[loc_name(loc)] = ptrs[loc][0][0] if ptrs[loc] else 'any'
    ex.cx.notes.append(dict(func=func.name, pos=func.blocks[header]['ins'][0].get('pos', ''), header=header,
                            strategy=S.name, invariant=inv_desc, backs=len(backs), exits=len(exits)))
    extra = []
    for loc in list(cands) + list(ptrs):
        o = Obligation('loop invariant preserved: %s = %s' % (loc_name(loc), inv_desc[loc_name(loc)]), ('C08',), [], z3.BoolVal(True), '')
        o.status = 'proved'
        extra.append(o)
    o = Obligation('loop terminates (%s)' % S.name, ('C08',), [], z3.BoolVal(True), '')
    o.status = 'proved'
    extra.append(o)
    for lab, s in backs:
        extra += [x for x in s.obls if x not in entry.obls]
    for s, a, b in exits:
        have = {id(x) for x in s.obls}
        s.obls = s.obls + tuple(x for x in extra if id(x) not in have)
    return exits


def run_stopped(ex, stopped, depth, header):
    """States at the head of a scan loop after a stop request: the rest of the loop is
    executed. A state in which something else was visited since breaks the contract
    already; of those only the ones that leave the loop at once are kept."""
    out, todo = [], [(lab, s, len(s.events)) for lab, s in stopped]
    for n in range(20):
        nxt = []
        for lab, s, m in todo:
            s = s.copy()
            over = len(s.events) > m
            ex.enter(s, lab[1], header)
            for l, t in ex.run(s, region_stop(depth, s.frames[-1].func, header)):
                if l[0] == 'exit':
                    out.append((t, l[1], l[2]))
                elif l[0] == 'back':
                    if not over:
                        nxt.append((l, t, m))
                elif t.kind == 'panic':
                    ex.deads.append(t)
                else:
                    raise StratFail('return inside loop')
        todo = nxt
        if not todo:
            return out
        if len(todo) > 60:
            break
    raise StratFail('continues after a stop request')


def loc_name(loc):
    return '.'.join(str(x) for x in loc)


# ------------------------------------------------------------------ strategies
class Descend(Strategy):
    """g = level; the link pointer walks the key's route."""
    name = 'walk down the key\'s route'
    linear_first = False

    def __init__(self, ex, entry, func, header, start):
        super().__init__(ex, entry, func, header)
        self.g = z3.BitVec('k%d' % entry.new_id(), 8)
        self.g0 = start
        self.gn = self.g + 1
        self.plain = set()

    def it(self, g):
        return zx(g - self.g0, 64)

    def inv(self, g):
        return [ULE(g, self.cx.D), UGE(g, self.g0)]

    def instantiate(self, st, g):
        st.node_facts(g)
        st.slot_facts(g)

    def exit_level(self):
        return self.cx.D

    def pool(self, g):
        return level_pool(self.cx, g, [('key', self.cx.key)])

    def bools(self, g):
        return super().bools(g) + bool_pool(self.cx, g)

    def ptr_cands(self):
        return [('route cell', lambda g: Cell(g)), ('parent cell', lambda g: Cell(g - 1)),
                ('slot', lambda g: Elem(('route', g), self.cx.ridx(g)))]

    def slice_form(self, v, st):
        if not isinstance(v, SliceV):
            return None
        if st is None:
            return self.entry.decide(And(v.len == zx(self.g0, 64), v.off == 0)) is True
        return make_path(st, self.cx, zx(self.g, 64), self.entry.heap[v.obj])

    def slice_check(self, s, v, init):
        return check_path(s, self.ex, v, zx(self.gn, 64), zx(self.gn, 64))

    # an array filled as the route is walked: its first elements are the route
    def seq_form(self, o, st):
        i = [i for i, x in self.entry.heap.items() if x is o][0]
        if i in self.plain or self.entry.decide(self.g0 == 0) is not True or self.cx.prog.under(path_ety(self.cx, o))['kind'] != 'struct':
            self.plain.add(i)
            return SeqO(None, (), o.scratch, o.ety)
        cx, ety, g = self.cx, path_ety(self.cx, o), self.g

        def base(s, j):
            if s.decide(ULT(j, zx(g, 64))) is True:
                return path_elem(cx, ety, j)
            return UNDEF
        return SeqO(base, (), o.scratch, ety)

    def seq_check(self, hs, s, oid):
        if oid in self.plain or check_path(s, self.ex, SliceV(oid, bv(0, 64), bv(0, 64), bv(0, 64)), bv(0, 64), zx(self.gn, 64)):
            return True
        self.plain.add(oid)
        return 'restart'


def path_elem(cx, ety, j):
    """Element j of the recorded path: the key's digit at level j and the cell of level j."""
    j8 = zx(j, 8)
    fs = []
    for f in cx.prog.struct_fields(ety):
        u = cx.prog.under(f['type'])
        if u['kind'] == 'basic' and 'bits' in u:
            fs.append(zx(cx.dig(cx.key, j8), u['bits']))
        else:
            fs.append(Cell(j8))
    return StructV(fs)


def path_ety(cx, o):
    if o.ety is not None:
        return o.ety
    t = cx.prog.decls['root']
    for f in cx.prog.struct_fields(t):
        if f['name'] == 'path':
            return cx.prog.under(f['type'])['elem']
    raise Unsupported('root.path')


def make_path(st, cx, n, o):
    ety = path_ety(cx, o)
    if cx.prog.under(ety)['kind'] != 'struct':
        return None
    i = st.new_id()

    def base(s, j):
        if s.decide(ULT(j, n)) is True:
            return path_elem(cx, ety, j)
        return UNDEF
    st.heap[i] = SeqO(base, (), o.scratch, ety)
    cap = z3.BitVec('cap_%d' % i, 64)
    st.assume(UGE(cap, n), ULT(cap, bv(1 << 32, 64)))
    return SliceV(i, bv(0, 64), n, cap)


def check_path(s, ex, v, n, valid):
    """v is a path slice of length n whose elements below `valid` are the route."""
    if not isinstance(v, SliceV) or not s.valid(And(v.len == n, v.off == 0)):
        return False
    o = s.heap[v.obj]
    ety = path_ety(ex.cx, o)
    j = z3.BitVec('j%d' % s.new_id(), 64)
    want = path_elem(ex.cx, ety, j)
    splits = [z3.BoolVal(True)]
    for (idx, fp, w) in o.log:
        splits = [And(c, d) for c in splits for d in (j == idx, j != idx)]
    for c in splits:
        t = s.copy()
        t.assume(ULT(j, valid), c)
        if not t.feasible():
            continue
        for i, wf in enumerate(want.fs):
            try:
                got = ex.seq_load(t, Ptr(v.obj, (('seq', j), i)))
            except (Unsupported, ForkOn):
                return False
            if not same(t, got, wf):
                return False
    return True


class Linear(Strategy):
    """g = number of iterations; counters are linear, a link array may be shifted."""
    name = 'counting loop'
    guardprev = True
    linear_first = True

    def __init__(self, ex, entry, func, header):
        super().__init__(ex, entry, func, header)
        self.g = z3.BitVec('n%d' % entry.new_id(), 64)
        self.g0 = bv(0, 64)
        self.gn = self.g + 1
        self.shift = None
        self.bounds = None
        self.gp = None

    def it(self, g):
        return g

    def inv(self, g):
        return [ULT(g, bv(2 ** 64 - 1, 64))] if g.eq(self.g) else []      # a loop runs fewer than 2^64 times

    def pool(self, g):
        return [('n', g)]

    def setup(self, st):
        if self.shift:
            kind, arr, cases = self.shift
            if kind == 'route':
                st.elems = st.elems + (('lam', lambda s, f, k, i, rest: If(k == arr, self.closed(f, i, rest), rest())),)
            else:
                o = st.heap[arr]
                st.heap[arr] = FreshArr(o.id, o.cap, o.log + (('lam', lambda s, f, i, rest: self.closed(f, i, rest)),), o.zero)

    def closed(self, f, x, rest, g=None):
        """Field f of slot x after g iterations."""
        cases = self.shift[2]
        g = self.g if g is None else g
        v = None
        for i0, c, conds, vals in reversed(cases):
            if f not in vals:
                continue
            if v is None:
                v = rest()
            j = (x - i0) if c == 1 else (i0 - x)
            here = ULT(j, g)
            if len(cases) > 1:
                here = And(here, z3.substitute(Or(conds), (self.g, j)))
            v = If(here, z3.substitute(vals[f], (self.g, j)), v)
        return rest() if v is None else v

    def check_mem(self, hs, s):
        if s.cells is not hs.cells:
            raise StratFail('branch header modified')
        ws = []
        if s.elems is not hs.elems:
            ws += [('route', e[1], e[2], e[3], e[4]) if e[0] == 'w' else None for e in s.elems[len(hs.elems):]]
        for i, o in hs.heap.items():
            if isinstance(o, FreshArr) and s.heap[i] is not o:
                ws += [('fresh', i, e[1], e[2], e[3]) if e[0] == 'w' else None for e in s.heap[i].log[len(o.log):]]
        if not ws:
            if self.shift:
                raise StratFail('shift')
            return True
        if any(w is None for w in ws):
            raise StratFail('nested link-array writes')
        kind, arr, i = ws[0][:3]
        vals = {}
        for k2, a2, i2, f, v in ws:
            if k2 != kind or (kind == 'fresh' and a2 != arr) or (kind == 'route' and not s.valid(a2 == arr)) or not s.valid(i2 == i):
                raise StratFail('several link-array slots written in one iteration')
            vals[f] = v
        gname = self.g.decl().name()
        if kind == 'route' and gname in symbols(arr):
            raise StratFail('array varies')
        for v in list(vals.values()) + [i]:
            if not self.stable(v):
                raise StratFail('copied value depends on the iteration')
        cond = [c for c in s.branch[len(self.entry.branch):] if self.names_ok(c)]
        cond = And(cond) if cond else z3.BoolVal(True)
        if self.shift is None:
            self.shift = (kind, arr, [])
        k2, a2, cases = self.shift
        if k2 != kind or (kind == 'fresh' and a2 != arr) or (kind == 'route' and not s.valid(a2 == arr)):
            raise StratFail('array varies')
        for i0, c, conds, vals2 in cases:
            if not s.valid(i == (i0 + self.g if c == 1 else i0 - self.g)):
                continue
            if set(vals) != set(vals2):
                raise StratFail('fields')
            for f in vals:
                if not s.valid(vals[f] == vals2[f]):
                    raise StratFail('copied value is disturbed by earlier copies')
            if not any(cond.eq(d) for d in conds):
                conds.append(cond)
                if len(cases) > 1:
                    return 'restart'
            break
        else:
            if len(cases) > 2:
                raise StratFail('write position')
            for i0 in (z3.substitute(i, (self.g, bv(0, 64))), z3.simplify(i - self.g), z3.simplify(i + self.g)):
                for c in (1, -1):
                    if gname not in symbols(i0) and s.valid(i == (i0 + self.g if c == 1 else i0 - self.g)):
                        cases.append((i0, c, [cond], vals))
                        return 'restart'
            raise StratFail('write position is not linear')
        if len(cases) > 1:      # several write positions: compare the whole array with its closed form
            x = z3.BitVec('x%d' % s.new_id(), 64)
            t = s.copy()
            for f in cases[0][3]:
                if kind == 'route':
                    n0 = len(self.entry.elems)
                    got = t._fold_elem(f, arr, x, t.elems, len(t.elems))
                    want = self.closed(f, x, lambda: t._fold_elem(f, arr, x, t.elems, n0), self.gn)
                else:
                    n0 = len(self.entry.heap[arr].log)
                    got = t._fold_fresh(t.heap[arr], f, x, len(t.heap[arr].log))
                    want = self.closed(f, x, lambda: t._fold_fresh(t.heap[arr], f, x, n0), self.gn)
                if not t.valid(got == want):
                    raise StratFail('copied slots do not follow one closed form')
        return True

    def stable(self, t):
        """Only symbols that exist before the loop (plus the counter)."""
        return self.names_ok(t)

    def names_ok(self, t):
        ok = self.known
        return all(n in ok or n == self.g.decl().name() for n in symbols(t))

    @property
    def known(self):
        k = set()
        for f in self.hs.pc:
            k |= symbols(f)
        for o in (cxm.ROUTE, cxm.CPM, cxm.CTM, cxm.CAPF, cxm.SP, cxm.SPM, cxm.STM, cxm.LEAF, cxm.SB, cxm.REST, HI, HK, GH, DGI, DGK, DGG):
            k.add(o.name())
        k |= {'null', 'key', 'seed', 'value', 'D', 'S', 'len0', 'dep0', 'boxKey', 'boxVal', 'iter'}
        k |= set(self.hs.preg)
        for fr in self.hs.frames:
            for v in fr.regs.values():
                if z3.is_expr(v):
                    k |= symbols(v)
        return k

    def strengthen(self, hs, backs, nb, init, values):
        g = self.g
        if not backs:
            return
        disj = []
        for lab, s in backs:
            cs = [c for c in s.branch[nb:] if self.names_ok(c)]
            disj.append(And(cs) if cs else z3.BoolVal(True))
        gp = Or(g == 0, Or([z3.substitute(d, (g, g - 1)) for d in disj]))
        if self.gp is None:
            self.gp = gp
            self.bounds = self.bound_cands(init)
            self.extra_inv = [gp] + [ULE(g, b) for _, b in self.bounds]
            return 'restart'
        # preserved?
        want = z3.substitute(self.gp, (g, g + 1))
        for lab, s in backs:
            if not s.valid(want):
                if DEBUG:
                    print('GP', z3.simplify(want), values)
                raise StratFail('guard of the previous iteration')
        n = self.bounds
        for lab, s in backs:
            ok = {t for t, _ in filter_valid(s.pc, [(i, And(ULE(g + 1, b), ULT(g, g + 1))) for i, (_, b) in enumerate(n)])}
            n = [b for i, b in enumerate(n) if i in ok]
        if len(n) != len(self.bounds):
            self.bounds = n
            self.extra_inv = [self.gp] + [ULE(g, b) for _, b in n]
            return 'restart'
        if not n:
            raise StratFail('no bound on the number of iterations')

    def bound_cands(self, init):
        out = [('16', bv(16, 64)), ('256', bv(256, 64))]
        for loc, v in init.items():
            if z3.is_bv(v):
                out.append(('init', zx(v, 64)))
        used = set()
        for b in self.func.loops[self.header]:
            for ins in self.func.blocks[b]['ins']:
                for x in ('x', 'y'):
                    a = ins.get(x)
                    if isinstance(a, dict) and a.get('k') == 'reg':
                        used.add(a['n'])
        fr = self.entry.frames[-1]
        for n in sorted(used):
            v = fr.regs.get(n)
            if z3.is_bv(v) and ('phi', n) not in init:
                out.append((n, zx(v, 64)))
                out.append((n + '+1', zx(v, 64) + 1))
        seen, res = set(), []
        for n, b in out:
            b = z3.simplify(b)
            if b.get_id() not in seen:
                seen.add(b.get_id())
                res.append((n, b))
        return res


class ScanSlots(Linear):
    """g = number of slots of the scanned node already reported, in order."""
    name = 'visit the slots in order'
    linear_first = False
    ranked = False

    def __init__(self, ex, entry, func, header):
        super().__init__(ex, entry, func, header)
        self.k = self.cx.k0
        self.pm = cxm.CPM(self.k)
        self.n = count(self.pm)

    def inv(self, g):
        return [ULE(g, self.n)]

    def instantiate(self, st, g):
        st.node_facts(self.k)
        for t in (g, z3.simplify(g + 1)):
            st.fact(('nth', self.k.get_id(), t.get_id(), self.ranked), *sb_facts(self.cx, self.k, t, self.ranked))
            st.ghost[('keep', t.get_id())] = t

    def pool(self, g):
        b = cxm.SB(self.k, g)
        rest = cxm.REST(self.k, g)
        return [('n', g), ('remaining bits', rest), ('position', b), ('1<<position', bit32(b)), ('slots left', self.n - g)]

    def setup(self, st):
        super().setup(st)
        st.events = self.entry.events + (('slots', self.k, self.g),)

    def split_stops(self, hs, backs):
        go, stopped = [], []
        for lab, s in backs:
            new = s.events[len(hs.events):]
            if s.events[:len(hs.events)] != hs.events or len(new) != 1 or new[0][0] not in ('cb', 'scan'):
                go.append((lab, s))
                continue
            r = new[0][3] if new[0][0] == 'cb' else new[0][2]
            if r is None or s.valid(r):
                go.append((lab, s))
                continue
            t = s.copy()
            t.assume(Not(r))
            stopped.append((lab, t))
            if not s.valid(Not(r)):
                t = s.copy()
                t.assume(r)
                go.append((lab, t))
        return go, stopped

    def check_events(self, hs, s):
        new = s.events[len(hs.events):]
        if s.events[:len(hs.events)] != hs.events:
            raise StratFail('events')
        if len(new) != 1:
            raise StratFail('%d visits in one iteration' % len(new))
        why = slot_event(self.ex, s, new[0], self.k, self.g, True)
        if why:
            raise StratFail(why)


class ScanSlotsR(ScanSlots):
    name = 'visit the slots in order (ranked)'
    ranked = True


class ScanBits(ScanSlots):
    """g = number of bit positions already examined; idx = rank of the position."""
    name = 'visit the bit positions in order'

    def inv(self, g):
        return [ULE(g, bv(16, 64))]

    def instantiate(self, st, g):
        st.node_facts(self.k)
        b = g
        i = rank(self.pm, g)
        st.assume(Implies(ULT(g, 16), And(sb_facts(self.cx, self.k, i) + [Implies(hasbit(self.pm, g), cxm.SB(self.k, i) == g)] +
                                          self.cx.leaf_wf(self.k, g, i))))

    def pool(self, g):
        return [('n', g), ('rank', rank(self.pm, g)), ('1<<n', z3.If(ULT(g, 32), bit32(g), bv(0, 32))),
                ('remaining bits', If(ULT(g, 32), self.pm & (bv(0xffffffff, 32) << zx(g, 32)), bv(0, 32))),
                ('remaining bits shifted', z3.LShR(self.pm, zx(g, 32)))]

    def setup(self, st):
        Linear.setup(self, st)
        st.events = self.entry.events + (('bits', self.k, self.g),)

    def check_events(self, hs, s):
        new = s.events[len(hs.events):]
        if s.events[:len(hs.events)] != hs.events:
            raise StratFail('events')
        if len(new) == 0:
            if not s.valid(Not(hasbit(self.pm, self.g))):
                raise StratFail('a slot is skipped')
            return
        if len(new) != 1 or not s.valid(And(ULT(self.g, 16), hasbit(self.pm, self.g))):
            raise StratFail('%d visits in one iteration' % len(new))
        why = slot_event(self.ex, s, new[0], self.k, rank(self.pm, self.g), True)
        if why:
            raise StratFail(why)


def sb_facts(cx, k, g, ranked=True):
    """Definition of the g-th set bit of the level-k presence bits (see verify_lemmas)."""
    pm = cxm.CPM(k)
    b, r = cxm.SB(k, g), cxm.REST(k, g)
    fs = nth_facts(pm, count(pm), g, b, r, cxm.REST(k, g + 1))
    if not ranked:
        fs = [f for n, f in fs if n != 'rank']
    else:
        fs = [f for n, f in fs]
    return fs + [Implies(ULT(g, count(pm)), And(cx.leaf_wf(k, b, g)))]


def nth_facts(pm, n, g, b, r, rnext):
    """Facts about position b of the g-th set bit of pm and r, the bits from it on."""
    lt = ULT(g, n)
    return [('range', Implies(lt, And(ULT(b, bv(16, 64)), hasbit(pm, b)))), ('rank', Implies(lt, rank(pm, b) == g)),
            ('low', Implies(lt, And(r != 0, b == zx(ctz(r), 64), r == pm & (bv(0xffffffff, 32) << zx(b, 32))))),
            ('next', Implies(lt, And(rnext == r & (r - 1), rnext == r & ~bit32(b)))),
            ('first', Implies(g == 0, r == pm)), ('last', Implies(g == n, r == 0))]


def slot_event(ex, s, ev, k, t, goon):
    """Does event ev report slot t of node k (and continue / stop)? Returns a complaint or None."""
    cx = ex.cx
    b = cxm.SB(k, t)
    leaf = hasbit(cxm.CTM(k), b)
    if not s.valid(ULT(t, count(cxm.CPM(k)))):
        return 'visit beyond the last slot'
    if ev[0] == 'cb':
        if not s.valid(leaf):
            return 'callback on a branch slot'
        args = ev[2]
        why = leaf_args(ex, s, args, k, t)
        if why:
            return why
        r = ev[3]
    elif ev[0] == 'scan':
        if not s.valid(Not(leaf)):
            return 'descent into a leaf slot'
        if not same(s, ev[1], Elem(('route', k), t)):
            return 'descent into another slot'
        r = ev[2]
    else:
        return 'event %s' % ev[0]
    if r is None:
        return None if goon else 'cannot stop'
    if not s.valid(r == z3.BoolVal(goon)):
        return 'continues after a stop request' if goon else 'stops without request'
    return None


def leaf_args(ex, s, args, k, t):
    cx = ex.cx
    if not args or not (z3.is_expr(args[0]) and args[0].sort() == cx.key.sort()):
        return 'callback arguments'
    if not s.valid(args[0] == cx.leafkey(k, t)):
        return 'callback gets another key'
    if cx.is_set:
        return None if len(args) == 1 else 'callback arguments'
    if len(args) != 2 or not isinstance(args[1], BoxP):
        return 'callback arguments'
    p = args[1]
    if len(p.path) != 1 or cx.box_fields(p.ty).get('val') != p.path[0]:
        return 'callback gets a pointer to something else than the value'
    if not s.valid(p.t == cxm.SP(k, t)):
        return 'callback gets another value'
    return None


class SpineS(Strategy):
    """g = level of the node that owns the frontier slot; single-slot branches have
    been built for levels D+1..g because the two keys agree there."""
    name = 'extend the chain while the digits agree'
    linear_first = False

    def __init__(self, ex, entry, func, header, frontier, cap):
        super().__init__(ex, entry, func, header)
        self.g = z3.BitVec('e%d' % entry.new_id(), 8)
        self.g0 = self.cx.D + 1
        self.gn = self.g + 1
        self.cap = cap
        self.frontier0 = frontier
        i = entry.new_id()
        self.F = i
        self.arrP = None

    def it(self, g):
        return zx(g - self.g0, 64)

    def inv(self, g):
        return [UGE(g, self.g0), ULT(g, self.cx.S)]

    def instantiate(self, st, g):
        cx = self.cx
        for L in (cx.D, g, g + 1):
            st.fact(('sep', L.get_id()), *cx.sep_facts(L))
            st.ghost[('keep', L.get_id())] = L

    def exit_level(self):
        return self.cx.S - 1

    def pool(self, g):
        return level_pool(self.cx, g, [('key', self.cx.key), ('other', self.cx.lkey())])

    def ptr_cands(self):
        f0 = self.frontier0
        return [('frontier', lambda g: Elem(('fresh', self.F if not g.eq(self.g0) else f0), bv(0, 64)))]

    def setup(self, st):
        st.heap[self.F] = FreshArr(self.F, self.cap, (), True)
        lo = self.g0
        name = 'chain_%d' % self.F
        t = z3.Const(name, P)
        st.preg[name] = Spine(lo, self.g, self.F, self.cap)
        st.assume(AT(t) == self.F, t != null)
        D, r = self.cx.D, self.cx.ridx(self.cx.D)
        bit = bit32(self.cx.dig(self.cx.key, lo))
        st.elems = st.elems + (('w', D, r, 0, t), ('w', D, r, 1, bit), ('w', D, r, 2, bv(0, 32)))
        del_frontier(st, self.frontier0)

    def check_mem(self, hs, s):
        if s.cells is not hs.cells or s.elems is not hs.elems:
            raise StratFail('memory above the chain modified')
        for i, o in hs.heap.items():
            if isinstance(o, FreshArr) and s.heap[i] is not o and i != self.F:
                raise StratFail('other array modified')
        # the new frontier
        n = self.new_frontier(s)
        o = s.heap[self.F]
        why = check_link(s, o, s.heap[n], self.cx.dig(self.cx.key, self.gn), self.cap)
        if why:
            raise StratFail(why)
        return True

    def new_frontier(self, s):
        p = z3.simplify(s._fold_fresh(s.heap[self.F], 0, bv(0, 64), len(s.heap[self.F].log)))
        tgt = s.preg.get(p.decl().name()) if z3.is_app(p) and p.num_args() == 0 else None
        if not (isinstance(tgt, Elem) and tgt.arr[0] == 'fresh'):
            raise StratFail('chain not extended')
        return tgt.arr[1]


def del_frontier(st, i):
    st.heap.pop(i, None)


def check_link(s, o, nxt, digit, cap):
    """Array o holds exactly one slot, 0, that heads a new single-slot branch at
    `digit` with the zeroed array nxt."""
    if nxt.log:
        return 'new branch array already written'
    if not s.valid(nxt.cap == cap):
        return 'capacity of a chain array'
    z = bv(0, 64)
    pm = s._fold_fresh(o, 1, z, len(o.log))
    tm = s._fold_fresh(o, 2, z, len(o.log))
    if not s.valid(pm == bit32(digit)):
        return 'presence bits of a chain branch'
    if not s.valid(tm == 0):
        return 'type bits of a chain branch'
    x = z3.BitVec('x%d' % s.new_id(), 64)
    t = s.copy()
    t.assume(x != 0)
    for f in range(3):
        v = t._fold_fresh(o, f, x, len(o.log))
        if not t.valid(v == (null if f == 0 else bv(0, 32))):
            return 'stray slot in a chain array'
    return None


class SpineFix(SpineS):
    """SpineS whose pointer closed form at gn is the newly allocated array."""

    def ptr_cands(self):
        return [('frontier', self._front)]

    def _front(self, g):
        if g.eq(self.g0):
            return Elem(('fresh', self.frontier0), bv(0, 64))
        if g.eq(self.g):
            return Elem(('fresh', self.F), bv(0, 64))
        return Elem(('fresh', self.cur_new), bv(0, 64))

    cur_new = None


class Ascend(Strategy):
    """g = level whose single-leaf child has just been replaced by the leaf T."""
    name = 'replace single-leaf branches on the way up'
    linear_first = False

    def __init__(self, ex, entry, func, header, T):
        super().__init__(ex, entry, func, header)
        self.g = z3.BitVec('e%d' % entry.new_id(), 8)
        self.g0 = self.cx.D - 1
        self.gn = self.g - 1
        self.T = T

    def it(self, g):
        return zx(self.g0 - g, 64)

    def inv(self, g):
        return [ULT(g, self.cx.D)]

    def instantiate(self, st, g):
        st.node_facts(g)

    def pool(self, g):
        cx = self.cx
        d = cx.dig(cx.key, g)
        p = level_pool(cx, g, [('key', cx.key)])
        return p + [('tmap|bit', cxm.CTM(g) | bit32(d))]

    def ptr_cands(self):
        return [('route cell', lambda g: Cell(g)), ('child cell', lambda g: Cell(g + 1))]

    def closed(self, f, k, g):
        cx = self.cx
        base = cx.cell0(f, k)
        here = base if f != 2 else cxm.CTM(g) | bit32(cx.dig(cx.key, g))
        if f == 2:
            here_k = If(k == g, cxm.CTM(g) | bit32(cx.dig(cx.key, g)), base)
        else:
            here_k = base
        dead = z3.Function('dead%d' % f, B8, base.sort())(k)
        return If(k == g + 1, self.T[f], If(ULE(k, g), here_k, dead))

    def setup(self, st):
        g = self.g
        st.cells = (('lam', lambda s, f, k, rest: self.closed(f, k, g)),)
        st.ghost['collapse'] = (g, self.T)

    def check_mem(self, hs, s):
        cx = self.cx
        if s.elems is not hs.elems:
            raise StratFail('slots modified')
        for i, o in hs.heap.items():
            if isinstance(o, FreshArr) and s.heap[i] is not o:
                raise StratFail('slots modified')
        x = z3.BitVec('x%d' % s.new_id(), 8)
        t = s.copy()
        t.assume(ULE(x, self.g))
        for f in range(3):
            if not t.valid(t.read_cell(f, x) == self.closed(f, x, self.gn)):
                raise StratFail('cell contents while collapsing')
        if not s.valid(count(cxm.CPM(self.g)) == 1):
            raise StratFail('a branch with more than one slot is collapsed')
        return True

    def seq_form(self, o, st):
        cx, g = self.cx, self.g
        ety = path_ety(cx, o)

        def base(s, j):
            if s.decide(ULT(j, zx(g, 64))) is True:
                return path_elem(cx, ety, j)
            return UNDEF
        # the entry contents must agree
        e = self.entry
        return SeqO(base, (), o.scratch, ety)

    def seq_check(self, hs, s, oid):
        o = s.heap[oid]
        v = SliceV(oid, bv(0, 64), bv(0, 64), bv(0, 64))
        return check_path(s, self.ex, v, bv(0, 64), zx(self.gn, 64))


# ------------------------------------------------------------------ dispatcher
def handle(ex, st, header):
    fr = st.frames[-1]
    func = fr.func
    depth = len(st.frames)
    src0 = fr.block
    cx = ex.cx
    # peel one iteration: loops whose body cannot repeat need no invariant
    p = st.copy()
    mark = len(ex.deads)
    ex.enter(p, src0, header)
    res = ex.run(p, region_stop(depth, func, header))
    peel_deads = ex.deads[mark:]
    del ex.deads[mark:]
    backs = [(l, s) for l, s in res if l[0] == 'back']
    exits = [(s, l[1], l[2]) for l, s in res if l[0] == 'exit']
    other = [s for l, s in res if l[0] not in ('back', 'exit')]
    if other and any(s.kind != 'panic' for s in other):
        raise Unsupported('return inside a loop region')
    if not backs:
        ex.deads += peel_deads + other
        return exits
    reasons = []
    phis = phi_edges(func, header)
    init = {p_['r']: edge_value(ex, st, p_, func, header, src0) for p_ in phis}
    linkphis = [st.norm_addr(v) for v in init.values() if isinstance(v, (Cell, Elem))]
    for l, s in backs:      # a position kept in a variable that is not in a register
        for loc in modified_locs(st, s):
            if loc[0] == 'obj' and isinstance(get_loc(st, loc), (Cell, Elem)):
                linkphis.append(st.norm_addr(get_loc(st, loc)))

    def attempt(S):
        del ex.deads[mark:]
        try:
            return run_strategy(ex, S)
        except StratFail as e:
            reasons.append('%s: %s' % (S.name, e))
        except Unsupported as e:
            reasons.append('%s: %s' % (S.name, e))
        return None

    cellphis = [v for v in linkphis if isinstance(v, Cell)]
    regular = not (cx.bounded and os.environ.get('AMTV_UNROLL'))      # set by tests of the bounded mode
    if regular and cx.mode == 'route' and cellphis and not st.cells and not st.elems:
        start = cellphis[0].k
        if st.decide(start == cx.D) is not True:
            r = attempt(Descend(ex, st, func, header, start))
            if r is not None:
                return r
    if cx.mode == 'scan':
        for C in (ScanSlots, ScanBits, ScanSlotsR):
            r = attempt(C(ex, st, func, header))
            if r is not None:
                return r
    if regular and cx.mode == 'route' and linkphis and st.valid(cx.conflict()):
        ex.deads[mark:] = peel_deads + other
        r = try_spine(ex, st, func, header, backs, exits, phis, reasons)
        if r is not None:
            return r
    if regular and cx.mode == 'route' and cellphis and st.cells:
        ex.deads[mark:] = peel_deads + other
        r = try_ascend(ex, st, func, header, backs, exits, phis, reasons)
        if r is not None:
            return r
    # with a bound, levels are numbers and loops along the route can be executed to their end
    for way in ('all', 'linear') if cx.bounded and linkphis else ('linear', 'const', 'all') if cx.bounded else ('linear', 'const'):
        if way == 'linear':
            r = attempt(Linear(ex, st, func, header))
        else:
            ex.deads[mark:] = peel_deads + other
            r = unroll(ex, st, func, header, backs, exits, reasons, 80 if cx.bounded else 40, force=way == 'all')
        if r is not None:
            return r
    raise Unsupported('no invariant found for the loop at %s (%s)' % (
        func.blocks[header]['ins'][0].get('pos') or func.name, '; '.join(reasons)))


def unroll(ex, st, func, header, backs, exits, reasons, limit=40, width=40, force=False):
    """A loop whose body can run only a small constant number of times: all its
    iterations are executed (complete, since no back edge is left at the end)."""
    out = list(exits)
    depth = len(st.frames)
    n = 1
    phis = phi_edges(func, header)
    const = lambda v: z3.is_expr(v) and z3.is_bv_value(z3.simplify(v))
    if not force and not any(const(edge_value(ex, st, p, func, header, st.frames[-1].block)) and
               all(const(edge_value(ex, s, p, func, header, l[1])) for l, s in backs) for p in phis):
        return None     # no counter
    try:
        while backs:
            n += 1
            if n > limit or len(backs) > width or len(out) > width:
                raise StratFail('more than %d iterations or %d paths' % (limit, width))
            nb = []
            for lab, s in backs:
                s = s.copy()
                ex.enter(s, lab[1], header)
                for l, t in ex.run(s, region_stop(depth, func, header)):
                    if l[0] == 'back':
                        nb.append((l, t))
                    elif l[0] == 'exit':
                        out.append((t, l[1], l[2]))
                    elif t.kind == 'panic':
                        ex.deads.append(t)
                    else:
                        raise StratFail('return inside a loop region')
            backs = nb
    except (StratFail, Unsupported) as e:
        reasons.append('all iterations: %s' % e)
        return None
    ex.cx.notes.append(dict(func=func.name, pos=func.blocks[header]['ins'][0].get('pos', ''), header=header,
                            strategy='all %d iterations executed' % n, invariant={}, backs=0, exits=len(out)))
    return out


def try_spine(ex, st, func, header, backs, exits, phis, reasons):
    cx = ex.cx
    out = list(exits)
    try:
        for lab, s in backs:
            s = s.copy()
            for L in (cx.D, cx.D + 1):
                s.fact(('sep', L.get_id()), *cx.sep_facts(L))
            r = cx.ridx(cx.D)
            p = z3.simplify(s._fold_elem(0, cx.D, r, s.elems, len(s.elems)))
            tgt = s.preg.get(p.decl().name()) if z3.is_app(p) and p.num_args() == 0 else None
            if not (isinstance(tgt, Elem) and tgt.arr[0] == 'fresh'):
                raise StratFail('no chain started')
            fid = tgt.arr[1]
            fo = s.heap[fid]
            if fo.log:
                raise StratFail('frontier array written')
            pm = s._fold_elem(1, cx.D, r, s.elems, len(s.elems))
            tm = s._fold_elem(2, cx.D, r, s.elems, len(s.elems))
            bit = bit32(cx.dig(cx.key, cx.D + 1))
            if not s.valid(pm == bit):
                raise StratFail('presence bits of the first chain branch')
            s.oblige('a branch built for colliding digits has no leaf bit set', tm == 0,
                     ('C01', 'C02', 'C05', 'C06', 'C08', 'C13', 'C15'), func.blocks[header]['ins'][0].get('pos', ''))
            # only that slot changed in this iteration
            x, y = z3.BitVec('x%d' % s.new_id(), 64), None
            t = s.copy()
            t.assume(x != r)
            for f in range(3):
                if not t.valid(t._fold_elem(f, cx.D, x, t.elems, len(t.elems)) == st._fold_elem(f, cx.D, x, st.elems, len(st.elems))):
                    raise StratFail('other slot changed')
            s.frames[-1].block = lab[1]
            S = SpineFix(ex, s, func, header, fid, fo.cap)
            orig = S.check_mem

            def cm(hs, b, S=S, orig=orig):
                return orig(hs, b)
            S.check_mem = cm
            # resolve the new frontier before pointer comparison
            S.pre_ptr = True
            out += run_strategy_spine(ex, S)
        return out
    except (StratFail, Unsupported) as e:
        reasons.append('%s: %s' % (SpineS.name, e))
        return None


def run_strategy_spine(ex, S):
    # pointer comparison at the back edge needs the freshly allocated array
    orig_inst = S.instantiate

    def inst(st, g):
        orig_inst(st, g)
        if g.eq(S.gn):
            try:
                S.cur_new = S.new_frontier(st)
            except StratFail:
                S.cur_new = -1
    S.instantiate = inst
    return run_strategy(ex, S)


def try_ascend(ex, st, func, header, backs, exits, phis, reasons):
    cx = ex.cx
    out = list(exits)
    try:
        for lab, s in backs:
            s = s.copy()
            D = cx.D
            s.node_facts(D - 1)
            if not s.valid(D != 0):
                raise StratFail('not above the top level')
            # what the first step did, judged against the state before it
            T = [st.read_cell(0, D), None, None]
            arr = ex.resolve(st, PT(st.read_cell(0, D)))
            if not isinstance(arr, Elem):
                raise StratFail('array of the lowest branch')
            pm, tm = st.read_cell(1, D), st.read_cell(2, D)
            if not s.valid(And(count(pm) == 1, pm == tm)):
                raise StratFail('a branch with more than one slot is collapsed')
            T = [st.read_elem(f, arr.arr, bv(0, 64)) for f in range(3)]
            S = Ascend(ex, s, func, header, T)
            x = z3.BitVec('x%d' % s.new_id(), 8)
            t = s.copy()
            t.node_facts(x)
            t.assume(ULE(x, D))
            for f in range(3):
                if not t.valid(t.read_cell(f, x) == S.closed(f, x, S.g0)):
                    raise StratFail('cell contents after the first collapse')
            s.frames[-1].block = lab[1]
            out += run_strategy(ex, S)
        return out
    except (StratFail, Unsupported) as e:
        reasons.append('%s: %s' % (Ascend.name, e))
        return None
