"""Contracts of the container operations, evaluated on the symbolic post-states.

Vocabulary (see cx.py): D is the level at which the key's route ends, r the slot
of the key's digit there. An operation falls in one of three cases:
  miss      no entry at the digit of level D
  hit       the entry there is a leaf with an equal key
  conflict  the entry there is a leaf with another key (S: first level at which
            the two keys' digits differ)
Every clause is `ensures(name, tags, formula)`; quantified clauses use arbitrary
(skolem) levels, slots, bits and boxes."""
import z3
from .terms import *
from .state import *
from .execu import Exec, NilDeref, get_path
from .cx import sort_of
from . import cx as cxm

CASES = ('miss', 'hit', 'conflict')


class Clauses:
    """Obligations of one function."""

    def __init__(self, ex):
        self.ex, self.cx = ex, ex.cx
        self.items = []
        sem = 'C02' if self.cx.is_set else 'C01'
        self.SEM = (sem,)
        self.INT = ('C13',) if self.cx.flavour == 'int' else ()

    def ensures(self, st, name, f, tags, detail=''):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        o = Obligation(name, tuple(dict.fromkeys(tags)), list(st.pc), z3.simplify(f), detail)
        self.items.append(o)


def forks(st, fn):
    """Run fn on st, splitting the path where fn needs an undecided condition."""
    work, n = [st], 0
    while work:
        s = work.pop()
        n += 1
        if n > 64:
            raise Unsupported('contract evaluation forks too much')
        try:
            fn(s.copy())
        except ForkOn as e:
            for c in (e.cond, Not(e.cond)):
                t = s.copy()
                t.assume_branch(c)
                if check(t.pc) != 'unsat':
                    work.append(t)


def sk(st, name, w):
    return z3.BitVec('%s_%d' % (name, st.new_id()), w)


# ------------------------------------------------------------------ post-state access
def arr_of(ex, st, p, what):
    """The array a link pointer designates: ('route', k) | ('fresh', id)."""
    v = ex.resolve(st, PT(p) if not isinstance(p, PT) else p)
    if isinstance(v, Elem):
        if st.decide(v.i == 0) is not True:
            raise Unsupported(what + ': interior pointer')
        return v.arr
    return None


def cap_of(st, arr):
    return z3.simplify(st.arr_cap(arr))


def boxes_unchanged(ex, C, st, tags, except_=None):
    """No box that existed before the call changed (except one value field)."""
    if not st.boxlog:
        C.ensures(st, 'stored keys and values of other entries unchanged', True, tags)
        return
    tys = {z: ty for z, (ty, w) in ex.cx.boxtypes.items()}
    for lay, ty in tys.items():
        fields = ex.cx.box_fields(ty)
        for role in ('key', 'val'):
            if role not in fields:
                continue
            p = z3.Const('anybox_%d' % st.new_id(), P)
            s = st.copy()
            s.assume(AT(p) == 0, cxm.LEAF(p))
            if except_ is not None and role == 'val':
                s.assume(p != except_)
            C.ensures(s, 'stored %s of other entries unchanged' % ('keys' if role == 'key' else 'values'),
                      s.read_box(p, (fields[role],), ty) == s.cx.box0(p, role, None), tags)


def frame(ex, C, st, tags, lo_excl=None, upto=None, skip=None):
    """Branch headers and slots on the route, apart from the levels the case may
    change, are unchanged. skip(k): condition under which level k may differ."""
    cx = ex.cx
    top = cx.D if upto is None else upto
    k = sk(st, 'lvl', 8)
    s = st.copy()
    s.assume(ULE(k, top))
    if skip is not None:
        s.assume(Not(skip(k)))
    if s.feasible():
        same = [s.read_cell(f, k) == cx.cell0(f, k) for f in range(3)]
        C.ensures(s, 'branch headers elsewhere unchanged', And(same), tags)
        i = sk(st, 'slot', 64)
        s.assume(ULT(i, cx.cap0(k)), Not(s.carve(k, i)))
        same = [s.read_elem(f, ('route', k), i) == cx.slot0(f, k, i) for f in range(3)]
        C.ensures(s, 'slots elsewhere unchanged', And(same), tags)
    if 'seed' in st.rootf:
        C.ensures(st, 'hash seed unchanged', st.rootf['seed'] == cx.seed, tags)


def unchanged(ex, C, st, tags, what):
    """The whole container is as it was before the call."""
    cx = ex.cx
    frame(ex, C, st, tags)
    # slots of the level where the route ends
    i = sk(st, 'slot', 64)
    s = st.copy()
    s.assume(ULT(i, cx.cap0(cx.D)))
    C.ensures(s, what + ': slots unchanged', And([s.read_elem(f, ('route', cx.D), i) == cx.slot0(f, cx.D, i) for f in range(3)]), tags)
    boxes_unchanged(ex, C, st, tags)
    C.ensures(st, what + ': length unchanged', zx(st.rootf['len'], 64) == cx.len0, tags + ('C03',))
    C.ensures(st, what + ': depth sum unchanged', zx(st.rootf['dep'], 64) == cx.dep0, tags + ('C04',))


def new_leaf(ex, C, st, arr, i, tags, value, conflict=False):
    """Slot i of arr holds a fresh leaf with the key and `value`."""
    cx = ex.cx
    x = ('C15',) if conflict else ()
    p = z3.simplify(st.read_elem(0, arr, i))
    pm, tm = st.read_elem(1, arr, i), st.read_elem(2, arr, i)
    if cx.flavour == 'int':
        C.ensures(st, 'new entry: key stored in the slot', z3.Concat(tm, pm) == cx.key, tags + ('C13', 'C06', 'C14') + x)
        if cx.is_set:
            C.ensures(st, 'new entry: no box', p == null, ('C08', 'C13'))
            return
    else:
        C.ensures(st, 'new entry: no stray bits in the slot', And(pm == 0, tm == 0), ('C05',))
    tgt = ex.resolve(st, PT(p))
    if isinstance(tgt, BoxP) or tgt is NULL or not isinstance(tgt, Ptr) or any(tgt.path):
        C.ensures(st, 'new entry: own box', False, tags + ('C07', 'C08', 'C14') + x, 'slot points to %r' % (tgt,))
        return
    o = st.heap[tgt.obj]
    ty = o.ty
    fields = cx.box_fields(ty) if cx.prog.under(ty)['kind'] == 'struct' else None
    if fields is None:
        raise Unsupported('box type')
    cx.note_box(ty, 'new entry')
    if cx.flavour != 'int':
        if 'key' not in fields:
            C.ensures(st, 'new entry: key stored', False, tags + ('C06', 'C08'))
        else:
            C.ensures(st, 'new entry: key stored', o.val.fs[fields['key']] == cx.key, tags + ('C06', 'C12') + x)
    if not cx.is_set:
        C.ensures(st, 'new entry: value stored', o.val.fs[fields['val']] == value, ('C01', 'C06', 'C10') + (('C15',) if conflict else ()) if cx.op == 'Mod' else ('C01', 'C06') + x)


def post_value(ex, st, cb):
    """Value the entry must hold after the operation."""
    cx = ex.cx
    if cx.op == 'Mod':
        return z3.Const('cbval_%d' % cb[6], Val) if cb else None
    return cx.value


# ------------------------------------------------------------------ insertion (Set, Mod, Add)
def insert_post(ex, C, st, case):
    cx = ex.cx
    cb = None
    if cx.op == 'Mod':
        cb = mod_callback(ex, C, st, case)
        if cb is None:
            return
    elif st.events:
        C.ensures(st, 'no callback', False, C.SEM)
    if case == 'hit':
        insert_hit(ex, C, st, cb)
    elif case == 'miss':
        insert_miss(ex, C, st, cb)
    else:
        insert_conflict(ex, C, st, cb)


def insert_hit(ex, C, st, cb):
    cx = ex.cx
    tags = C.SEM + ('C03', 'C05', 'C06', 'C14')
    frame(ex, C, st, tags)
    i = sk(st, 'slot', 64)
    s = st.copy()
    s.assume(ULT(i, cx.cap0(cx.D)))
    C.ensures(s, 'existing key: slots unchanged', And([s.read_elem(f, ('route', cx.D), i) == cx.slot0(f, cx.D, i) for f in range(3)]),
              tags + ('C07', 'C08') + C.INT)
    p = cxm.SP(cx.D, cx.ridx(cx.D))
    boxes_unchanged(ex, C, st, C.SEM + ('C06', 'C07', 'C14') + C.INT, None if cx.is_set else p)
    if not cx.is_set:
        ty = box_type(cx)
        C.ensures(st, 'existing key: its value is the new one, in place',
                  st.read_box(p, (cx.box_fields(ty)['val'],), ty) == post_value(ex, st, cb),
                  ('C01', 'C07') + (('C10',) if cx.op == 'Mod' else ()))
    C.ensures(st, 'existing key: length unchanged', zx(st.rootf['len'], 64) == cx.len0, ('C03',))
    C.ensures(st, 'existing key: depth sum unchanged', zx(st.rootf['dep'], 64) == cx.dep0, ('C04',))


def box_type(cx):
    for lay, (ty, w) in cx.boxtypes.items():
        return ty
    raise Unsupported('no box type seen')


def insert_miss(ex, C, st, cb):
    cx = ex.cx
    D = cx.D
    b = cx.dig(cx.key, D)
    pm0, tm0 = cxm.CPM(D), cxm.CTM(D)
    bit = bit32(b)
    pm, tm = st.read_cell(1, D), st.read_cell(2, D)
    tags = C.SEM + ('C03', 'C05', 'C06', 'C08', 'C04', 'C15') + C.INT
    C.ensures(st, 'new key: its presence bit and no other is added', pm == pm0 | bit, tags + ('C16',))
    C.ensures(st, 'new key: its bit is marked as a leaf', tm == tm0 | bit, tags + ('C16',))
    arr = arr_of(ex, st, st.read_cell(0, D), 'new key')
    if arr is None:
        C.ensures(st, 'new key: branch keeps an array', False, tags)
        return
    n = count(pm0) + 1
    if arr[0] == 'route':
        C.ensures(st, 'new key: the array is the branch\'s own', arr[1] == D, tags)
        cap = cx.cap0(D)
    else:
        C.ensures(st, 'new key: the top level keeps its embedded array', D != 0, ('C08', 'C16'))
        cap = cap_of(st, arr)
    C.ensures(st, 'new key: array has room for every entry', And(ULE(n, cap), Implies(D != 0, And(UGE(cap, round4(n)), ULE(cap, 16)))), tags)
    C.ensures(st, 'new key: array has exactly the rounded size', Implies(D != 0, cap == round4(n)), ('C16',))
    q = sk(st, 'bit', 64)
    s = st.copy()
    s.assume(ULT(q, 16), hasbit(pm0, q), q != zx(b, 64))
    for f in s.cx.leaf_wf(D, q):
        s.assume(f)
    i0, i1 = rank(pm0, q), rank(pm0 | bit, q)
    C.ensures(s, 'new key: other entries keep their slot contents', And([s.read_elem(f, arr, i1) == cx.slot0(f, D, i0) for f in range(3)]),
              tags + ('C07', 'C14', 'C16'))
    new_leaf(ex, C, st, arr, rank(pm0 | bit, b), C.SEM + ('C15',), post_value(ex, st, cb))
    frame(ex, C, st, C.SEM + ('C03', 'C05', 'C06', 'C07', 'C14'), skip=lambda k: k == D)
    boxes_unchanged(ex, C, st, C.SEM + ('C06', 'C07', 'C14'))
    C.ensures(st, 'new key: length grows by one', zx(st.rootf['len'], 64) == cx.len0 + 1, ('C03',))
    C.ensures(st, 'new key: depth sum grows by its level', zx(st.rootf['dep'], 64) == cx.dep0 + zx(D, 64), ('C04',))


def insert_conflict(ex, C, st, cb):
    cx = ex.cx
    D, S = cx.D, cx.S
    for L in (D, S, z3.simplify(D + 1)):
        st.assume(*cx.sep_facts(L))
    kap = cx.lkey()
    r = cx.ridx(D)
    b = cx.dig(cx.key, D)
    bit = bit32(b)
    tags = C.SEM + ('C03', 'C04', 'C05', 'C06', 'C08', 'C15') + C.INT
    C.ensures(st, 'split: the branch keeps its entries', st.read_cell(1, D) == cxm.CPM(D), tags + ('C16',))
    C.ensures(st, 'split: the entry becomes a branch', st.read_cell(2, D) == cxm.CTM(D) & ~bit, tags + ('C16',))
    arr = arr_of(ex, st, st.read_cell(0, D), 'split')
    C.ensures(st, 'split: the branch keeps its array', arr is not None and arr[0] == 'route' and z3.simplify(arr[1] == D), tags)
    i = sk(st, 'slot', 64)
    s = st.copy()
    s.assume(ULT(i, cx.cap0(D)), i != r)
    C.ensures(s, 'split: other entries keep their slots', And([s.read_elem(f, ('route', D), i) == cx.slot0(f, D, i) for f in range(3)]),
              tags + ('C07', 'C14'))
    frame(ex, C, st, C.SEM + ('C03', 'C05', 'C06', 'C07', 'C14'), skip=lambda k: k == D)
    boxes_unchanged(ex, C, st, C.SEM + ('C06', 'C07', 'C14', 'C15'))
    C.ensures(st, 'split: length grows by one', zx(st.rootf['len'], 64) == cx.len0 + 1, ('C03',))
    C.ensures(st, 'split: depth sum moves both keys to the level where they part',
              zx(st.rootf['dep'], 64) == cx.dep0 - zx(D, 64) + 2 * zx(S, 64), ('C04', 'C15'))
    # the chain of branches from level D+1 to S
    hdr = [z3.simplify(st.read_elem(f, ('route', D), r)) for f in range(3)]
    L = z3.simplify(D + 1)
    for step in range(24 if cx.bounded else 6):
        p = ex.prune(st, hdr[0])
        tgt = st.preg.get(p.decl().name()) if z3.is_app(p) and p.num_args() == 0 else None
        if isinstance(tgt, Spine):
            C.ensures(st, 'split: chain branch at the right level', L == tgt.lo, tags)
            C.ensures(st, 'split: chain branch holds the common digit only', And(hdr[1] == bit32(cx.dig(cx.key, tgt.lo)), hdr[2] == 0), tags)
            C.ensures(st, 'split: chain stays above the level where the keys part', ULT(tgt.hi, S), tags)
            C.ensures(st, 'split: chain arrays have exactly the rounded size', tgt.cap == 4, ('C16',))
            C.ensures(st, 'split: chain arrays have room', And(UGE(tgt.cap, 4), ULE(tgt.cap, 16)), tags)
            L = z3.simplify(tgt.hi + 1)
            hdr = [z3.simplify(st.read_elem(f, ('fresh', tgt.arr), bv(0, 64))) for f in range(3)]
            continue
        if not (isinstance(tgt, Elem) and tgt.arr[0] == 'fresh'):
            C.ensures(st, 'split: each new branch has its own array', False, tags + ('C14', 'C16'), 'level %s' % L)
            return
        a = tgt.arr
        cap = cap_of(st, a)
        C.ensures(st, 'split: new array has exactly the rounded size', cap == 4, ('C16',))
        C.ensures(st, 'split: new array has room', And(UGE(cap, 4), ULE(cap, 16)), tags)
        st.assume(*cx.sep_facts(L))
        kd, cd = cx.dig(cx.key, L), cx.dig(kap, L)
        if st.need(L == S):
            pm = bit32(kd) | bit32(cd)
            C.ensures(st, 'split: last branch has the bits of both keys', hdr[1] == pm, tags + ('C16',))
            C.ensures(st, 'split: last branch marks both as leaves', hdr[2] == pm, tags + ('C16',))
            new_leaf(ex, C, st, a, rank(pm, kd), C.SEM + ('C05', 'C06', 'C08', 'C15') + C.INT, post_value(ex, st, cb), True)
            j = rank(pm, cd)
            C.ensures(st, 'split: the other key keeps its box', st.read_elem(0, a, j) == cxm.SP(D, r), tags + ('C07', 'C14'))
            want = (cxm.SPM(D, r), cxm.STM(D, r)) if cx.flavour == 'int' else (bv(0, 32), bv(0, 32))
            C.ensures(st, 'split: the other key stays in its slot', And(st.read_elem(1, a, j) == want[0], st.read_elem(2, a, j) == want[1]),
                      tags + ('C07', 'C14') if cx.flavour == 'int' else ('C05',))
            return
        C.ensures(st, 'split: the branches end where the keys part', ULT(L, S), tags)
        C.ensures(st, 'split: chain branch holds the common digit only', And(hdr[1] == bit32(kd), hdr[2] == 0), tags)
        L = z3.simplify(L + 1)
        hdr = [z3.simplify(st.read_elem(f, a, bv(0, 64))) for f in range(3)]
    raise Unsupported('chain too long')


def mod_callback(ex, C, st, case):
    """Exactly one callback, correctly informed, on an unmodified map."""
    cx = ex.cx
    cbs = [e for e in st.events if e[0] == 'cb']
    C.ensures(st, 'callback called exactly once', len(cbs) == 1 and len(st.events) == 1, ('C10', 'C01'), '%d calls' % len(st.events))
    if len(cbs) != 1:
        return None
    e = cbs[0]
    args, snap, before = e[2], e[4], e[5]
    if len(args) != 2:
        C.ensures(st, 'callback arguments', False, ('C10',))
        return None
    a, ok = args
    # state at the time of the call
    s = st.copy()
    s.cells, s.elems, s.boxlog, s.rootf = snap['cells'], snap['elems'], snap['boxlog'], dict(snap['rootf'])
    unchanged(ex, C, s, ('C10',), 'when the callback runs')
    if case == 'hit':
        good = isinstance(a, BoxP) and len(a.path) == 1 and cx.box_fields(a.ty).get('val') == a.path[0]
        C.ensures(st, 'present key: callback gets the stored value', And(z3.BoolVal(bool(good)), a.t == cxm.SP(cx.D, cx.ridx(cx.D))) if good else False,
                  ('C10', 'C01', 'C07'))
        C.ensures(st, 'present key: callback is told so', ok, ('C10',))
    else:
        good = isinstance(a, Ptr) and len(a.path) >= 1 or isinstance(a, Ptr)
        C.ensures(st, 'absent key: callback gets a new value', bool(good), ('C10', 'C01', 'C07'))
        C.ensures(st, 'absent key: the new value is zero', before[0] == zeroVal if good else False, ('C10',))
        C.ensures(st, 'absent key: callback is told so', Not(ok), ('C10',))
        if good:
            # the pointer passed is the new entry's own value field
            o = st.heap[a.obj]
            f = cx.box_fields(o.ty).get('val') if o.ty is not None and cx.prog.under(o.ty)['kind'] == 'struct' else None
            C.ensures(st, 'absent key: callback gets the entry\'s own value', f is not None and tuple(a.path) == (f,), ('C10', 'C07'))
            st.ghost['cbobj'] = a.obj
    return e


# ------------------------------------------------------------------ deletion
def delete_post(ex, C, st, case):
    cx = ex.cx
    if st.events:
        C.ensures(st, 'no callback', False, C.SEM)
    if case != 'hit':
        unchanged(ex, C, st, C.SEM + ('C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C14', 'C16') + (('C15',) if case == 'conflict' else ()) + C.INT, 'absent key')
        return
    D = cx.D
    b = cx.dig(cx.key, D)
    bit = bit32(b)
    pm0, tm0 = cxm.CPM(D), cxm.CTM(D)
    pm1, tm1 = pm0 & ~bit, tm0 & ~bit
    n = count(pm1)
    C.ensures(st, 'deleted key: length shrinks by one', zx(st.rootf['len'], 64) == cx.len0 - 1, ('C03',))
    boxes_unchanged(ex, C, st, C.SEM + ('C06', 'C07', 'C14'))
    tags = C.SEM + ('C03', 'C04', 'C05', 'C06', 'C08', 'C15') + C.INT
    single = And(D != 0, n == 1, pm1 == tm1)
    if not st.need(single):
        C.ensures(st, 'deleted key: depth sum shrinks by its level', zx(st.rootf['dep'], 64) == cx.dep0 - zx(D, 64), ('C04',))
        C.ensures(st, 'deleted key: its presence bit and no other is removed', st.read_cell(1, D) == pm1, tags + ('C16',))
        C.ensures(st, 'deleted key: its type bit is removed', st.read_cell(2, D) == tm1, tags + ('C16',))
        arr = arr_of(ex, st, st.read_cell(0, D), 'deleted key')
        if arr is None:
            C.ensures(st, 'deleted key: branch keeps an array', False, tags)
            return
        if arr[0] == 'route':
            C.ensures(st, 'deleted key: the array is the branch\'s own', arr[1] == D, tags)
            cap = cx.cap0(D)
        else:
            C.ensures(st, 'deleted key: the top level keeps its embedded array', D != 0, ('C08', 'C16'))
            cap = cap_of(st, arr)
        C.ensures(st, 'deleted key: array has room for every entry', And(ULE(n, cap), Implies(D != 0, And(UGE(cap, round4(n)), ULE(cap, 16)))), tags)
        C.ensures(st, 'deleted key: array has exactly the rounded size', Implies(D != 0, cap == round4(n)), ('C16',))
        q = sk(st, 'bit', 64)
        s = st.copy()
        s.assume(ULT(q, 16), hasbit(pm0, q), q != zx(b, 64))
        for f in cx.leaf_wf(D, q):
            s.assume(f)
        C.ensures(s, 'deleted key: other entries keep their slot contents',
                  And([s.read_elem(f, arr, rank(pm1, q)) == cx.slot0(f, D, rank(pm0, q)) for f in range(3)]), tags + ('C07', 'C14', 'C16'))
        frame(ex, C, st, C.SEM + ('C03', 'C05', 'C06', 'C07', 'C14'), skip=lambda k: k == D)
        return
    # the branch is left with a single leaf: it is replaced by that leaf, and so
    # on upwards while the branch above has no other entry
    col = st.ghost.get('collapse')
    E = col[0] if col else z3.simplify(D - 1)
    if cx.bounded and not col:
        e = cx.bounded[0] - 1
        while e > 0 and st.need(count(cxm.CPM(bv(e, 8))) == 1):
            e -= 1
        E = bv(e, 8)
    st.node_facts(E)
    tags = tags + ('C16',)
    C.ensures(st, 'collapse: ends above the deleted key\'s level', ULT(E, D), tags)
    C.ensures(st, 'collapse: goes on while the branch holds a single key', Or(E == 0, count(cxm.CPM(E)) != 1), C.SEM + ('C04', 'C05', 'C16'))
    if col:
        k = sk(st, 'lvl', 8)    # established by the loop invariant of the collapse
    C.ensures(st, 'collapse: depth sum follows the moved key', zx(st.rootf['dep'], 64) == cx.dep0 - zx(D, 64) - (zx(D, 64) - zx(E, 64)), ('C04',))
    bE = bit32(cx.dig(cx.key, E))
    C.ensures(st, 'collapse: the branch keeps its entries', st.read_cell(1, E) == cxm.CPM(E), tags)
    C.ensures(st, 'collapse: the entry becomes a leaf', st.read_cell(2, E) == cxm.CTM(E) | bE, tags)
    arr = arr_of(ex, st, st.read_cell(0, E), 'collapse')
    C.ensures(st, 'collapse: the branch keeps its array', arr is not None and arr[0] == 'route' and z3.simplify(arr[1] == E), tags)
    q = sk(st, 'bit', 64)
    s = st.copy()
    s.assume(ULT(q, 16), hasbit(pm1, q), Not(s.carve(D, rank(pm0, q))))
    s.node_facts(D)
    for f in cx.leaf_wf(D, q):
        s.assume(f)
    C.ensures(s, 'collapse: the remaining key moves up with its slot contents',
              And([s.read_cell(f, E + 1) == cx.slot0(f, D, rank(pm0, q)) for f in range(3)]), tags + ('C07', 'C14'))
    frame(ex, C, st, C.SEM + ('C03', 'C05', 'C06', 'C07', 'C14'), skip=lambda k: UGE(k, E))
    i = sk(st, 'slot', 64)
    s = st.copy()
    s.assume(ULT(i, cx.cap0(E)), Not(s.carve(E, i)))
    C.ensures(s, 'collapse: other entries keep their slots', And([s.read_elem(f, ('route', E), i) == cx.slot0(f, E, i) for f in range(3)]),
              tags + ('C07', 'C14'))


# ------------------------------------------------------------------ reads
def read_frame(ex, C, st):
    C.ensures(st, 'nothing shared is written', not st.writes, ('C09',), ', '.join(str(w[0]) for w in st.writes[:4]))
    if st.writes:
        if ex.cx.mode == 'route':
            unchanged(ex, C, st, C.SEM + ('C14',), 'lookup')
    C.ensures(st, 'no callback', not st.events, C.SEM + ('C09',))


def is_box_of_key(ex, st, v):
    cx = ex.cx
    return isinstance(v, BoxP) and len(v.path) == 1 and cx.box_fields(v.ty).get('val') == v.path[0]


def lookup_post(ex, C, st, case):
    cx = ex.cx
    read_frame(ex, C, st)
    v = st.result
    x = ('C15',) if case == 'conflict' else ()
    ok = 'lookup finds exactly the key searched for'
    tags = C.SEM + ('C03', 'C15') + C.INT + (('C07',) if not cx.is_set else ())
    op = cx.op
    p = cxm.SP(cx.D, cx.ridx(cx.D))
    hit = case == 'hit'
    if op == 'Has':
        C.ensures(st, ok, v == z3.BoolVal(hit), tags)
    elif op == 'Ptr':
        if isinstance(v, PT):
            v = ex.resolve(st, v, ex.valtype)
        if hit:
            C.ensures(st, ok, And(z3.BoolVal(is_box_of_key(ex, st, v)), v.t == p) if is_box_of_key(ex, st, v) else False, tags + ('C08',))
        else:
            C.ensures(st, ok, v is NULL, tags + ('C08',))
    elif op in ('Get', 'Val'):
        val = st.cx.box0(p, 'val', None) if hit else zeroVal
        if op == 'Get':
            C.ensures(st, 'value found is the stored one, zero if absent', v.vs[0] == val, tags)
            C.ensures(st, ok, v.vs[1] == z3.BoolVal(hit), tags)
        else:
            C.ensures(st, 'value found is the stored one, zero if absent', v == val, tags + (('C11',) if not hit else ()))


# ------------------------------------------------------------------ iteration
def scan_parse(ex, C, st, start, k):
    """Common part of scan contracts: returns nothing; adds clauses."""
    from .loops import slot_event
    cx = ex.cx
    tags = ('C06', 'C05') + C.SEM + C.INT + ('C08',)
    n = count(cxm.CPM(k))
    st.node_facts(k)
    evs = list(st.events)
    t = bv(0, 64)
    ranked = bool(evs) and evs[0][0] == 'bits'
    if evs and evs[0][0] in ('slots', 'bits'):
        t = evs[0][2] if evs[0][0] == 'slots' else rank(cxm.CPM(k), evs[0][2])
        evs = evs[1:]
    res = st.result
    from .loops import sb_facts
    for j, e in enumerate(evs):
        st.assume(*sb_facts(cx, k, z3.simplify(t), ranked))
        last = j == len(evs) - 1
        r = e[3] if e[0] == 'cb' else (e[2] if e[0] == 'scan' else None)
        if r is None:
            C.ensures(st, 'visit reported', False, tags)
            return
        go = True if not last else (False if st.valid(Not(r)) else True)
        if last and not go:
            why = slot_event(ex, st, e, k, t, False)
        else:
            why = slot_event(ex, st, e, k, t, True)
        if why == 'continues after a stop request':
            C.ensures(st, 'nothing is visited after a stop request', False, ('C06',), why)
            return
        C.ensures(st, 'each slot is visited in order with its own key and value, stopping on request', why is None, tags, why or '')
        if last and not go:
            C.ensures(st, 'a stop request is passed on', res == z3.BoolVal(False) if z3.is_bool(res) else res is None, ('C06',))
            return
        t = z3.simplify(t + 1)
    C.ensures(st, 'every slot is visited', t == n, tags)
    C.ensures(st, 'iteration goes on after the last slot', res == z3.BoolVal(True) if z3.is_bool(res) else res is None, ('C06',) + C.SEM)


def scan_post(ex, C, st):
    C.ensures(st, 'nothing shared is written', not st.writes, ('C09', 'C14'), ', '.join(str(w[0]) for w in st.writes[:4]))
    scan_parse(ex, C, st, 0, ex.cx.k0)


def all_post(ex, C, st):
    """All hands the whole container to the scan, once."""
    C.ensures(st, 'nothing shared is written', not st.writes, ('C09', 'C14'), ', '.join(str(w[0]) for w in st.writes[:4]))
    evs = st.events
    good = len(evs) == 1 and evs[0][0] == 'scan' and isinstance(evs[0][1], Cell) and z3.simplify(evs[0][1].k == ex.cx.k0)
    if len(evs) == 1 and evs[0][0] == 'scan':
        C.ensures(st, 'iteration covers the whole container, once', good, ('C06', 'C05') + C.SEM + C.INT)
    else:
        scan_parse(ex, C, st, 0, ex.cx.k0)
