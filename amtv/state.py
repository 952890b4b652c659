"""Values, symbolic state, and the memory model (see DESIGN.md, "Memory")."""
import itertools
import z3
from .terms import *


class Unsupported(Exception):
    """A construct outside the verifier's subset: the function is undecided."""


class ForkOn(Exception):
    def __init__(self, cond):
        self.cond = cond


# ---------------------------------------------------------------- values
class V:
    __slots__ = ()


class _Null(V):
    def __repr__(self):
        return 'NULL'


NULL = _Null()


class _Undef(V):
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()


class _Unit(V):
    def __repr__(self):
        return 'unit'


UNIT = _Unit()


class Val_(V):
    """Base of tuple-like values."""
    _f = ()

    def __init__(self, *a):
        for n, x in zip(self._f, a):
            setattr(self, n, x)

    def __repr__(self):
        return type(self).__name__ + '(' + ', '.join(str(getattr(self, n)) for n in self._f) + ')'


class Ptr(Val_):       # pointer into a generic object
    _f = ('obj', 'path')


class Root(Val_):      # *root of the container under verification
    _f = ()


class RootF(Val_):     # address of a root field
    _f = ('name',)


class Cell(Val_):      # address of the link that heads the route node of level k
    _f = ('k',)


class Elem(Val_):      # address of element i of a link array
    _f = ('arr', 'i')


class LinkFld(Val_):   # address of a field of a link
    _f = ('addr', 'f')


class PT(Val_):        # pointer given by a P term
    _f = ('t',)


class BoxP(Val_):      # pointer into a box that existed before the call
    _f = ('t', 'path', 'ty')


class AddrInt(Val_):   # uintptr: address plus byte offset
    _f = ('base', 'off', 'idx')


class StructV(Val_):
    _f = ('fs',)


class ArrV(Val_):
    _f = ('es',)


class ZeroArr(Val_):   # large zero array, contents not tracked element by element
    _f = ('ty',)


class KeyArr(Val_):    # result of key.KeyBytes()
    _f = ('key',)


class LinkV(Val_):
    _f = ('ptr', 'pm', 'tm')


class SliceV(Val_):    # slice of a sequence object
    _f = ('obj', 'off', 'len', 'cap')


class SliceA(Val_):    # slice of a whole local array
    _f = ('ptr', 'n')


class LinkSl(Val_):    # slice over a link array
    _f = ('arr', 'off', 'len', 'cap')


class TupleV(Val_):
    _f = ('vs',)


class FnV(Val_):
    _f = ('fn', 'binds')


class CB(Val_):
    _f = ('name',)


class NilSlice(Val_):
    _f = ()


class IfaceV(Val_):
    _f = ('x',)


# ---------------------------------------------------------------- objects
class Obj(Val_):
    _f = ('ty', 'val')


class FreshArr(Val_):
    """Link array allocated during the call. log: tuple of (i, f, v) writes, oldest first."""
    _f = ('id', 'cap', 'log', 'zero')


class HashO(Val_):
    """maphash.Hash: seed, content written (None if nothing), number of copies."""
    _f = ('seed', 'content', 'n')


class SeqO(Val_):
    """Backing store of a growing slice. base(j) gives element j or UNDEF; log of
    (idx, fieldpath|None, value) writes, oldest first."""
    _f = ('base', 'log', 'scratch', 'ety')


class Spine(Val_):
    """A chain of freshly built single-slot branches for levels lo..hi (each with a
    capacity-`cap` zeroed array, slot 0 at the key's digit); arr is the array of
    the node at level hi."""
    _f = ('lo', 'hi', 'arr', 'cap')


class Obligation:
    n = itertools.count()

    def __init__(self, name, tags, pc, f, where):
        self.name, self.tags, self.pc, self.f, self.where = name, tags, pc, f, where
        self.id = next(Obligation.n)
        self.status = None
        self.detail = ''


class Frame:
    __slots__ = ('func', 'regs', 'block', 'prev', 'ip', 'ret', 'bound')

    def __init__(self, func, regs):
        self.func, self.regs = func, regs
        self.block, self.prev, self.ip = 0, None, 0
        self.ret = None

    def copy(self):
        f = Frame(self.func, dict(self.regs))
        f.block, f.prev, f.ip, f.ret = self.block, self.prev, self.ip, self.ret
        return f


HAVOC = ('havoc',)    # boxlog entry: callbacks may have set any entry's value


class State:
    def __init__(self, cx):
        self.cx = cx
        self.pc = []
        self.branch = []        # branch conditions only (a subset of pc)
        self.facts = set()
        self.frames = []
        self.heap = {}
        self.cells = ()         # log, oldest first: ('w',k,f,v) | ('lam',fn)
        self.elems = ()         # log for route arrays: ('w',k,i,f,v) | ('lam',fn)
        self.boxlog = ()        # (p, path, v)
        self.rootf = {}
        self.preg = {}          # name of a P constant -> what it points to
        self.events = ()
        self.writes = ()        # everything written that existed before the call
        self.obls = ()
        self.ghost = {}
        self.result = None
        self.kind = None

    def copy(self):
        s = State(self.cx)
        s.pc = list(self.pc)
        s.branch = list(self.branch)
        s.facts = set(self.facts)
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        s.cells, s.elems, s.boxlog = self.cells, self.elems, self.boxlog
        s.rootf = dict(self.rootf)
        s.preg = dict(self.preg)
        s.events, s.writes, s.obls = self.events, self.writes, self.obls
        s.ghost = dict(self.ghost)
        s.result, s.kind = self.result, self.kind
        return s

    # ---- logic
    def assume(self, *fs):
        for f in fs:
            f = z3.simplify(f) if not z3.is_true(f) else f
            if not z3.is_true(f):
                self.pc.append(f)

    def assume_branch(self, f):
        f = z3.simplify(f)
        if not symbols(f).isdisjoint(('len0', 'dep0')) and self.cx.totals:
            self.fact(('totals',), *self.cx.total_facts())
        if not z3.is_true(f):
            self.pc.append(f)
            self.branch.append(f)

    def fact(self, key, *fs):
        if key in self.facts:
            return
        self.facts.add(key)
        self.assume(*fs)

    def feasible(self, *fs):
        return check(self.pc + list(fs)) != 'unsat'

    def valid(self, f):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return check(self.pc) == 'unsat'
        return check(self.pc + [z3.Not(f)]) == 'unsat'

    def decide(self, c):
        """True/False if the path condition settles c, else None."""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if check(self.pc + [z3.Not(c)]) == 'unsat':
            return True
        if check(self.pc + [c]) == 'unsat':
            return False
        return None

    def need(self, c):
        """Like decide, but forks the execution when c is not settled."""
        r = self.decide(c)
        if r is None:
            raise ForkOn(c)
        return r

    def oblige(self, name, f, tags, where=''):
        f = z3.simplify(f)
        self.obls = self.obls + (Obligation(name, tags, list(self.pc), f, where),)
        self.assume(f)

    def where(self):
        if not self.frames:
            return ''
        fr = self.frames[-1]
        ins = fr.func.blocks[fr.block]['ins']
        return ins[min(fr.ip, len(ins) - 1)].get('pos', '')

    # ---- fresh names
    def new_id(self):
        return next(self.cx.ids)

    def fresh_p(self, target, tag='new'):
        n = self.new_id()
        t = z3.Const('%s_%d' % (tag, n), P)
        self.preg[t.decl().name()] = target
        self.assume(AT(t) == n, t != null)
        return t

    def p_of(self, objid, path=()):
        """The P constant naming a pointer to a (fresh) object."""
        k = ('pconst', objid, tuple(path))
        if k not in self.ghost:
            o = self.heap.get(objid)
            tgt = Elem(('fresh', objid), bv(0, 64)) if isinstance(o, FreshArr) else Ptr(objid, tuple(path))
            self.ghost[k] = self.fresh_p(tgt)
        return self.ghost[k]

    # ---- link memory
    def norm_arr(self, arr):
        return arr

    def read_cell(self, f, k, log=None):
        cx = self.cx
        log = self.cells if log is None else log
        self.node_facts(k)
        return self._fold_cell(f, k, log, len(log))

    def _fold_cell(self, f, k, log, n):
        conds = []
        while n > 0:
            e = log[n - 1]
            if e[0] == 'lam':
                n0 = n - 1
                rest = lambda f=f, k=k, n0=n0: self._fold_cell(f, k, log, n0)
                v = e[1](self, f, k, rest)
                break
            _, k2, f2, v2 = e
            if f2 == f:
                d = self.decide(k == k2)
                if d is True:
                    v = v2
                    break
                if d is None:
                    conds.append((k == k2, v2))
            n -= 1
        else:
            v = self.cx.cell0(f, k)
        for c, w in reversed(conds):
            v = If(c, w, v)
        return v

    def carve(self, k, i):
        cx = self.cx
        if not cx.carve:
            return z3.BoolVal(False)
        return And(ULT(k, cx.D), i == cx.ridx(k))

    def read_elem(self, f, arr, i):
        if arr[0] == 'route':
            k = arr[1]
            c = self.decide(self.carve(k, i))
            if c is True:
                return self.read_cell(f, k + 1)
            v = self._fold_elem(f, k, i, self.elems, len(self.elems))
            if c is None:
                v = If(self.carve(k, i), self.read_cell(f, k + 1), v)
            return v
        o = self.heap[arr[1]]
        return self._fold_fresh(o, f, i, len(o.log))

    def _fold_elem(self, f, k, i, log, n):
        conds = []
        while n > 0:
            e = log[n - 1]
            if e[0] == 'lam':
                n0 = n - 1
                v = e[1](self, f, k, i, lambda i2=i: self._fold_elem(f, k, i2, log, n0))
                break
            _, k2, i2, f2, v2 = e
            if f2 == f:
                c = And(k == k2, i == i2)
                d = self.decide(c)
                if d is True:
                    v = v2
                    break
                if d is None:
                    conds.append((c, v2))
            n -= 1
        else:
            self.slot_facts(k)
            v = self.cx.slot0(f, k, i)
        for c, w in reversed(conds):
            v = If(c, w, v)
        return v

    def _fold_fresh(self, o, f, i, n):
        conds = []
        while n > 0:
            e = o.log[n - 1]
            if e[0] == 'lam':
                n0 = n - 1
                v = e[1](self, f, i, lambda i2=i: self._fold_fresh(o, f, i2, n0))
                break
            _, i2, f2, v2 = e
            if f2 == f:
                d = self.decide(i == i2)
                if d is True:
                    v = v2
                    break
                if d is None:
                    conds.append((i == i2, v2))
            n -= 1
        else:
            v = null if f == 0 else bv(0, 32)
        for c, w in reversed(conds):
            v = If(c, w, v)
        return v

    def write_cell(self, k, f, v):
        self.cells = self.cells + (('w', k, f, v),)
        self.writes = self.writes + (('cell', k, f),)

    def write_elem(self, arr, i, f, v):
        if arr[0] == 'route':
            k = arr[1]
            if self.need(self.carve(k, i)):
                return self.write_cell(k + 1, f, v)
            self.elems = self.elems + (('w', k, i, f, v),)
            self.writes = self.writes + (('elem', k, i, f),)
        else:
            o = self.heap[arr[1]]
            self.heap[arr[1]] = FreshArr(o.id, o.cap, o.log + (('w', i, f, v),), o.zero)

    def arr_cap(self, arr):
        if arr[0] == 'route':
            self.node_facts(arr[1])
            return self.cx.cap0(arr[1])
        return self.heap[arr[1]].cap

    def read_link_field(self, addr, f):
        if isinstance(addr, Cell):
            return self.read_cell(f, addr.k)
        self.elem_ok(addr)
        return self.read_elem(f, addr.arr, addr.i)

    def write_link_field(self, addr, f, v):
        if isinstance(addr, Cell):
            return self.write_cell(addr.k, f, v)
        self.elem_ok(addr)
        self.write_elem(addr.arr, addr.i, f, v)

    def elem_ok(self, addr):
        self.oblige('link-array index within capacity', ULT(addr.i, self.arr_cap(addr.arr)), ('C08',), self.where())

    # ---- facts: the representation invariant of the initial state, instantiated
    def node_facts(self, k):
        self.fact(('node', k.get_id()), *self.cx.node_wf(k))
        self.ghost[('keep', k.get_id())] = k

    def slot_facts(self, k):
        if self.cx.carve:
            self.fact(('slot', k.get_id()), *self.cx.leaf_wf(k, self.cx.dig(self.cx.key, k)))

    # ---- boxes
    def read_box(self, t, path, ty):
        conds = []
        v = None
        for e in reversed(self.boxlog):
            if e[0] is HAVOC:
                fs = self.cx.box_fields(ty)
                if 'val' in fs and len(path) == 1 and path[0] == fs['val']:
                    v = z3.Function('anyval_%d' % e[1], P, Val)(t)
                    break
                if 'val' in fs and path == ():
                    raise Unsupported('whole box read after callbacks')
                continue
            t2, path2, v2 = e[:3]
            if path2 == path:
                d = self.decide(t == t2)
                if d is True:
                    v = v2
                    break
                if d is None:
                    conds.append((t == t2, v2))
            elif path2[:len(path)] == path or path[:len(path2)] == path2:
                if self.decide(t == t2) is not False:
                    raise Unsupported('overlapping box access')
        else:
            v = self.cx.box0(t, path, ty)
        for c, w in reversed(conds):
            v = If(c, w, v)
        return v

    # ---- normal form of link addresses
    def norm_addr(self, a):
        """Elem that is the route child's cell -> Cell."""
        if isinstance(a, Elem) and a.arr[0] == 'route':
            if self.decide(self.carve(a.arr[1], a.i)) is True:
                return Cell(a.arr[1] + 1)
        return a
