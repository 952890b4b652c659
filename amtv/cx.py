"""Verification context of one function: container flavour, initial-state
functions, and the representation invariant, instantiated at given levels."""
import itertools
import z3
from .terms import *
from .state import Unsupported, StructV, UNIT

ROUTE = z3.Function('arrayOf', B8, P)         # array of the route node at a level
CPM = z3.Function('pmap0', B8, B32)
CTM = z3.Function('tmap0', B8, B32)
CAPF = z3.Function('cap0', B8, B64)
SP = z3.Function('slotPtr0', B8, B64, P)
SPM = z3.Function('slotPmap0', B8, B64, B32)
STM = z3.Function('slotTmap0', B8, B64, B32)
LEAF = z3.Function('isBox', P, z3.BoolSort())
OWNK = z3.Function('ownerLevel', P, B8)
OWNI = z3.Function('ownerSlot', P, B64)
SB = z3.Function('nthBit', B8, B64, B64)       # scan: position of the i-th set bit
REST = z3.Function('bitsFrom', B8, B64, B32)   # scan: presence bits without the i lowest ones

MAXLEVEL = 239


class Cx:
    def __init__(self, prog, flavour, is_set, opname, mode='route'):
        self.prog = prog
        self.flavour, self.is_set, self.op = flavour, is_set, opname
        self.mode = mode
        self.bounded = None
        self.carve = mode == 'route'
        self.ids = itertools.count(1)
        self.seed = z3.Const('seed', Seed)
        self.key = z3.BitVec('key', 64) if flavour == 'int' else z3.Const('key', Key)
        self.value = z3.Const('value', Val)
        self.D = z3.BitVec('D', 8)
        self.S = z3.BitVec('S', 8)
        self.len0, self.dep0 = z3.BitVec('len0', 64), z3.BitVec('dep0', 64)
        self.rootnull = False
        self.totals = False
        self.boxtypes = {}
        self.boxfuncs = {}
        self.notes = []
        self.k0 = None          # scan: level of the node scanned
        self.callees = set()
        self.inlined = set()
        self.unchecked = set()
        self.digf = {'int': DGI, 'gen': DGG}.get(flavour, DGK)
        DIGIT_DEF[self.digf.name()] = self.digdef

    # ---- hash digits
    def H(self, kap, n):
        """n-th rehash (n 64-bit, 0 based) of key kap."""
        if self.flavour == 'int':
            return HI(self.seed, kap, n + 1)
        if self.flavour == 'gen':
            return GH(self.seed, kap, n)
        return HK(self.seed, kap, n + 1)

    def dig(self, kap, L):
        """Digit of kap at level L (8 bits)."""
        return self.digf(kap, L)

    def digdef(self, kap, L):
        """The spec's only definition of a digit."""
        h = self.H(kap, zx(LShR8(L), 64))
        return zx(z3.LShR(h, zx(L & 15, 64) * 4), 8) & 15

    def hsh(self, kap, L):
        h = self.H(kap, zx(LShR8(L), 64))
        return z3.LShR(h, zx(L & 15, 64) * 4)

    # ---- initial state
    def cell0(self, f, k):
        return (ROUTE, CPM, CTM)[f](k)

    def slot0(self, f, k, i):
        return (SP, SPM, STM)[f](k, i)

    def cap0(self, k):
        return If(k == 0, bv(16, 64), CAPF(k))

    def ridx(self, k):
        return rank(CPM(k), self.dig(self.key, k))

    def leafkey(self, k, i):
        """Key of the leaf in slot i of the level-k node, initially."""
        if self.flavour == 'int':
            return z3.Concat(STM(k, i), SPM(k, i))
        return self.box0(SP(k, i), 'key', None)

    def lkey(self):
        return self.leafkey(self.D, self.ridx(self.D))

    def level_ok(self, k):
        if self.mode == 'scan':
            return z3.BoolVal(True)
        return ULE(k, self.D)

    def node_wf(self, k):
        pm, tm = CPM(k), CTM(k)
        g = self.level_ok(k)
        n = count(pm)
        fs = [z3.Extract(31, 16, pm) == 0, (tm & ~pm) == 0,
              AT(ROUTE(k)) == 0, ROUTE(k) != null, Not(LEAF(ROUTE(k))),
              Implies(k != 0, And(pm != 0, Not(And(n == 1, tm == pm)),
                                  CAPF(k) == round4(n)))]
        if self.mode == 'route':
            b = self.dig(self.key, k)
            br = And(hasbit(pm, b), Not(hasbit(tm, b)))
            fs += [Implies(ULT(k, self.D), br), Implies(k == self.D, Not(br))]
        return [Implies(g, And(fs)), ULE(self.D, bv(MAXLEVEL, 8))]

    def total_facts(self):
        """What the recorded totals say: len0 counts the leaves, dep0 adds up
        their levels, and neither wraps around. (Consequences of the global
        invariant for the root and the route, proved in /verif/lean.)"""
        fs = [(self.len0 == 0) == (CPM(bv(0, 8)) == 0),
              (self.dep0 == 0) == (CPM(bv(0, 8)) == CTM(bv(0, 8)))]
        if self.mode == 'route':
            d = zx(self.D, 64)
            fs += [Implies(self.D != 0, And(UGE(self.len0, 2), UGE(self.dep0, 2 * d)))]
        return fs

    def leaf_wf(self, k, b, i=None):
        """Facts about the slot of the level-k node at (set) bit b."""
        pm, tm = CPM(k), CTM(k)
        i = rank(pm, b) if i is None else i
        p = SP(k, i)
        lk = self.leafkey(k, i)
        fs = []
        if not (self.flavour == 'int' and self.is_set):
            fs += [p != null, LEAF(p), AT(p) == 0, OWNK(p) == k, OWNI(p) == i]
            if self.flavour != 'int':
                fs += [SPM(k, i) == 0, STM(k, i) == 0]
        else:
            fs += [p == null]
        fs += [self.dig(lk, k) == zx(b, 8)]
        return [Implies(And(self.level_ok(k), hasbit(pm, b), hasbit(tm, b)), And(fs)),
                Implies(And(self.level_ok(k), hasbit(pm, b), Not(hasbit(tm, b))), Not(LEAF(p)))]

    def sep_facts(self, L):
        """S is the first level where key and the leaf on its route part."""
        kap = self.lkey()
        same = self.dig(self.key, L) == self.dig(kap, L)
        return [Implies(self.conflict(), And(ULT(self.D, self.S), ULE(self.S, bv(MAXLEVEL, 8)),
                                             Implies(ULT(L, self.S), same),
                                             Implies(L == self.S, Not(same))))]

    def present(self):
        b = self.dig(self.key, self.D)
        return hasbit(CPM(self.D), b)

    def isleaf(self):
        b = self.dig(self.key, self.D)
        return And(hasbit(CPM(self.D), b), hasbit(CTM(self.D), b))

    def hit(self):
        return And(self.isleaf(), self.lkey() == self.key)

    def conflict(self):
        return And(self.isleaf(), self.lkey() != self.key)

    def miss(self):
        return Not(self.present())

    # ---- boxes
    def note_box(self, ty, where):
        lay = self.prog.layout(ty)
        if lay not in self.boxtypes:
            self.boxtypes[lay] = (ty, where)

    def box_fields(self, ty):
        """role -> field index, from the field types."""
        out = {}
        for i, f in enumerate(self.prog.struct_fields(ty)):
            s = sort_of(self.prog, f['type'])
            if s is Val:
                out.setdefault('val', i)
            elif s is Key:
                out.setdefault('key', i)
            elif s is None:
                out.setdefault('unit', i)
        return out

    def box0(self, t, path, ty):
        """Initial contents of a box; path is a role name or a field path of type ty."""
        if path == 'key':
            return z3.Function('boxKey', P, Key)(t)
        if path == 'val':
            return z3.Function('boxVal', P, Val)(t)
        if len(path) == 0:
            return StructV([self.box0(t, (i,), ty) for i in range(len(self.prog.struct_fields(ty)))])
        if len(path) == 1:
            f = self.prog.struct_fields(ty)[path[0]]
            s = sort_of(self.prog, f['type'])
            if s is Val:
                return self.box0(t, 'val', None)
            if s is Key:
                return self.box0(t, 'key', None)
            if s is None:
                return UNIT
        raise Unsupported('box field')


def LShR8(L):
    return z3.LShR(L, 4)


def sort_of(prog, t):
    """z3 sort of opaque Go types; None for zero-size; raises for others."""
    ty = prog.types[t]
    u = prog.under(t)
    if ty['kind'] == 'typeparam':
        return Val if ty['constraint'] in ('any', 'interface{}') else Key
    if u['kind'] == 'basic' and u['name'] == 'string':
        return Key
    if u['kind'] == 'slice' and prog.under(u['elem'])['kind'] == 'basic' and prog.under(u['elem'])['name'] in ('uint8', 'byte'):
        return Key
    if u['kind'] == 'struct' and not u['fields']:
        return None
    if u['kind'] == 'basic' and 'bits' in u:
        return z3.BitVecSort(u['bits'])
    if u['kind'] == 'basic' and u['name'] == 'bool':
        return z3.BoolSort()
    if u['kind'] == 'basic' and u['name'] == 'float64':
        return Flt
    raise Unsupported('type ' + ty['str'])
