"""Path-based symbolic execution of go/ssa over the memory model of state.py.
Loops go to loops.py; calls are inlined unless a contract applies."""
import z3
from .terms import *
from .state import *
from .cx import sort_of
from . import cx as cxm

LINK_ROLES = {'ptr': 0, 'pmap': 1, 'tmap': 2}


class Exec:
    def __init__(self, cx, contracts, budget=4000):
        self.cx = cx
        self.prog = cx.prog
        self.contracts = contracts     # function name -> handler(exec, st, fr, ins, args) -> value | list of (state,value)
        self.loop_handler = None
        self.steps = 0
        self.max_steps = 400000
        self.paths = 0
        self.deads = []        # states that ended inside (nil dereference, panic in a loop)

    # ------------------------------------------------------------ types
    def is_link(self, t):
        ty = self.prog.types[t]
        return ty['kind'] == 'named' and ty['name'] == 'link' and ty['pkg'] == self.prog.pkg

    def is_root(self, t):
        ty = self.prog.types[t]
        return ty['kind'] == 'named' and ty['name'] == 'root' and ty['pkg'] == self.prog.pkg

    def is_linkarr(self, t):
        u = self.prog.under(t)
        return u['kind'] == 'array' and self.is_link(u['elem'])

    def link_role(self, t, i):
        fs = self.prog.struct_fields(t)
        n = fs[i]['name']
        if n in LINK_ROLES:
            return LINK_ROLES[n]
        raise Unsupported('link field ' + n)

    def zero(self, t):
        ty = self.prog.types[t]
        if self.is_link(t):
            return LinkV(null, bv(0, 32), bv(0, 32))
        if self.prog.is_named(t, 'hash/maphash', 'Hash'):
            return HashO(None, None, bv(0, 64))
        if self.prog.is_named(t, 'hash/maphash', 'Seed'):
            return zeroSeed
        if ty['kind'] == 'typeparam':
            return zeroVal if sort_of(self.prog, t) is Val else zeroKey
        u = self.prog.under(t)
        k = u['kind']
        if k == 'basic':
            if 'bits' in u:
                return bv(0, u['bits'])
            if u['name'] in ('bool', 'untyped bool'):
                return z3.BoolVal(False)
            if u['name'] == 'string':
                return z3.Const('str:', Key)
            if u['name'] == 'unsafe.Pointer' or u['name'] == 'Pointer' or u['name'] == 'untyped nil':
                return NULL
            if u['name'] == 'float64':
                return zeroFlt
            raise Unsupported('zero of ' + ty['str'])
        if k in ('pointer', 'func', 'interface'):
            return NULL
        if k == 'slice':
            if sort_of_safe(self.prog, t) is Key:
                return z3.Const('nilbytes', Key)
            return NilSlice()
        if k == 'struct':
            return StructV([self.zero(f['type']) for f in (u['fields'] or [])])
        if k == 'array':
            if u['len'] > 16 or self.is_link(u['elem']):
                return ZeroArr(t)
            return ArrV([self.zero(u['elem']) for _ in range(u['len'])])
        raise Unsupported('zero of ' + ty['str'])

    def const(self, c):
        t = c['t']
        v = c['v']
        u = self.prog.under(t)
        if v is None:
            if u['kind'] == 'basic' and 'bits' not in u and u['name'] not in ('untyped nil', 'unsafe.Pointer', 'Pointer'):
                return self.zero(t)
            if self.prog.types[t]['kind'] == 'typeparam' or u['kind'] in ('struct', 'array', 'slice'):
                return self.zero(t)
            return NULL
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if c.get('isstr'):
            return z3.Const('str:' + v, Key)
        if u['kind'] == 'basic' and 'bits' in u:
            return bv(int(v), u['bits'])
        if u['kind'] == 'basic' and u['name'] in ('float64', 'untyped float'):
            try:
                if float(v) == 0:
                    return zeroFlt
            except ValueError:
                pass
            return z3.Const('flt:' + str(v), Flt)
        if u['kind'] == 'basic' and u['name'].startswith('untyped'):
            return bv(int(v), 64)
        raise Unsupported('constant of ' + self.prog.tstr(t))

    def val(self, st, a):
        if a is None:
            return None
        k = a['k']
        if k == 'reg':
            try:
                v = st.frames[-1].regs[a['n']]
            except KeyError:
                raise Unsupported('register %s undefined' % a['n'])
            if v is UNDEF:
                raise Unsupported('use of a value the loop invariant does not describe (%s)' % a['n'])
            return v
        if k == 'const':
            return self.const(a)
        if k == 'func':
            return FnV(a, [])
        if k == 'builtin':
            return a
        if k == 'global' and a.get('pkg') == self.prog.pkg:
            return GlobP(a['n'], ())
        if k == 'global' and a.get('pkg') == 'encoding/binary' and a['n'] in ('LittleEndian', 'BigEndian'):
            return GlobP('encoding/binary.' + a['n'], ())
        raise Unsupported('global variable ' + str(a.get('n')))

    def glob_obj(self, st, name):
        i = 'global ' + name
        if i not in st.heap:
            st.heap[i] = SeqO(None, (), i, None)
        return i

    # ------------------------------------------------------------ P terms
    def to_p(self, st, v):
        if v is NULL:
            return null
        if isinstance(v, PT):
            return v.t
        if isinstance(v, Elem):
            if st.decide(v.i == 0) is not True:
                raise Unsupported('interior pointer stored')
            if v.arr[0] == 'route':
                return cxm.ROUTE(v.arr[1])
            return st.p_of(v.arr[1])
        if isinstance(v, BoxP):
            if any(v.path):
                raise Unsupported('interior box pointer stored')
            return v.t
        if isinstance(v, Ptr):
            path = tuple(v.path)
            while path and path[-1] == 0 and isinstance(st.heap.get(v.obj), Obj) and st.heap[v.obj].ty is not None \
                    and not self.is_root(st.heap[v.obj].ty):
                path = path[:-1]
            return st.p_of(v.obj, path)
        raise Unsupported('pointer %r stored in a link' % (v,))

    def prune(self, st, t):
        t = z3.simplify(t)
        while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            c = t.arg(0)
            t = t.arg(1) if st.need(c) else t.arg(2)
        return t

    def resolve(self, st, v, ty=None):
        """Give a PT pointer its structure. ty: pointed-to type, if known."""
        if not isinstance(v, PT):
            return v
        t = self.prune(st, v.t)
        if t.eq(null):
            return NULL
        d = t.decl()
        if d.eq(cxm.ROUTE):
            return Elem(('route', t.arg(0)), bv(0, 64))
        if d.eq(cxm.SP):
            if ty is None:
                return PT(t)
            if self.is_link(ty) or self.is_linkarr(ty):
                raise Unsupported('pointer to a branch off the route')
            self.cx.note_box(ty, st.where())
            return BoxP(t, (), ty)
        if t.num_args() == 0 and d.name() in st.preg:
            tgt = st.preg[d.name()]
            if isinstance(tgt, Spine):
                raise Unsupported('pointer into a closed chain')
            return tgt
        if ty is None:
            return PT(t)
        raise Unsupported('pointer %s of unknown origin' % t)

    def deref_check(self, st, v):
        if v is NULL:
            raise NilDeref()

    # ------------------------------------------------------------ load / store
    def load(self, st, a, t):
        if a is NULL:
            raise NilDeref()
        if isinstance(a, GlobP):
            if a.name.startswith('encoding/binary.'):
                return StructV([])
            if self.prog.constant_global(a.name) is not None and not a.path:
                return self.const(self.prog.constant_global(a.name))
            tab = self.prog.constant_table(a.name)
            if tab is not None and len(a.path) == 1 and not isinstance(a.path[0], int):
                j = a.path[0]
                r = self.zero(t)
                if z3.is_expr(r):
                    for n, c in sorted(tab.items()):
                        r = If(j == n, self.const(c), r)
                    return z3.simplify(r)
            so = sort_of_safe(self.prog, t)
            if not a.path and isinstance(so, (z3.BitVecSortRef, z3.BoolSortRef)) and ('global', a.name) not in st.writes:
                return z3.Const('hv!global.' + a.name, so)      # it may hold anything
            raise Unsupported('contents of the package variable ' + a.name)
        if isinstance(a, PT):
            a = self.resolve(st, a, t)
            if a is NULL:
                raise NilDeref()
        if isinstance(a, RootF):
            if a.name in st.rootf:
                return st.rootf[a.name]
            raise Unsupported('load of root.' + a.name)
        if isinstance(a, (Cell, Elem)):
            if not self.is_link(t):
                raise Unsupported('link memory read as ' + self.prog.tstr(t))
            vs = [st.read_link_field(a, f) for f in range(3)]
            return LinkV(*vs)
        if isinstance(a, LinkFld):
            v = st.read_link_field(a.addr, a.f)
            return PT(v) if a.f == 0 else v
        if isinstance(a, BoxP):
            self.box_ok(st, a)
            return st.read_box(a.t, tuple(a.path), a.ty)
        if isinstance(a, Ptr):
            if isinstance(a.path, tuple) and len(a.path) and isinstance(a.path[0], tuple) and a.path[0][0] == 'seq':
                return self.seq_load(st, a)
            o = st.heap[a.obj]
            if isinstance(o, HashO):
                return o
            if isinstance(o, FreshArr):
                raise Unsupported('whole link array load')
            return get_path(o.val, a.path)
        raise Unsupported('load from %r' % (a,))

    def box_ok(self, st, a):
        st.oblige('pointer dereferenced as a key/value is a stored leaf', cxm.LEAF(a.t), ('C08',), st.where())

    def store(self, st, a, v):
        if a is NULL:
            raise NilDeref()
        if isinstance(a, GlobP):
            st.writes = st.writes + (('global', a.name),)
            return
        if isinstance(a, PT):
            raise Unsupported('store through unresolved pointer')
        if isinstance(a, RootF):
            if a.name not in st.rootf:
                raise Unsupported('store to root.' + a.name)
            st.rootf[a.name] = v
            st.writes = st.writes + (('root', a.name),)
            return
        if isinstance(a, (Cell, Elem)):
            if not isinstance(v, LinkV):
                raise Unsupported('store of %r to link memory' % (v,))
            if isinstance(a, Elem):
                st.elem_ok(a)
                if a.arr[0] == 'route':
                    if st.need(st.carve(a.arr[1], a.i)):
                        a = Cell(a.arr[1] + 1)
            for f, x in enumerate((v.ptr, v.pm, v.tm)):
                if isinstance(a, Cell):
                    st.write_cell(a.k, f, x)
                else:
                    st.write_elem(a.arr, a.i, f, x)
            return
        if isinstance(a, LinkFld):
            st.write_link_field(a.addr, a.f, self.to_p(st, v) if a.f == 0 else v)
            return
        if isinstance(a, BoxP):
            self.box_ok(st, a)
            st.boxlog = st.boxlog + ((a.t, tuple(a.path), v),)
            st.writes = st.writes + (('box', a.t, tuple(a.path)),)
            return
        if isinstance(a, Ptr):
            if len(a.path) and isinstance(a.path[0], tuple) and a.path[0][0] == 'seq':
                return self.seq_store(st, a, v)
            o = st.heap[a.obj]
            if isinstance(o, HashO):
                if not isinstance(v, HashO):
                    raise Unsupported('store over a hash')
                st.heap[a.obj] = v
                return
            if isinstance(o, FreshArr):
                raise Unsupported('whole link array store')
            st.heap[a.obj] = Obj(o.ty, self.set_path(st, o.val, a.path, v))
            return
        raise Unsupported('store to %r' % (a,))

    def set_path(self, st, cur, path, v):
        if not path:
            return v
        i = path[0]
        if isinstance(cur, StructV):
            fs = list(cur.fs)
            fs[i] = self.set_path(st, fs[i], path[1:], v)
            return StructV(fs)
        if isinstance(cur, ArrV):
            es = list(cur.es)
            es[i] = self.set_path(st, es[i], path[1:], v)
            return ArrV(es)
        if isinstance(cur, LinkV):
            x = [cur.ptr, cur.pm, cur.tm]
            x[i] = self.to_p(st, v) if i == 0 else v
            return LinkV(*x)
        raise Unsupported('store into %r' % (cur,))

    # sequence (append-built) objects
    def seq_elem(self, st, obj, j):
        o = st.heap[obj]
        for (idx, fp, v) in reversed(o.log):
            if fp is None:
                if st.need(j == idx):
                    return v
            else:
                if st.need(j == idx):
                    base = None
                    break
        # gather: apply field writes over the newest full value
        fields = {}
        val = None
        for (idx, fp, v) in reversed(o.log):
            if st.decide(j == idx) is True:
                if fp is None:
                    val = v
                    break
                fields.setdefault(fp, v)
        if val is None:
            val = o.base(st, j) if o.base else UNDEF
        return val, fields

    def seq_load(self, st, a):
        j, path = a.path[0][1], a.path[1:]
        r = self.seq_elem(st, a.obj, j)
        val, fields = r if isinstance(r, tuple) else (r, {})
        for fp, v in fields.items():
            if path[:len(fp)] == fp:
                return get_path(v, path[len(fp):])
        if fields and len(path) == 0:
            if val is UNDEF:
                raise Unsupported('sequence element not described')
            for fp, v in fields.items():
                val = self.set_path(st, val, fp, v)
        if val is UNDEF:
            raise Unsupported('sequence element not described')
        return get_path(val, path)

    def seq_store(self, st, a, v):
        j, path = a.path[0][1], tuple(a.path[1:])
        o = st.heap[a.obj]
        if o.scratch:
            st.writes = st.writes + (wrote(o),)
        st.heap[a.obj] = SeqO(o.base, o.log + ((j, path or None, v),), o.scratch, o.ety)

    # ------------------------------------------------------------ driver
    def run(self, st, stop=None):
        """Execute st until it ends or stop(state, frame, block, target) gives a
        label. Returns [(label, state)]; label 'ret' / 'panic' when the outermost
        function ends."""
        out = []
        work = [st]
        while work:
            s = work.pop()
            r = self.run_path(s, stop)
            for label, s2 in r:
                if label is None:
                    work.append(s2)
                else:
                    out.append((label, s2))
        return out

    def run_path(self, st, stop):
        while True:
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unsupported('step budget exhausted')
            fr = st.frames[-1]
            ins = fr.func.blocks[fr.block]['ins'][fr.ip]
            op = ins['op']
            if op == 'jump':
                r = self.goto(st, fr.func.blocks[fr.block]['succs'][0], stop)
                if r is not None:
                    return r
                continue
            if op == 'if':
                c = z3.simplify(self.val(st, ins['x']))
                succs = fr.func.blocks[fr.block]['succs']
                outs = []
                if z3.is_true(c) or z3.is_false(c):
                    r = self.goto(st, succs[0 if z3.is_true(c) else 1], stop)
                    if r is not None:
                        return r
                    continue
                for cond, tgt in ((c, succs[0]), (z3.Not(c), succs[1])):
                    if check(st.pc + [cond]) != 'unsat':
                        outs.append((cond, tgt))
                if not outs:
                    return []
                res = []
                for n, (cond, tgt) in enumerate(outs):
                    s = st.copy() if n < len(outs) - 1 else st
                    # even when only one side is feasible, remember the branch
                    s.assume_branch(cond)
                    r = self.goto(s, tgt, stop)
                    if r is None:
                        res.append((None, s))
                    else:
                        res += r
                return res
            if op == 'return':
                rs = [self.val_u(st, x) for x in ins['results']]
                st.frames.pop()
                v = None if not rs else (rs[0] if len(rs) == 1 else TupleV(rs))
                if fr.ret is None:
                    st.result = v
                    st.kind = 'ret'
                    return [('ret', st)]
                caller = st.frames[-1]
                if fr.ret:
                    caller.regs[fr.ret] = v
                caller.ip += 1
                continue
            if op == 'panic':
                st.kind = 'panic'
                return [('panic', st)]
            try:
                snap = st.copy() if op in FORKING else None
                r = self.step(st, fr, ins, op)
            except ForkOn as e:
                res = []
                for cond in (e.cond, z3.Not(e.cond)):
                    s = snap.copy()
                    s.assume_branch(cond)
                    if check(s.pc) != 'unsat':
                        res.append((None, s))
                return res
            except NilDeref:
                if self.cx.rootnull:
                    st.kind = 'panic'
                    return [('panic', st)]
                st.oblige('no nil dereference', z3.BoolVal(False), ('C08',), st.where())
                st.kind = 'dead'
                self.deads.append(st)
                return []
            if r is not None:
                return r

    def val_u(self, st, a):
        """Like val, but undefined registers may be returned (never used)."""
        return self.val(st, a)

    def goto(self, st, tgt, stop):
        """Follow an edge. None: st continues at tgt. Otherwise a list of
        (label, state), label None meaning the state continues."""
        fr = st.frames[-1]
        src = fr.block
        if stop is not None:
            lab = stop(st, fr, src, tgt)
            if lab is not None:
                return [(lab, st)]
        loops = fr.func.loops
        if tgt in loops and src not in loops[tgt]:
            res = []
            for s, s_src, s_tgt in self.loop_handler(self, st, tgt):
                s.frames[-1].block = s_src
                r = self.goto(s, s_tgt, stop)
                if r is None:
                    res.append((None, s))
                else:
                    res += r
            return res
        self.enter(st, src, tgt)
        return None

    def enter(self, st, src, tgt):
        fr = st.frames[-1]
        fr.prev, fr.block, fr.ip = src, tgt, 0
        self.do_phis(st)

    def do_phis(self, st):
        fr = st.frames[-1]
        blk = fr.func.blocks[fr.block]
        vals = []
        pi = None
        for ins in blk['ins']:
            if ins['op'] != 'phi':
                break
            if pi is None:
                pi = blk['preds'].index(fr.prev)
            e = ins['edges'][pi]
            if e['k'] == 'reg':
                vals.append((ins['r'], fr.regs.get(e['n'], UNDEF)))
            else:
                vals.append((ins['r'], self.val(st, e)))
        for r, v in vals:
            fr.regs[r] = v
        fr.ip = len(vals)

    # ------------------------------------------------------------ instructions
    def step(self, st, fr, ins, op):
        m = getattr(self, 'i_' + op, None)
        if m is None:
            raise Unsupported('instruction %s (%s)' % (op, ins.get('what', '')))
        v = m(st, fr, ins)
        if v is CALL:
            return None
        if isinstance(v, list):      # several successor states: [(state, value)]
            res = []
            for s, x in v:
                f2 = s.frames[-1]
                if ins.get('r'):
                    f2.regs[ins['r']] = x
                f2.ip += 1
                res.append((None, s))
            return res
        if ins.get('r'):
            fr.regs[ins['r']] = v
        fr.ip += 1
        return None

    def i_phi(self, st, fr, ins):
        raise Unsupported('phi out of place')

    def i_alloc(self, st, fr, ins):
        t = self.prog.types[ins['t']]['elem']
        i = st.new_id()
        if self.is_linkarr(t):
            st.heap[i] = FreshArr(i, bv(self.prog.under(t)['len'], 64), (), True)
            return Elem(('fresh', i), bv(0, 64))
        u = self.prog.under(t)
        if u['kind'] == 'array' and self.prog.under(u['elem'])['kind'] == 'struct':
            z = self.zero(u['elem'])
            st.heap[i] = SeqO(lambda s, j: z, (), None, u['elem'])
            return Ptr(i, ())
        z = self.zero(t)
        if isinstance(z, HashO):
            st.heap[i] = z
            return Ptr(i, ())
        st.heap[i] = Obj(t, z)
        return Ptr(i, ())

    def i_makeslice(self, st, fr, ins):
        ety = self.prog.under(ins['t'])['elem']
        ln, cap = zx(self.val(st, ins['len']), 64), zx(self.val(st, ins['cap']), 64)
        st.oblige('make: length and capacity in range', And(ULE(ln, cap), ULE(cap, bv(1 << 32, 64))), ('C08',), st.where())
        i = st.new_id()
        if self.is_link(ety):
            st.heap[i] = FreshArr(i, z3.simplify(cap), (), True)
            return LinkSl(('fresh', i), bv(0, 64), ln, cap)
        if self.prog.under(ety)['kind'] != 'struct':
            raise Unsupported('make of ' + self.prog.types[ety]['str'])
        z = self.zero(ety)
        st.heap[i] = SeqO(lambda s, j: z, (), None, ety)
        return SliceV(i, bv(0, 64), ln, cap)

    def i_binop(self, st, fr, ins):
        x, y, o = self.val(st, ins['x']), self.val(st, ins['y']), ins['o']
        r = self.binop(st, o, x, y, ins)
        if o in ('&', '%', '>>', '&^') and z3.is_bv(r) and has_hash(r):
            r = self.as_digit(st, r)
        return r

    def as_digit(self, st, r):
        """Replace a value computed from a hash by the digit it is known to equal."""
        r = z3.simplify(r)
        if check([UGE(r, bv(16, r.size()))]) != 'unsat':
            return r
        cx = self.cx
        apps = hash_apps(r)
        keys = {a.arg(1).get_id(): a.arg(1) for a in apps}.values()
        levels = {}
        for L in [cx.D, cx.S, bv(0, 8)] + bv8_consts(st.pc + [r]):
            for t in (L, z3.simplify(L + 1), z3.simplify(L - 1)):
                levels.setdefault(t.get_id(), t)
        cand = [(kap, L) for kap in keys for L in levels.values()]
        for kap, L in cand:
            if z3.simplify(zx(cx.digdef(kap, L), r.size())).eq(r):
                return zx(cx.dig(kap, L), r.size())
        # tell nibbles apart: H := 0xfedcba9876543210 makes nibble j read as j
        probe = z3.substitute(r, *[(a, bv(0xfedcba9876543210, 64)) for a in apps])
        test = {}
        for kap, L in cand:
            n = hash_apps(cx.digdef(kap, L))[0].arg(2)
            test[kap.get_id(), L.get_id()] = z3.And(z3.Or([a.arg(2) == n for a in apps]), probe == zx(L & 15, r.size()))
        pc = [f for f in st.pc if not has_hash(f)]
        res, m = check(pc, want_model=True)
        while cand:
            if m is not None:
                cand = [c for c in cand if z3.is_true(m.eval(test[c[0].get_id(), c[1].get_id()], model_completion=True))]
            if not cand:
                break
            kap, L = cand.pop(0)
            res, m = check(pc + [z3.Not(test[kap.get_id(), L.get_id()])], want_model=True)
            if res == 'unsat':
                if st.valid(zx(cx.digdef(kap, L), r.size()) == r):
                    return zx(cx.dig(kap, L), r.size())
                m = None
        return r

    def binop(self, st, o, x, y, ins):
        if isinstance(x, AddrInt) or isinstance(y, AddrInt):
            if o == '+':
                if isinstance(y, AddrInt):
                    x, y = y, x
                if isinstance(y, AddrInt):
                    raise Unsupported('sum of addresses')
                return AddrInt(x.base, x.off + y, self.mul16(st, x, y))
            if o == '-' and isinstance(x, AddrInt) and not isinstance(y, AddrInt):
                d = self.mul16(st, AddrInt(x.base, x.off, bv(0, 64)), y)
                return AddrInt(x.base, x.off - y, None if d is None or x.idx is None else x.idx - d)
            raise Unsupported('address arithmetic ' + o)
        if z3.is_bv(x) and z3.is_bv(y):
            ty = ins['x']['t']
            uns = self.prog.unsigned(ty)
            if o in ('<<', '>>'):
                ys = not self.prog.unsigned(ins['y']['t'])
                if ys:
                    st.oblige('shift count not negative', y >= 0, ('C08',), st.where())
                if o == '<<':
                    return shl(x, y)
                return shr(x, y) if uns else sar(x, y)
            if o == '+':
                return x + y
            if o == '-':
                return x - y
            if o == '*':
                r = x * y
                for a, b in ((x, y), (y, x)):
                    if z3.is_bv_value(b) and b.as_long() == 16:
                        st.ghost[('x16', z3.simplify(r).get_id())] = (z3.simplify(r), a)
                return r
            if o in ('/', '%'):
                st.oblige('no division by zero', y != 0, ('C08',), st.where())
                if o == '/':
                    return z3.UDiv(x, y) if uns else x / y
                return z3.URem(x, y) if uns else z3.SRem(x, y)
            if o == '&':
                return x & y
            if o == '|':
                return x | y
            if o == '^':
                return x ^ y
            if o == '&^':
                return x & ~y
            if o == '==':
                return x == y
            if o == '!=':
                return x != y
            if o == '<':
                return z3.ULT(x, y) if uns else x < y
            if o == '<=':
                return z3.ULE(x, y) if uns else x <= y
            if o == '>':
                return z3.UGT(x, y) if uns else x > y
            if o == '>=':
                return z3.UGE(x, y) if uns else x >= y
            raise Unsupported('binop ' + o)
        if o in ('==', '!='):
            e = self.equal(st, x, y)
            return e if o == '==' else z3.Not(e)
        if z3.is_expr(x) and z3.is_expr(y) and x.sort() == Flt and o == '/':
            return fdiv(x, y)
        if z3.is_bool(x) and z3.is_bool(y):
            if o in ('&', '&&'):
                return z3.And(x, y)
            if o in ('|', '||'):
                return z3.Or(x, y)
        raise Unsupported('binop %s on %r, %r' % (o, x, y))

    def mul16(self, st, a, y):
        if a.idx is None:
            return None
        k = ('x16', z3.simplify(y).get_id())
        if k in st.ghost:
            return a.idx + st.ghost[k][1]
        ys = z3.simplify(y)
        if z3.is_bv_value(ys) and ys.as_long() % 16 == 0:
            return a.idx + bv(ys.as_long() // 16, 64)
        return None

    def equal(self, st, x, y):
        if z3.is_expr(x) and z3.is_expr(y):
            if x.sort() != y.sort():
                raise Unsupported('comparison of different sorts')
            return x == y
        if isinstance(x, StructV) and isinstance(y, StructV):
            return And([self.equal(st, a, b) for a, b in zip(x.fs, y.fs)])
        if x is UNIT and y is UNIT:
            return z3.BoolVal(True)
        if isinstance(x, PT):
            x = self.resolve(st, x)
        if isinstance(y, PT):
            y = self.resolve(st, y)
        if isinstance(x, PT) or isinstance(y, PT):
            return self.to_p(st, x) == self.to_p(st, y)
        if x is NULL and y is NULL:
            return z3.BoolVal(True)
        if x is NULL or y is NULL:
            o = y if x is NULL else x
            if isinstance(o, BoxP):
                return o.t == null
            if isinstance(o, (NilSlice,)):
                return z3.BoolVal(True)
            if isinstance(o, SliceV):
                return z3.BoolVal(False)
            if isinstance(o, (Ptr, Elem, Cell, Root, RootF, LinkFld, FnV, CB)):
                return z3.BoolVal(False)
            if z3.is_expr(o) and o.sort() == Key:
                return z3.FreshConst(z3.BoolSort(), 'isnil')
        x, y = st.norm_addr(x), st.norm_addr(y)
        if isinstance(x, Cell) and isinstance(y, Cell):
            return x.k == y.k
        if isinstance(x, Elem) and isinstance(y, Elem) and x.arr[0] == y.arr[0]:
            if x.arr[0] == 'fresh':
                return And(z3.BoolVal(x.arr[1] == y.arr[1]), x.i == y.i)
            return And(x.arr[1] == y.arr[1], x.i == y.i)
        if isinstance(x, BoxP) and isinstance(y, BoxP) and tuple(x.path) == tuple(y.path):
            return x.t == y.t
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            return z3.BoolVal(x.obj == y.obj and tuple(x.path) == tuple(y.path))
        if type(x) is not type(y) and {type(x), type(y)} <= {Ptr, BoxP, Root}:
            return z3.BoolVal(False)
        raise Unsupported('comparison of %r and %r' % (x, y))

    def i_unop(self, st, fr, ins):
        o = ins['o']
        if o == '*':
            a = self.val(st, ins['x'])
            return self.load(st, a, ins['t'])
        x = self.val(st, ins['x'])
        if o == '!':
            return z3.Not(x)
        if o == '-':
            return -x
        if o == '^':
            return ~x
        raise Unsupported('unop ' + o)

    def i_store(self, st, fr, ins):
        a = self.val(st, ins['addr'])
        if isinstance(a, PT):
            a = self.resolve(st, a, self.prog.types[ins['addr']['t']]['elem'] if self.prog.types[ins['addr']['t']]['kind'] == 'pointer' else None)
        self.store(st, a, self.val(st, ins['val']))

    def i_changetype(self, st, fr, ins):
        return self.val(st, ins['x'])

    def i_makeinterface(self, st, fr, ins):
        return IfaceV(self.val(st, ins['x']))

    def i_convert(self, st, fr, ins):
        v = self.val(st, ins['x'])
        st_, dt = ins['x']['t'], ins['t']
        su, du = self.prog.under(st_), self.prog.under(dt)
        if z3.is_bv(v):
            if du['kind'] == 'basic' and 'bits' in du:
                r = zx(v, du['bits']) if self.prog.unsigned(st_) or du['bits'] <= v.size() else sx(v, du['bits'])
                return r
            if du['kind'] == 'basic' and du['name'] == 'float64':
                if not self.prog.unsigned(st_) and v.size() == 64:
                    return z3.Function('int64tofloat', B64, Flt)(v)
                return toF(zx(v, 64))
            if du['kind'] == 'basic' and du['name'] in ('unsafe.Pointer', 'Pointer'):
                raise Unsupported('integer to pointer')
        if isinstance(v, AddrInt):
            if du['kind'] == 'basic' and du['name'] in ('unsafe.Pointer', 'Pointer'):
                return self.addr_to_ptr(st, v)
            if du['kind'] == 'basic' and du['name'] in ('uintptr',):
                return v
            raise Unsupported('address to ' + du.get('name', '?'))
        if z3.is_expr(v) and v.sort() == Key:
            return v
        if du['kind'] == 'basic' and du['name'] == 'uintptr':
            return AddrInt(v, bv(0, 64), bv(0, 64))
        if du['kind'] == 'basic' and du['name'] in ('unsafe.Pointer', 'Pointer'):
            return v
        if du['kind'] == 'pointer' or self.prog.types[dt]['kind'] == 'pointer':
            ety = du['elem']
            if isinstance(v, PT):
                v = self.resolve(st, v, ety)
            self.check_cast(st, v, ety)
            return v
        raise Unsupported('conversion %s -> %s' % (self.prog.tstr(st_), self.prog.tstr(dt)))

    def check_cast(self, st, v, ety):
        if v is NULL:
            return
        if isinstance(v, (Elem, Cell)):
            if not (self.is_link(ety) or self.is_linkarr(ety)):
                raise Unsupported('link memory cast to ' + self.prog.tstr(ety))
            return
        if isinstance(v, BoxP):
            if v.path == ():
                if self.prog.layout(v.ty) != self.prog.layout(ety):
                    raise Unsupported('box cast')
            return
        if isinstance(v, Ptr):
            o = st.heap[v.obj]
            if v.path == () and isinstance(o, Obj) and self.prog.layout(o.ty) == self.prog.layout(ety):
                return
            raise Unsupported('cast of %s to %s' % (v, self.prog.tstr(ety)))
        if isinstance(v, Root):
            return
        raise Unsupported('cast of %r' % (v,))

    def addr_to_ptr(self, st, a):
        b = self.resolve(st, a.base)
        off = z3.simplify(a.off)
        if z3.is_bv_value(off) and off.as_long() == 0:
            return b
        if b is NULL:
            raise NilDeref()
        if isinstance(b, Elem):
            idx = a.idx
            if idx is None:
                st.oblige('link address aligned', (off & 15) == 0, ('C08',), st.where())
                idx = z3.LShR(off, 4)
            return Elem(b.arr, z3.simplify(b.i + idx))
        raise Unsupported('pointer arithmetic on %r' % (b,))

    def i_field(self, st, fr, ins):
        x = self.val(st, ins['x'])
        return self.field_of(x, ins['i'])

    def field_of(self, x, i):
        if isinstance(x, StructV):
            return x.fs[i]
        if isinstance(x, LinkV):
            return (PT(x.ptr), x.pm, x.tm)[i]
        raise Unsupported('field of %r' % (x,))

    def i_fieldaddr(self, st, fr, ins):
        a = self.val(st, ins['x'])
        pt = self.prog.types[ins['x']['t']]
        while pt['kind'] == 'named':
            pt = self.prog.types[pt['underlying']]
        sty = pt['elem']
        if isinstance(a, PT):
            a = self.resolve(st, a, sty)
        if a is NULL:
            raise NilDeref()
        i = ins['i']
        if isinstance(a, GlobP):
            return GlobP(a.name, tuple(a.path) + (i,))
        if isinstance(a, Root):
            f = self.prog.struct_fields(sty)[i]
            if self.is_link(f['type']):
                return Cell(bv(0, 8))
            if self.is_linkarr(f['type']):
                return Elem(('route', bv(0, 8)), bv(0, 64))
            return RootF(f['name'])
        if isinstance(a, (Cell, Elem)):
            return LinkFld(a, self.link_role(sty, i))
        if isinstance(a, BoxP):
            return BoxP(a.t, tuple(a.path) + (i,), a.ty)
        if isinstance(a, Ptr):
            return Ptr(a.obj, tuple(a.path) + (i,))
        raise Unsupported('field address of %r' % (a,))

    def i_index(self, st, fr, ins):
        x = self.val(st, ins['x'])
        i = z3.simplify(self.val(st, ins['i']))
        if isinstance(x, ArrV) and z3.is_bv_value(i):
            return x.es[i.as_long()]
        raise Unsupported('index of %r' % (x,))

    def i_indexaddr(self, st, fr, ins):
        a = self.val(st, ins['x'])
        i = self.val(st, ins['i'])
        i = zx(i, 64) if self.prog.unsigned(ins['i']['t']) else sx(i, 64)
        xt = self.prog.under(ins['x']['t'])
        if xt['kind'] == 'pointer':
            at = xt['elem']
            n = self.prog.under(at)['len']
            if isinstance(a, PT):
                a = self.resolve(st, a, at)
            if a is NULL:
                raise NilDeref()
            st.oblige('index in range', ULT(i, bv(n, 64)), ('C08',), st.where())
            if isinstance(a, Elem):
                return Elem(a.arr, z3.simplify(a.i + i))
            if isinstance(a, RootF) and a.name == 'path':
                if 'rootpath' not in st.heap:
                    st.heap['rootpath'] = SeqO(None, (), True, None)
                return Ptr('rootpath', (('seq', i),))
            if isinstance(a, GlobP):
                if not a.path and self.prog.constant_table(a.name) is not None:
                    return GlobP(a.name, (i,))
                return Ptr(self.glob_obj(st, a.name), (('seq', i),)) if not a.path else GlobP(a.name, tuple(a.path) + (0,))
            if isinstance(a, Ptr):
                i = z3.simplify(i)
                if isinstance(st.heap[a.obj], SeqO) and tuple(a.path) == ():
                    return Ptr(a.obj, (('seq', i),))
                if z3.is_bv_value(i):
                    return Ptr(a.obj, tuple(a.path) + (i.as_long(),))
            raise Unsupported('symbolic index of local array')
        if isinstance(a, SliceV):
            st.oblige('index in range', ULT(i, a.len), ('C08',), st.where())
            return Ptr(a.obj, (('seq', z3.simplify(a.off + i)),))
        if isinstance(a, LinkSl):
            st.oblige('index in range', ULT(i, a.len), ('C08',), st.where())
            return Elem(a.arr, z3.simplify(a.off + i))
        if isinstance(a, NilSlice):
            st.oblige('index in range', z3.BoolVal(False), ('C08',), st.where())
            raise Unsupported('index of nil slice')
        if isinstance(a, SliceA) and isinstance(a.n, int):
            i = z3.simplify(i)
            if z3.is_bv_value(i) and i.as_long() < a.n:
                return Ptr(a.ptr.obj, tuple(a.ptr.path) + (i.as_long(),))
        raise Unsupported('index address of %r' % (a,))

    def i_slice(self, st, fr, ins):
        a = self.val(st, ins['x'])
        lo = self.val(st, ins['lo'])
        hi = self.val(st, ins['hi'])
        mx = self.val(st, ins['max'])
        w = lambda t, x: None if x is None else (zx(x, 64) if self.prog.unsigned(t['t']) else sx(x, 64))
        lo, hi, mx = w(ins['lo'], lo), w(ins['hi'], hi), w(ins['max'], mx)
        xt = self.prog.under(ins['x']['t'])
        if a is NULL:
            raise NilDeref()
        if z3.is_expr(a) and a.sort() == Key:
            if (lo is None or (z3.is_bv_value(z3.simplify(lo)) and z3.simplify(lo).as_long() == 0)) and hi is None:
                return a
            raise Unsupported('part of a key')
        if isinstance(a, PT):
            a = self.resolve(st, a, xt['elem'])
        if isinstance(a, RootF) and a.name == 'path':
            n = bv(self.path_cap(), 64)
            lo = bv(0, 64) if lo is None else lo
            hi = n if hi is None else hi
            st.oblige('slice bounds', And(ULE(lo, hi), ULE(hi, n)), ('C08',), st.where())
            if 'rootpath' not in st.heap:
                st.heap['rootpath'] = SeqO(None, (), True, None)
            return SliceV('rootpath', lo, hi - lo, n - lo)
        if isinstance(a, GlobP) and not a.path and xt['kind'] == 'pointer':
            n = bv(self.prog.under(xt['elem'])['len'], 64)
            lo = bv(0, 64) if lo is None else lo
            hi = n if hi is None else hi
            st.oblige('slice bounds', And(ULE(lo, hi), ULE(hi, n)), ('C08',), st.where())
            i = self.glob_obj(st, a.name)
            st.heap[i] = SeqO(st.heap[i].base, st.heap[i].log, i, self.prog.under(xt['elem'])['elem'])
            return SliceV(i, lo, hi - lo, n - lo)
        if isinstance(a, Ptr) and tuple(a.path) == () and isinstance(st.heap[a.obj], SeqO) and xt['kind'] == 'pointer':
            n = bv(self.prog.under(xt['elem'])['len'], 64)
            lo = bv(0, 64) if lo is None else lo
            hi = n if hi is None else hi
            st.oblige('slice bounds', And(ULE(lo, hi), ULE(hi, n)), ('C08',), st.where())
            return SliceV(a.obj, z3.simplify(lo), z3.simplify(hi - lo), z3.simplify(n - lo))
        if isinstance(a, SliceV):
            lo = bv(0, 64) if lo is None else lo
            hi = a.len if hi is None else hi
            st.oblige('slice bounds', And(ULE(lo, hi), ULE(hi, a.cap)), ('C08',), st.where())
            return SliceV(a.obj, z3.simplify(a.off + lo), z3.simplify(hi - lo), z3.simplify(a.cap - lo))
        if isinstance(a, Elem):
            n = bv(self.prog.under(xt['elem'])['len'], 64)
            lo = bv(0, 64) if lo is None else lo
            hi = n if hi is None else hi
            st.oblige('slice bounds', And(ULE(lo, hi), ULE(hi, n)), ('C08',), st.where())
            return LinkSl(a.arr, z3.simplify(a.i + lo), z3.simplify(hi - lo), z3.simplify(n - lo))
        if isinstance(a, LinkSl):
            lo = bv(0, 64) if lo is None else lo
            hi = a.len if hi is None else hi
            st.oblige('slice bounds', And(ULE(lo, hi), ULE(hi, a.cap)), ('C08',), st.where())
            return LinkSl(a.arr, z3.simplify(a.off + lo), z3.simplify(hi - lo), z3.simplify(a.cap - lo))
        if isinstance(a, Ptr):
            n = self.prog.under(xt['elem'])['len']
            if (lo is None or z3.simplify(lo).eq(bv(0, 64))) and (hi is None or z3.simplify(hi).eq(bv(n, 64))):
                return SliceA(a, n)
            l = z3.simplify(lo) if lo is not None else bv(0, 64)
            h = z3.simplify(hi) if hi is not None else bv(n, 64)
            if z3.is_bv_value(l) and z3.is_bv_value(h) and l.as_long() <= h.as_long() <= n:
                return SliceA(a, (l.as_long(), h.as_long()))
        if isinstance(a, SliceA) and lo is None and hi is None:
            return a
        raise Unsupported('slice of %r' % (a,))

    def path_cap(self):
        t = self.prog.decls['root']
        for f in self.prog.struct_fields(t):
            if f['name'] == 'path':
                return self.prog.under(f['type'])['len']
        raise Unsupported('root.path')

    def i_extract(self, st, fr, ins):
        x = self.val(st, ins['x'])
        return x.vs[ins['i']]

    def i_makeclosure(self, st, fr, ins):
        return FnV(ins['fn'], [self.val(st, b) for b in ins['bind']])

    # ------------------------------------------------------------ calls
    def i_call(self, st, fr, ins):
        args = [self.val(st, a) for a in ins['args']]
        if 'invoke' in ins:
            return self.invoke(st, ins['invoke'], self.val(st, ins['recv']), args)
        fn = ins['fn']
        if fn['k'] == 'builtin':
            return self.builtin(st, fn['n'], args, ins)
        if fn['k'] == 'reg':
            fv = self.val(st, fn)
            if isinstance(fv, CB):
                return self.callback(st, fv, args, ins)
            if isinstance(fv, FnV):
                return self.call_fn(st, fr, ins, fv.fn, args, fv.binds)
            if fv is NULL:
                raise NilDeref()
            raise Unsupported('call of %r' % (fv,))
        return self.call_fn(st, fr, ins, fn, args, [])

    def call_fn(self, st, fr, ins, fn, args, binds):
        name = fn['n']
        key = fn['pkg'] + '.' + fn['short'] if fn['pkg'] != self.prog.pkg else None
        h = STD.get(name) or (STD.get(key) if key else None)
        if h is not None:
            return h(self, st, args, ins)
        c = self.contracts.get(name)
        if c is not None and not binds:
            r = c(self, st, args, ins)
            if r is not NotImplemented:
                self.cx.callees.add(name)
                return r
        f = self.prog.funcs.get(name)
        if f is None:
            raise Unsupported('call of external function ' + name)
        if any(x.func is f for x in st.frames):
            raise Unsupported('recursive call of ' + name)
        if len(st.frames) > 12:
            raise Unsupported('call depth')
        if f.irreducible:
            raise Unsupported('irreducible control flow in ' + name)
        self.cx.inlined.add(name)
        self.push(st, f, args, binds, ins.get('r', ''))
        return CALL

    def push(self, st, f, args, binds=(), ret=None):
        regs = {}
        for p, v in zip(f.params, args):
            regs[p['n']] = v
        for p, v in zip(f.freevars, binds):
            regs[p['n']] = v
        fr = Frame(f, regs)
        fr.ret = ret
        st.frames.append(fr)

    def invoke(self, st, meth, recv, args):
        if meth == 'Equal' and len(args) == 1:
            return self.equal(st, recv, args[0])
        if meth == 'Hash' and len(args) == 2:
            return GH(args[0], recv, args[1])
        if meth == 'KeyBytes' and not args:
            return KeyArr(recv)
        raise Unsupported('method ' + meth)

    def callback(self, st, cb, args, ins):
        """Call of a function parameter: an event; may write through its pointers."""
        res_t = self.prog.under(ins['fn']['t'])['results']
        n = st.new_id()
        r = None
        if len(res_t) == 1:
            r = z3.Bool('cbres_%d' % n)
        elif res_t:
            raise Unsupported('callback results')
        snap = dict(cells=st.cells, elems=st.elems, boxlog=st.boxlog, rootf=dict(st.rootf), writes=st.writes)
        vals = []
        for ai, a in enumerate(args):
            if isinstance(a, (Ptr, BoxP)):
                t0 = self.prog.under(ins['args'][ai]['t'])['elem']
                before = self.load(st, a, t0)
                vals.append(before)
                if z3.is_expr(before) and before.sort() == Val:
                    new = z3.Const('cbval_%d' % n, Val)
                    if isinstance(a, BoxP):
                        st.boxlog = st.boxlog + ((a.t, tuple(a.path), new, 'cb'),)
                    else:
                        self.store(st, a, new)
                else:
                    raise Unsupported('callback argument pointer')
            elif isinstance(a, (Cell, Elem, Root, RootF, LinkFld, PT)):
                raise Unsupported('internal pointer passed to callback')
            else:
                vals.append(None)
        st.events = st.events + (('cb', cb.name, tuple(args), r, snap, tuple(vals), n),)
        return r

    def builtin(self, st, n, args, ins):
        a = args[0]
        if n == 'len':
            if isinstance(a, (SliceV, LinkSl)):
                return a.len
            if isinstance(a, NilSlice):
                return bv(0, 64)
            if isinstance(a, SliceA):
                return bv(a.n if isinstance(a.n, int) else a.n[1] - a.n[0], 64)
            if z3.is_expr(a) and a.sort() == Key:
                return z3.Function('keyLen', Key, B64)(a)
            if isinstance(a, ArrV):
                return bv(len(a.es), 64)
        if n == 'cap' and isinstance(a, (SliceV, LinkSl)):
            return a.cap
        if n in ('min', 'max') and all(z3.is_bv(x) for x in args):
            r = a
            uns = self.prog.unsigned(ins['t'])
            for y in args[1:]:
                lt = ULT(r, y) if uns else r < y
                r = If(lt, r, y) if n == 'min' else If(lt, y, r)
            return r
        if n == 'append':
            return self.append(st, a, args[1], ins)
        if n == 'copy':
            return self.copy(st, a, args[1])
        if n == 'ssa:wrapnilchk':
            if a is NULL:
                raise NilDeref()
            return a
        if n == 'Add':
            return self.addr_to_ptr(st, self.binop(st, '+', AddrInt(a, bv(0, 64), bv(0, 64)), zx(args[1], 64) if self.prog.unsigned(ins['args'][1]['t']) else sx(args[1], 64), ins))
        if n == 'Slice':
            ety = self.prog.under(ins['t'])['elem']
            p = self.resolve(st, a, ety)
            ln = zx(args[1], 64) if self.prog.unsigned(ins['args'][1]['t']) else sx(args[1], 64)
            if isinstance(p, Elem):
                # every access through the slice is checked against the array
                return LinkSl(p.arr, p.i, ln, ln)
        if n == 'clear' and isinstance(a, SliceV):
            o = st.heap[a.obj]
            st.heap[a.obj] = SeqO(None, (), o.scratch, o.ety)
            if o.scratch:
                st.writes = st.writes + (wrote(o),)
            return None
        raise Unsupported('builtin %s of %r' % (n, a))

    def append(self, st, a, b, ins):
        ety = self.prog.under(ins['t'])['elem']
        if isinstance(a, NilSlice):
            i = st.new_id()
            st.heap[i] = SeqO(None, (), False, ety)
            a = SliceV(i, bv(0, 64), bv(0, 64), bv(0, 64))
        bn = z3.simplify(b.len) if isinstance(b, SliceV) else None
        if isinstance(a, SliceV) and bn is not None and z3.is_bv_value(bn) and bn.as_long() <= 16:
            new = [self.seq_load(st, Ptr(b.obj, (('seq', z3.simplify(b.off + j)),))) for j in range(bn.as_long())]
        elif isinstance(a, SliceV) and isinstance(b, SliceA) and isinstance(b.n, int):
            new = get_path(st.heap[b.ptr.obj].val, b.ptr.path).es
        else:
            raise Unsupported('append')
        if st.decide(a.off == 0) is not True:
            raise Unsupported('append to a part of a slice')
        o = st.heap[a.obj]
        log = o.log
        ln = a.len
        for e in new:
            log = log + ((z3.simplify(ln), None, self.norm_val(st, e)),)
            ln = z3.simplify(ln + 1)
        i = st.new_id()
        st.heap[i] = SeqO(o.base, log, o.scratch, ety)
        if o.scratch:
            st.writes = st.writes + (wrote(o),)
        st.heap[a.obj] = SeqO(None, (), o.scratch, ety)     # old backing array: contents no longer known
        cap = z3.BitVec('cap_%d' % i, 64)
        st.assume(UGE(cap, ln), ULT(cap, bv(1 << 32, 64)))
        return SliceV(i, bv(0, 64), ln, cap)

    def norm_val(self, st, e):
        if isinstance(e, StructV):
            return StructV([self.norm_val(st, x) for x in e.fs])
        if isinstance(e, (Elem, Cell)):
            return st.norm_addr(e)
        return e

    def copy(self, st, d, s):
        if not (isinstance(d, LinkSl) and isinstance(s, LinkSl)):
            raise Unsupported('copy')
        n = z3.simplify(If(ULT(d.len, s.len), d.len, s.len))
        # source snapshot
        if d.arr[0] == 'route':
            D, k = self.cx.D, d.arr[1]
            if st.decide(And(ULT(k, D), st.cx.carve)) is not False:
                raise Unsupported('copy over a route array')
        if s.arr[0] == 'route' and st.decide(And(ULT(s.arr[1], self.cx.D), st.cx.carve)) is not False:
            raise Unsupported('copy from a route array')
        st.oblige('copy within the arrays', And(ULE(d.off + n, st.arr_cap(d.arr)), ULE(s.off + n, st.arr_cap(s.arr))), ('C08',), st.where())
        snap = st.copy()
        soff, doff, sarr = s.off, d.off, s.arr

        def src(f, x):
            if sarr[0] == 'route':
                return snap._fold_elem(f, sarr[1], x, snap.elems, len(snap.elems))
            return snap._fold_fresh(snap.heap[sarr[1]], f, x, len(snap.heap[sarr[1]].log))
        if d.arr[0] == 'route':
            k0 = d.arr[1]

            def lam(s2, f, k, i, rest):
                return If(And(k == k0, UGE(i, doff), ULT(i - doff, n)), src(f, i - doff + soff), rest())
            st.elems = st.elems + (('lam', lam),)
            st.writes = st.writes + (('elem', k0, None, None),)
        else:
            o = st.heap[d.arr[1]]

            def lam2(s2, f, i, rest):
                return If(And(UGE(i, doff), ULT(i - doff, n)), src(f, i - doff + soff), rest())
            st.heap[d.arr[1]] = FreshArr(o.id, o.cap, o.log + (('lam', lam2),), o.zero)
        return n


def wrote(o):
    return ('scratch',) if o.scratch is True else ('global', o.scratch[7:])


class GlobP(Val_):     # address of (a part of) a package-level variable
    _f = ('name', 'path')


class NilDeref(Exception):
    pass


CALL = object()
FORKING = {'store', 'unop', 'call', 'convert', 'binop', 'fieldaddr', 'indexaddr', 'slice'}


def sort_of_safe(prog, t):
    try:
        return sort_of(prog, t)
    except Unsupported:
        return 'x'


def get_path(v, path):
    for i in path:
        if v is UNDEF:
            raise Unsupported('undescribed value')
        if isinstance(v, StructV):
            v = v.fs[i]
        elif isinstance(v, ArrV):
            v = v.es[i]
        elif isinstance(v, LinkV):
            v = (PT(v.ptr), v.pm, v.tm)[i]
        else:
            raise Unsupported('path into %r' % (v,))
    return v


# ---------------------------------------------------------------- standard library
def std_ones(e, st, a, ins):
    return zx(popcnt(a[0]), 64)


def std_tz(e, st, a, ins):
    return zx(ctz(a[0]), 64)


def std_len(e, st, a, ins):
    return zx(bitlen(a[0]), 64)


def std_lz(e, st, a, ins):
    return zx(bv(a[0].size(), a[0].size()) - bitlen(a[0]), 64)


def hobj(e, st, p):
    if p is NULL:
        raise NilDeref()
    if isinstance(p, Ptr):
        o = st.heap[p.obj]
        if tuple(p.path) == () and isinstance(o, HashO):
            return p, o
        if isinstance(o, Obj):
            h = get_path(o.val, p.path)
            if isinstance(h, HashO):
                return p, h
    raise Unsupported('hash object')


def hset(e, st, p, h):
    if tuple(p.path) == ():
        st.heap[p.obj] = h
    else:
        o = st.heap[p.obj]
        st.heap[p.obj] = Obj(o.ty, e.set_path(st, o.val, tuple(p.path), h))


def content_of(e, st, v):
    if z3.is_expr(v) and v.sort() == Key:
        return v
    if isinstance(v, SliceA):
        arr = get_path(st.heap[v.ptr.obj].val, v.ptr.path)
        lo, hi = (0, v.n) if isinstance(v.n, int) else v.n
        if isinstance(arr, KeyArr):
            return arr.key if (lo, hi) == (0, 64) else z3.Function('bytes_%d_%d' % (lo, hi), Key, Key)(arr.key)
        if isinstance(arr, ArrV) and hi > lo:
            bs = arr.es[lo:hi]
            return z3.simplify(z3.Concat(list(reversed(bs))) if len(bs) > 1 else bs[0])
    raise Unsupported('hashed content')


def h_seed(e, st, a, ins):
    i, h = hobj(e, st, a[0])
    hset(e, st, i, HashO(a[1], None, bv(0, 64)))


def h_write(e, st, a, ins):
    i, h = hobj(e, st, a[0])
    c = content_of(e, st, a[1])
    if h.content is None or st.decide(h.n == 0) is True:
        hset(e, st, i, HashO(h.seed, c, bv(1, 64)))
    elif not isinstance(h.content, tuple) and not isinstance(c, tuple) and h.content.sort() == c.sort() and st.decide(h.content == c) is True:
        hset(e, st, i, HashO(h.seed, h.content, z3.simplify(h.n + 1)))
    else:
        hset(e, st, i, HashO(h.seed, ('mix', st.new_id()), bv(0, 64)))
    return TupleV([bv(0, 64), NULL])


def hash_term(st, seed, c, n):
    if isinstance(c, tuple) or c is None or seed is None:
        return z3.BitVec('mixhash_%d' % st.new_id(), 64)
    if c.sort() == Key:
        return HK(seed, c, n)
    if c.size() != 64:
        return z3.Function('HashInt%d' % c.size(), Seed, c.sort(), B64, B64)(seed, c, n)
    return HI(seed, c, n)


def h_sum(e, st, a, ins):
    i, h = hobj(e, st, a[0])
    return hash_term(st, h.seed, h.content, h.n)


def h_reset(e, st, a, ins):
    i, h = hobj(e, st, a[0])
    hset(e, st, i, HashO(h.seed, None, bv(0, 64)))


def h_bytes(e, st, a, ins):
    return hash_term(st, a[0], content_of(e, st, a[1]), bv(1, 64))


def mkseed(e, st, a, ins):
    s = z3.Const('newseed_%d' % st.new_id(), Seed)
    st.assume(s != zeroSeed)
    return s


def bytes_equal(e, st, a, ins):
    if all(z3.is_expr(x) and x.sort() == Key for x in a):
        return a[0] == a[1]
    raise Unsupported('bytes.Equal')


def bin_put(w, big):
    def f(e, st, a, ins):
        b, v = a[-2], a[-1]
        if not (isinstance(b, SliceA) and isinstance(b.n, int) or isinstance(b, SliceA) and isinstance(b.n, tuple)):
            raise Unsupported('encoding/binary on %r' % (b,))
        lo, hi = (0, b.n) if isinstance(b.n, int) else b.n
        st.oblige('index in range', z3.BoolVal(hi - lo >= w), ('C08',), st.where())
        if hi - lo < w:
            raise Unsupported('short buffer')
        for j in range(w):
            i = w - 1 - j if big else j
            e.store(st, Ptr(b.ptr.obj, tuple(b.ptr.path) + (lo + j,)), z3.simplify(z3.Extract(8 * i + 7, 8 * i, v)))
        return None
    return f


def bin_get(w, big):
    def f(e, st, a, ins):
        b = a[-1]
        if not isinstance(b, SliceA):
            raise Unsupported('encoding/binary on %r' % (b,))
        lo, hi = (0, b.n) if isinstance(b.n, int) else b.n
        st.oblige('index in range', z3.BoolVal(hi - lo >= w), ('C08',), st.where())
        if hi - lo < w:
            raise Unsupported('short buffer')
        bs = [e.load(st, Ptr(b.ptr.obj, tuple(b.ptr.path) + (lo + j,)), None) for j in range(w)]
        if not all(z3.is_bv(x) for x in bs):
            raise Unsupported('encoding/binary on key bytes')
        return z3.simplify(z3.Concat(bs if big else list(reversed(bs))))
    return f


ATOMIC = ('Load', 'Store', 'Add', 'Swap', 'CompareAndSwap', 'And', 'Or')


def atomic(op):
    """An atomic access to a field or variable no contract describes: a write is
    recorded, and whatever is read may be anything."""
    def f(e, st, a, ins):
        p = a[0]
        if p is NULL:
            raise NilDeref()
        if isinstance(p, RootF) and p.name not in ('len', 'dep', 'seed'):
            if op != 'Load':
                st.writes = st.writes + (('root', p.name),)
                if p.name in st.rootf:
                    st.rootf[p.name] = z3.FreshConst(st.rootf[p.name].sort(), 'hv')
        elif isinstance(p, GlobP):
            if op != 'Load':
                st.writes = st.writes + (('global', p.name),)
        else:
            raise Unsupported('atomic access')
        if op == 'Store':
            return None
        so = sort_of_safe(e.prog, ins['t'])
        if not isinstance(so, (z3.BitVecSortRef, z3.BoolSortRef)):
            raise Unsupported('atomic access')
        return z3.FreshConst(so, 'hv')
    return f


STD = {
    **{'sync/atomic.%s%s' % (op, ty): atomic(op) for op in ATOMIC for ty in ('Int32', 'Int64', 'Uint32', 'Uint64', 'Uintptr')},
    **{'(*sync/atomic.%s).%s' % (ty, op): atomic(op) for op in ATOMIC for ty in ('Int32', 'Int64', 'Uint32', 'Uint64', 'Uintptr', 'Bool')},
    **{'(encoding/binary.%sEndian).%sUint%d' % (n, op, w): (bin_put if op else bin_get)(w // 8, n == 'big')
       for n in ('little', 'big') for op in ('', 'Put') for w in (16, 32, 64)},
    'math/bits.OnesCount32': std_ones, 'math/bits.OnesCount16': std_ones, 'math/bits.OnesCount64': std_ones,
    'math/bits.OnesCount8': std_ones, 'math/bits.OnesCount': std_ones,
    'math/bits.TrailingZeros32': std_tz, 'math/bits.TrailingZeros16': std_tz, 'math/bits.TrailingZeros64': std_tz,
    'math/bits.TrailingZeros8': std_tz, 'math/bits.TrailingZeros': std_tz,
    'math/bits.Len32': std_len, 'math/bits.Len16': std_len, 'math/bits.Len64': std_len, 'math/bits.Len8': std_len,
    'math/bits.LeadingZeros32': std_lz, 'math/bits.LeadingZeros16': std_lz, 'math/bits.LeadingZeros64': std_lz,
    '(*hash/maphash.Hash).SetSeed': h_seed, '(*hash/maphash.Hash).Write': h_write,
    '(*hash/maphash.Hash).WriteString': h_write, '(*hash/maphash.Hash).Sum64': h_sum,
    '(*hash/maphash.Hash).Reset': h_reset,
    'hash/maphash.Bytes': h_bytes, 'hash/maphash.String': h_bytes, 'hash/maphash.MakeSeed': mkseed,
    'bytes.Equal': bytes_equal,
}
