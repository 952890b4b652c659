"""z3 vocabulary shared by the executor and the contracts."""
import os
import subprocess
import tempfile
import time
import z3

P = z3.DeclareSort('P')          # pointer values stored in links
Key = z3.DeclareSort('Key')      # opaque keys, up to the key type's equality
Val = z3.DeclareSort('Val')      # opaque values
Seed = z3.DeclareSort('Seed')
Flt = z3.DeclareSort('Flt')      # float64, uninterpreted
KBytes = z3.DeclareSort('KBytes')

B8, B16, B32, B64 = (z3.BitVecSort(n) for n in (8, 16, 32, 64))
null = z3.Const('null', P)
AT = z3.Function('AT', P, z3.IntSort())      # allocation time: null -1, initial memory 0, fresh n
zeroVal = z3.Const('zeroVal', Val)
zeroKey = z3.Const('zeroKey', Key)
zeroSeed = z3.Const('zeroSeed', Seed)

HI = z3.Function('HashInt', Seed, B64, B64, B64)     # maphash of n copies of the 8 bytes of an int
HK = z3.Function('HashKey', Seed, Key, B64, B64)     # maphash of n copies of a key's bytes
GH = z3.Function('KeyHash', Seed, Key, B64, B64)     # Key.Hash(seed, iter)

# digit of a key at a level: ((H(key, level/16) >> 4*(level%16)) & 15). Kept as a symbol; its
# definition joins a query only where a hash occurs in it by itself (see check()).
DGI = z3.Function('digitInt', B64, B8, B8)
DGK = z3.Function('digit', Key, B8, B8)
DGG = z3.Function('digitGen', Key, B8, B8)

toF = z3.Function('float64', B64, Flt)
fdiv = z3.Function('fdiv', Flt, Flt, Flt)
zeroFlt = z3.Const('zeroFlt', Flt)


def bv(n, w):
    return z3.BitVecVal(n, w)


def zx(t, w):
    """Zero-extend or truncate to width w."""
    s = t.size()
    if s == w:
        return t
    if s < w:
        return z3.ZeroExt(w - s, t)
    return z3.Extract(w - 1, 0, t)


def sx(t, w):
    s = t.size()
    if s == w:
        return t
    if s < w:
        return z3.SignExt(w - s, t)
    return z3.Extract(w - 1, 0, t)


_pc_cache = {}


def popcnt(t):
    """Population count by a tree of minimal-width adders; result has the width of t."""
    t = z3.simplify(t)
    k = t.get_id()
    if k in _pc_cache:
        return _pc_cache[k][1]
    w = t.size()
    parts = [z3.Extract(i, i, t) for i in range(w)]
    width = 1
    while len(parts) > 1:
        nxt = []
        for i in range(0, len(parts), 2):
            if i + 1 < len(parts):
                nxt.append(z3.ZeroExt(1, parts[i]) + z3.ZeroExt(1, parts[i + 1]))
            else:
                nxt.append(z3.ZeroExt(1, parts[i]))
        parts = nxt
        width += 1
    r = zx(parts[0], w)
    _pc_cache[k] = (t, r)
    return r


def ctz(t):
    """Trailing zeros; the width for 0."""
    w = t.size()
    r = bv(w, w)
    for i in reversed(range(w)):
        r = z3.If(z3.Extract(i, i, t) == 1, bv(i, w), r)
    return r


def bitlen(t):
    w = t.size()
    r = bv(0, w)
    for i in range(w):
        r = z3.If(z3.Extract(i, i, t) == 1, bv(i + 1, w), r)
    return r


def shl(x, s):
    """Go x << s (s unsigned, any width): zero when s >= width."""
    w = x.size()
    if s.size() <= w:
        return x << zx(s, w)
    return z3.If(z3.ULT(s, bv(w, s.size())), x << zx(s, w), bv(0, w))


def shr(x, s):
    w = x.size()
    if s.size() <= w:
        return z3.LShR(x, zx(s, w))
    return z3.If(z3.ULT(s, bv(w, s.size())), z3.LShR(x, zx(s, w)), bv(0, w))


def sar(x, s):
    w = x.size()
    if s.size() <= w:
        return x >> zx(s, w)
    return z3.If(z3.ULT(s, bv(w, s.size())), x >> zx(s, w), x >> bv(w - 1, w))


def bit32(b):
    """1<<b as uint32, b any width < 32."""
    return bv(1, 32) << zx(b, 32)


def rank(pm, b):
    """Number of bits of pm (32 bits) below position b, as 64 bits."""
    return zx(popcnt(pm & ~(bv(0xffffffff, 32) << zx(b, 32))), 64)


def count(pm):
    return zx(popcnt(pm), 64)


def hasbit(pm, b):
    return (z3.LShR(pm, zx(b, 32)) & 1) == bv(1, 32)


def round4(n):
    return (n + 3) & ~bv(3, n.size())


def And(*a):
    a = [x for x in (a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a)]
    if not a:
        return z3.BoolVal(True)
    return z3.And(*a) if len(a) > 1 else a[0]


def Or(*a):
    a = [x for x in (a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a)]
    if not a:
        return z3.BoolVal(False)
    return z3.Or(*a) if len(a) > 1 else a[0]


Not, Implies, If = z3.Not, z3.Implies, z3.If
ULT, ULE, UGT, UGE = z3.ULT, z3.ULE, z3.UGT, z3.UGE


class Stats:
    queries = 0
    time = 0.0
    slow = []
    unknown = 0
    by = {}


DUMP = os.environ.get('AMTV_DUMP')
TIMEOUT = 30000   # ms, for one obligation, all back ends together
LOGIC = os.environ.get('AMTV_LOGIC', '1') == '1'
FIRST = 150       # ms, z3 in process
_cache = {}


def clear_cache():
    _cache.clear()
    _pc_cache.clear()


_sym_cache = {}
HASHES = {'HashInt', 'HashKey', 'KeyHash'}


def is_hash(nm):
    return nm in HASHES or nm.startswith('HashInt')


DIGITS = {'digitInt', 'digit', 'digitGen'}
DIGIT_DEF = {}      # digit function name -> definition (key, level) -> term


_EMPTY = frozenset()
_sets = {}


def _scan(e):
    """(e, symbols, digit terms), memoized for every subterm."""
    r = _sym_cache.get(e.get_id())
    if r is not None:
        return r
    ctx = e.ctx_ref()
    kind, gid = z3.Z3_get_ast_kind, z3.Z3_get_ast_id
    st = [e.as_ast()]
    while st:
        x = st[-1]
        j = gid(ctx, x)
        if j in _sym_cache:
            st.pop()
            continue
        if kind(ctx, x) != z3.Z3_APP_AST:
            _sym_cache[j] = (z3.z3._to_expr_ref(x, e.ctx), _EMPTY, ())
            st.pop()
            continue
        app = z3.Z3_to_app(ctx, x)
        n = z3.Z3_get_app_num_args(ctx, app)
        kids = [z3.Z3_get_app_arg(ctx, app, i) for i in range(n)]
        todo = [c for c in kids if gid(ctx, c) not in _sym_cache]
        if todo:
            st.extend(todo)
            continue
        syms, digs = _EMPTY, ()
        for c in kids:
            r = _sym_cache[gid(ctx, c)]
            if r[1] is not syms and not r[1] <= syms:
                syms = r[1] if syms <= r[1] else syms | r[1]
            if r[2] and r[2] is not digs:
                digs = r[2] if not digs else tuple({d.get_id(): d for d in digs + r[2]}.values())
        d = z3.Z3_get_app_decl(ctx, app)
        if z3.Z3_get_decl_kind(ctx, d) == z3.Z3_OP_UNINTERPRETED:
            nm = z3.Z3_get_symbol_string(ctx, z3.Z3_get_decl_name(ctx, d))
            syms = syms | {nm}
            if nm in DIGITS or is_hash(nm) or (n == 0 and z3.Z3_get_sort_kind(ctx, z3.Z3_get_sort(ctx, x)) == z3.Z3_BV_SORT and z3.Z3_get_bv_sort_size(ctx, z3.Z3_get_sort(ctx, x)) == 8):
                t = z3.z3._to_expr_ref(x, e.ctx)
                digs = digs + (t,) if all(not t.eq(u) for u in digs) else digs
        syms = _sets.setdefault(syms, syms)
        _sym_cache[j] = (z3.z3._to_expr_ref(x, e.ctx), syms, digs)
        st.pop()
    return _sym_cache[e.get_id()]


def symbols(e):
    """Names of the uninterpreted constants and functions in e (as a frozenset)."""
    return _scan(e)[1]


def digits(fs):
    """The digit terms occurring in the formulas fs."""
    return _terms(fs, lambda d: d.decl().name() in DIGITS)


def hash_apps(e):
    return _terms([e], lambda d: is_hash(d.decl().name()))


def bv8_consts(fs):
    return _terms(fs, lambda d: d.num_args() == 0)


def _terms(fs, want):
    out = {}
    for f in fs:
        for d in _scan(f)[2]:
            out[d.get_id()] = d
    return [d for d in out.values() if want(d)]


def has_hash(f):
    return any(is_hash(s) for s in symbols(f))


def check(fs, timeout=None, want_model=False):
    """z3 result for the conjunction fs: 'sat' | 'unsat' | 'unknown' (and model)."""
    fs = [f for f in fs if not z3.is_true(f)]
    for f in fs:
        if z3.is_false(f):
            return ('unsat', None) if want_model else 'unsat'
    key = frozenset(f.get_id() for f in fs)
    if not want_model and key in _cache:
        return _cache[key][1]
    rng = lambda ds: [ULE(d, bv(15, 8)) for d in ds]
    keep = [f for f in fs if not has_hash(f)]
    if len(keep) == len(fs):
        r = solve(fs + rng(digits(fs)), timeout, want_model)
    else:
        r = None
        if fs and not has_hash(fs[-1]) and not want_model:
            if solve(keep + rng(digits(keep)), timeout, False) == 'unsat':
                r = 'unsat'
        if r is None:
            ds = digits(fs)
            r = solve(fs + rng(ds) + [d == DIGIT_DEF[d.decl().name()](*d.children()) for d in ds], timeout, want_model)
    _cache[key] = (fs, r if not want_model else r[0])
    return r


def solve(fs, timeout=None, want_model=False):
    s = z3.SolverFor('QF_AUFBV') if LOGIC else z3.Solver()
    s.add(*fs)
    t0 = time.time()
    who = 'z3'
    s.set('timeout', FIRST)
    r = str(s.check())
    if r == 'unknown':
        r, who = portfolio(s)
        if want_model and r == 'sat':
            who = 'z3'
            s.set('timeout', timeout or TIMEOUT)
            r2 = str(s.check())
            if r2 != 'unknown':
                r = r2
    dt = time.time() - t0
    Stats.queries += 1
    Stats.by[who] = Stats.by.get(who, 0) + 1
    Stats.time += dt
    if DUMP and who != 'z3':
        open('%s/h%d_%s_%d.smt2' % (DUMP, Stats.queries, r, int(dt * 1000)), 'w').write('(set-logic ALL)\n' + s.to_smt2())
    if dt > 1:
        Stats.slow.append((round(dt, 1), r))
        if DUMP:
            open('%s/q%d_%s.smt2' % (DUMP, Stats.queries, r), 'w').write(s.to_smt2())
    if r == 'unknown':
        Stats.unknown += 1
    if want_model:
        return r, (s.model() if r == 'sat' and who == 'z3' else None)
    return r


def portfolio(s):
    """The query z3 did not settle at once: cvc5, then also z3 4.8 and z3 5, side by side."""
    txt = '(set-logic ALL)\n' + s.to_smt2()
    procs = []
    t0 = time.time()
    plan = [(0.0, 'cvc5', ['cvc5', '--lang=smt2', '-']), (1.5, 'z3-4.8', ['/usr/bin/z3', '-in']), (1.5, 'z3', ['z3-new', '-in'])]
    try:
        with tempfile.TemporaryFile('w+') as f:
            f.write(txt)
            f.flush()
            nap = 0.005
            while True:
                now = time.time() - t0
                while plan and plan[0][0] <= now:
                    _, who, cmd = plan.pop(0)
                    try:
                        g = os.open('/proc/self/fd/%d' % f.fileno(), os.O_RDONLY)
                        procs.append((who, subprocess.Popen(cmd, stdin=g, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
                        os.close(g)
                    except OSError:
                        pass
                alive = 0
                for who, p in list(procs):
                    if p.poll() is None:
                        alive += 1
                        continue
                    w = p.stdout.read().split()
                    procs.remove((who, p))
                    if w and w[0] in ('sat', 'unsat'):
                        return w[0], who
                if now > TIMEOUT / 1000 or (not alive and not plan):
                    return 'unknown', 'none'
                time.sleep(nap)
                nap = min(nap * 1.2, 0.1)
    finally:
        for _, p in procs:
            p.kill()
            p.wait()
