"""Loading of the go/ssa dump: types, functions, natural loops."""
import json


class Prog:
    def __init__(self, d):
        self.types = d['types']
        self.decls = d['typedecls']
        self.funcs = {f['name']: Func(f, self) for f in d['funcs']}
        self.globals = {g['n']: g['t'] for g in d['globals']}
        self.pkg = d['pkg']
        self.renamed = []       # what stands for root, link and their fields when these names are not used
        try:
            self._roles()
        except (KeyError, IndexError, TypeError):
            pass

    def _roles(self):
        """Finds the root and link types and their fields by their place in the
        exported containers when they have other names, and names them root, link, ..."""
        fs = self.struct_fields(self.decls['IntMap'])
        if len(fs) != 1 or self.types[fs[0]['type']]['kind'] != 'pointer':
            return
        rt = self.types[fs[0]['type']]['elem']
        if self.types[rt]['kind'] != 'named' or self.under(rt)['kind'] != 'struct':
            return
        lt = None
        for f in self.struct_fields(rt):
            u = self.under(f['type'])
            if u['kind'] == 'array' and u['len'] == 16 and self.types[u['elem']]['kind'] == 'named' and self.under(u['elem'])['kind'] == 'struct':
                lt = u['elem']
        if lt is None:
            return
        for t, n in ((rt, 'root'), (lt, 'link')):
            if self.types[t]['name'] != n:
                self.renamed.append('%s for %s' % (self.types[t]['name'], n))
                self.types[t]['name'] = self.types[t]['origin'] = n
                self.decls[n] = t
        lf = self.struct_fields(lt)
        kind = lambda f: self.under(f['type'])
        ptr = [f for f in lf if kind(f)['kind'] == 'pointer' or kind(f).get('name') in ('unsafe.Pointer', 'Pointer')]
        ints = [f for f in lf if 'bits' in kind(f)]
        self._name(ptr, ['ptr'])
        self._name(ints, ['pmap', 'tmap'])
        rf = [f for f in self.struct_fields(rt) if f['name'] != '_']
        self._name([f for f in rf if self.is_named(f['type'], 'hash/maphash', 'Seed')], ['seed'])
        self._name([f for f in rf if kind(f)['kind'] == 'array' and kind(f)['elem'] != lt and self.under(kind(f)['elem'])['kind'] == 'struct'], ['path'])
        self._name([f for f in rf if kind(f).get('bits') == 64], ['len', 'dep'])

    def _name(self, fs, names):
        if len(fs) != len(names) or {f['name'] for f in fs} == set(names):
            return
        free = [n for n in names if n not in {f['name'] for f in fs}]
        for f in fs:
            if f['name'] not in names:
                n = free.pop(0)
                self.renamed.append('%s for %s' % (f['name'], n))
                f['name'] = n

    @staticmethod
    def load(path):
        with open(path) as f:
            return Prog(json.load(f))

    # ---- types
    def _uses(self):
        if hasattr(self, '_gl'):
            return
        self._gl = {}
        for g in self.globals:
            self._gl[g] = dict(stores=[], addr={}, bad=False)
        for f in self.funcs.values():
            init = f.name == self.pkg + '.init'
            regs = {}
            for b in f.blocks:
                for i in b['ins']:
                    if i['op'] == 'indexaddr' and isg(i['x']) and i['x']['n'] in self._gl:
                        regs[i['r']] = (i['x']['n'], i['i'])
            for b in f.blocks:
                for i in b['ins']:
                    for slot, o in operands(i):
                        if isg(o) and o['n'] in self._gl:
                            g = self._gl[o['n']]
                            if i['op'] == 'store' and slot == 'addr':
                                g['stores'].append((init, None, i['val']))
                            elif i['op'] == 'indexaddr' or (i['op'] == 'unop' and i['o'] == '*'):
                                pass
                            else:
                                g['bad'] = True
                        elif o.get('k') == 'reg' and o.get('n') in regs:
                            n, ix = regs[o['n']]
                            g = self._gl[n]
                            if i['op'] == 'store' and slot == 'addr':
                                g['stores'].append((init, ix, i['val']))
                            elif not (i['op'] == 'unop' and i['o'] == '*'):
                                g['bad'] = True

    def constant_global(self, name):
        """The constant a package variable always holds, or None."""
        self._uses()
        g = self._gl.get(name)
        if g is None or g['bad'] or len(g['stores']) != 1:
            return None
        init, ix, v = g['stores'][0]
        return v if init and ix is None and v.get('k') == 'const' else None

    def constant_table(self, name):
        """{index: constant} of an array variable set only by its initializer, or None."""
        self._uses()
        g = self._gl.get(name)
        if g is None or g['bad'] or not g['stores']:
            return None
        out = {}
        for init, ix, v in g['stores']:
            if not init or ix is None or ix.get('k') != 'const' or v.get('k') != 'const' or int(ix['v']) in out:
                return None
            out[int(ix['v'])] = v
        return out

    def under(self, t):
        ty = self.types[t]
        while ty['kind'] == 'named':
            ty = self.types[ty['underlying']]
        return ty

    def tstr(self, t):
        return self.types[t]['str']

    def bits(self, t):
        return self.under(t).get('bits')

    def is_int(self, t):
        u = self.under(t)
        return u['kind'] == 'basic' and 'bits' in u

    def unsigned(self, t):
        return self.under(t).get('unsigned', False)

    def is_named(self, t, pkg, name):
        ty = self.types[t]
        return ty['kind'] == 'named' and ty['pkg'] == pkg and ty['origin'] == name

    def struct_fields(self, t):
        return self.under(t)['fields'] or []

    def layout(self, t, depth=0):
        """A structural description of a type, independent of type names."""
        ty = self.types[t]
        if ty['kind'] == 'named' and ty['pkg'] == self.pkg:
            return self.layout(ty['underlying'], depth + 1)
        if ty['kind'] == 'struct':
            return 'struct{' + ';'.join(self.layout(f['type'], depth + 1) for f in ty['fields'] or []) + '}'
        if ty['kind'] == 'typeparam':
            return '$V' if ty['constraint'] in ('any', 'interface{}') else '$K'
        return ty['str']


def isg(o):
    return isinstance(o, dict) and o.get('k') == 'global'


def operands(i):
    for k, v in i.items():
        if isinstance(v, dict) and 'k' in v:
            yield k, v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict) and 'k' in x:
                    yield k, x


class Func:
    def __init__(self, f, prog):
        self.prog = prog
        self.name = f['name']
        self.short = f['short']
        self.pos = f['pos']
        self.params = f['params']
        self.freevars = f['freevars']
        self.recv = f.get('recv')
        self.results = f['results']
        self.blocks = f['blocks']
        self.exported = f.get('exported')
        self.hasrecover = f.get('hasrecover')
        self._loops()

    def _loops(self):
        n = len(self.blocks)
        succ = [b['succs'] for b in self.blocks]
        pred = [b['preds'] for b in self.blocks]
        reach = set()
        st = [0]
        while st:
            x = st.pop()
            if x in reach:
                continue
            reach.add(x)
            st += succ[x]
        dom = {i: set(reach) for i in reach}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for i in sorted(reach):
                if i == 0:
                    continue
                s = None
                for p in pred[i]:
                    if p in reach:
                        s = dom[p] if s is None else s & dom[p]
                s = (s or set()) | {i}
                if s != dom[i]:
                    dom[i] = s
                    ch = True
        self.dom = dom
        self.loops = {}     # header -> set(blocks)
        self.irreducible = False
        for b in reach:
            for s in succ[b]:
                if s in dom[b]:
                    body = self.loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x in body:
                            continue
                        body.add(x)
                        w += [p for p in pred[x] if p in reach]
        # irreducible check: a retreating edge that is not a back edge
        color = {}

        def dfs(root):
            stack = [(root, iter(succ[root]))]
            color[root] = 1
            while stack:
                x, it = stack[-1]
                for y in it:
                    if color.get(y) == 1:
                        if y not in dom[x]:
                            self.irreducible = True
                    elif y not in color:
                        color[y] = 1
                        stack.append((y, iter(succ[y])))
                        break
                else:
                    color[x] = 2
                    stack.pop()
        dfs(0)

    def callees(self):
        for b in self.blocks:
            for i in b['ins']:
                if i['op'] in ('call', 'defer', 'go') and i.get('fn') and i['fn'].get('k') == 'func':
                    yield i['fn']['n']
