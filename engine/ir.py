"""Functions, expressions, loops and path-sensitive reachability over the dump."""
import collections

class Undecided(Exception):
    pass

NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt',
       'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule',
        'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}

class Module:
    def __init__(self, d):
        self.d = d
        self.raw = {f['name']: f for f in d['functions']}
        self._fn = {}
        self.short = False        # leave the arguments out of call expressions
        # copies of one function defined in a header are one function
        same = collections.defaultdict(list)
        for f in d['functions']:
            same[(f.get('src', f['name']), f.get('file'), f.get('line'))].append(f['name'])
        self.canon = {}
        for (src, fl, ln), ns in same.items():
            for n in ns:
                if len(ns) > 1 or fl and fl.endswith('.h'):
                    self.canon[n] = src
        for f in d['functions']:
            for blk in f['blocks']:
                for i in blk:
                    if i.get('callee') in self.canon:
                        i['callee'] = self.canon[i['callee']]
        self.globals = {g['name']: g for g in d['globals']}
        self.structs = d['structs']
        self.decls = set(d['decls'])
        self.calls = d['calls']
        self.by_src = collections.defaultdict(list)
        for f in d['functions']:
            self.by_src[f.get('src', f['name'])].append(f['name'])
        # copies of the zero-initialised or constant globals, by source name
        self.gsrc = collections.defaultdict(list)
        for g in d['globals']:
            self.gsrc[g.get('src', g['name'])].append(g)

    def fn(self, name):
        if name not in self._fn:
            if name not in self.raw:
                return None
            self._fn[name] = Fn(self, self.raw[name])
        return self._fn[name]

    def fns(self):
        for n in self.raw:
            yield self.fn(n)

    def field(self, struct, name):
        for m in self.structs.get(struct, {}).get('m', []):
            if m['n'] == name:
                return m
        return None

    def field_at(self, struct, off):
        for m in self.structs.get(struct, {}).get('m', []):
            if m['o'] <= off < m['o'] + max(m['s'], 1):
                return m
        return None

    def gstr(self, ref):
        """The text of a constant string operand."""
        if ref and ref[0] == 'g':
            g = self.globals.get(ref[1])
            if g and g.get('init') and g['init'][0] == 's':
                return g['init'][1]
            if g and g.get('init') and g['init'][0] == 'z':
                return ''
        if ref and ref[0] == 'ge' and ref[1][0] == 'g':
            s = self.gstr(ref[1])
            return s[ref[2]:] if s is not None else None
        return None

class Fn:
    def narrowed(self, i):
        """the number is kept in fewer bits, and the rest is lost (not merely a character that is stored)"""
        a = i['args'][0]
        if a[0] == 'i' and self.ins[a[1]]['op'] in ('zext', 'sext', 'load', 'select'):
            return False
        if getattr(self, '_wide', None) is None:
            self._wide = {x['args'][0][1] for b in self.blocks for x in b if x['op'] in ('zext', 'sext') and x['args'][0][0] == 'i'}
        return i['ty'] == 'i16' or i['id'] in self._wide

    def __init__(self, mod, f):
        self.mod = mod
        self.f = f
        self.name = f['name']
        self.src = f.get('src', f['name'])
        self.file = f.get('file', '?')
        self.line = f.get('line', 0)
        self.params = f['params']
        self.blocks = f['blocks']
        self.ins = {}
        self.blk = {}
        self.pos = {}
        for b, blk in enumerate(self.blocks):
            for k, i in enumerate(blk):
                self.ins[i['id']] = i
                self.blk[i['id']] = b
                self.pos[i['id']] = k
        self.succ = [list(blk[-1].get('succ', [])) if blk else [] for blk in self.blocks]
        self.pred = [[] for _ in self.blocks]
        for b, ss in enumerate(self.succ):
            for s in ss:
                if b not in self.pred[s]:
                    self.pred[s].append(b)
        self.loops = {l['id']: l for l in f['loops']}
        for l in self.loops.values():
            l['bset'] = set(l['blocks'])
        self._dom = None
        self._users = None

    # ---- structure
    def pname(self, k):
        return self.params[k].get('n', 'arg%d' % k)

    def pindex(self, name):
        for k, p in enumerate(self.params):
            if p.get('n') == name:
                return k
        return None

    def all(self, op=None):
        for blk in self.blocks:
            for i in blk:
                if op is None or i['op'] == op:
                    yield i

    def calls(self, *callees):
        for i in self.all('call'):
            if not callees or i.get('callee') in callees:
                yield i

    def loc(self, i=None):
        if i is None:
            return '%s:%d' % (self.file, self.line)
        if isinstance(i, (int,)):
            i = self.ins.get(i, {})
        l = i.get('loc')
        if not l:
            return '%s:%d' % (self.file, self.line)
        if len(l) > 2:
            return '%s:%d (inlined at line %d of %s)' % (l[0], l[1], l[2], self.src)
        return '%s:%d' % (l[0], l[1])

    def where(self, i=None):
        return '%s (%s)' % (self.src, self.loc(i))

    @property
    def dom(self):
        if self._dom is None:
            n = len(self.blocks)
            full = set(range(n))
            dom = [full.copy() for _ in range(n)]
            dom[0] = {0}
            ch = True
            while ch:
                ch = False
                for b in range(1, n):
                    ps = self.pred[b]
                    nd = set.intersection(*[dom[p] for p in ps]) if ps else set()
                    nd = nd | {b}
                    if nd != dom[b]:
                        dom[b] = nd
                        ch = True
            self._dom = dom
        return self._dom

    def dominates(self, a, b):
        """instruction a dominates instruction b"""
        ba, bb = self.blk[a], self.blk[b]
        if ba == bb:
            return self.pos[a] < self.pos[b]
        return ba in self.dom[bb]

    @property
    def users(self):
        if self._users is None:
            u = collections.defaultdict(list)
            for i in self.all():
                for r in refs(i):
                    if r[0] == 'i':
                        u[r[1]].append(i)
            self._users = u
        return self._users

    def argusers(self, k):
        return [i for i in self.all() if any(r[0] == 'a' and r[1] == k for r in refs(i))]

    def rets(self):
        return [i for i in self.all('ret')]

    def innermost_loop(self, b):
        best = None
        for l in self.loops.values():
            if b in l['bset'] and (best is None or len(l['bset']) < len(best['bset'])):
                best = l
        return best

    # ---- expressions
    def expr(self, r, env=None, depth=0):
        """A canonical tree for a value.  Casts between integer widths are dropped;
        loads are identified by their address (memory versions are ignored)."""
        k = r[0]
        if k == 'a':
            return ('arg', r[1])
        if k == 'c':
            return ('c', r[1])
        if k == 'n':
            return ('null',)
        if k == 'g':
            return ('g', r[1])
        if k == 'ge':
            return ('addr', self.expr(r[1], env, depth + 1), r[2], ())
        if k in ('u',):
            return ('undef',)
        if k in ('f',):
            return ('f', r[1])
        if k != 'i':
            return ('?', str(r))
        if depth > 40:
            return ('deep', r[1])
        i = self.ins.get(r[1])
        if i is None:
            return ('?', r[1])
        op = i['op']
        E = lambda x: self.expr(x, env, depth + 1)
        if op == 'phi':
            if env and r[1] in env:
                return E(env[r[1]])
            # a phi whose incoming values are all the same value
            vals = set()
            for v, b in i['in']:
                if v[0] == 'i' and v[1] == r[1]:
                    continue
                vals.add(tuple(map(str, v)))
            if len(vals) == 1:
                for v, b in i['in']:
                    if not (v[0] == 'i' and v[1] == r[1]):
                        return E(v)
            return ('phi', r[1])
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
            a = i['args'][0]
            if op == 'trunc' and i.get('ty') in ('i8', 'i16') and self.narrowed(i) and E(a)[0] != 'c':
                return ('low', int(i['ty'][1:]), E(a))
            if op == 'sext' and a[0] == 'i' and self.ins[a[1]].get('ty') == 'i1':
                b = E(a)
                return ('c', -(b[1] & 1)) if b[0] == 'c' else ('sub', ('c', 0), b)
            return E(a)
        if op == 'getelementptr':
            if 'off' not in i:
                return ('?', r[1])
            return mkaddr(E(i['base']), i['off'], tuple((E(v), s) for v, s in i['var']))
        if op == 'load':
            a = E(i['args'][0])
            return ('ld', a)
        if op == 'call':
            if self.mod.short:
                return ('call', i.get('callee', '*'), r[1])
            return ('call', i.get('callee', '*'), r[1]) + tuple(E(a) for a in i['args'])
        if op == 'icmp':
            a, b = E(i['args'][0]), E(i['args'][1])
            return mkcmp(i['pred'], a, b)
        if op == 'alloca':
            return ('alloca', r[1])
        if op == 'select':
            return ('select', E(i['args'][0]), E(i['args'][1]), E(i['args'][2]))
        if op in ('add', 'mul', 'and', 'or', 'xor'):
            a, b = E(i['args'][0]), E(i['args'][1])
            if repr(a) > repr(b):
                a, b = b, a
            if op == 'add' and a[0] == 'c' and b[0] == 'c':
                return ('c', a[1] + b[1])
            return (op, a, b)
        if op == 'shl':
            a, b = E(i['args'][0]), E(i['args'][1])
            if b[0] == 'c':
                x, y = a, ('c', 1 << b[1])
                if repr(x) > repr(y):
                    x, y = y, x
                return ('mul', x, y)
            return (op, a, b)
        if op in ('extractvalue', 'insertvalue'):
            return (op, tuple(i['idx'])) + tuple(E(a) for a in i['args'])
        return (op,) + tuple(E(a) for a in i.get('args', []))

    # ---- conditions
    def atoms(self, r, env, truth, depth=0):
        """The ways in which the i1 value r can be `truth`: a list of lists of
        (atom, bool); an atom is a canonical comparison or boolean expression."""
        if depth > 12:
            return [[]]
        k = r[0]
        if k == 'c':
            return [[]] if bool(r[1] & 1) == truth else []
        if k == 'u':
            return [[]]
        if k == 'i':
            i = self.ins.get(r[1])
            op = i['op']
            if op == 'phi' and env and r[1] in env:
                return self.atoms(env[r[1]], env, truth, depth + 1)
            if op == 'xor':
                for x, y in ((0, 1), (1, 0)):
                    if i['args'][x][0] == 'c' and i['args'][x][1] in (1, -1):
                        return self.atoms(i['args'][y], env, not truth, depth + 1)
            if op in ('and', 'or') and i.get('ty') == 'i1':
                conj = (op == 'and') == truth
                A = self.atoms(i['args'][0], env, truth, depth + 1)
                B = self.atoms(i['args'][1], env, truth, depth + 1)
                if conj:
                    return [a + b for a in A for b in B]
                NA = self.atoms(i['args'][0], env, not truth, depth + 1)
                return A + [a + b for a in NA for b in B]
            if op == 'select' and i.get('ty') == 'i1':
                c, t, f = i['args']
                out = []
                for ca in self.atoms(c, env, True, depth + 1):
                    for ta in self.atoms(t, env, truth, depth + 1):
                        out.append(ca + ta)
                for ca in self.atoms(c, env, False, depth + 1):
                    for fa in self.atoms(f, env, truth, depth + 1):
                        out.append(ca + fa)
                return out
            if op == 'freeze':
                return self.atoms(i['args'][0], env, truth, depth + 1)
            if op == 'trunc' and i.get('ty') == 'i1':
                src = i['args'][0]
                if src[0] == 'i' and self.ins[src[1]]['op'] == 'zext' and self.ins[src[1]]['from'] == 'i1':
                    return self.atoms(self.ins[src[1]]['args'][0], env, truth, depth + 1)
                return [[(('bool', self.expr(src, env)), truth)]]
            if op == 'icmp':
                p = i['pred']
                a, b = i['args']
                # comparison of a widened boolean with zero
                if p in ('eq', 'ne') and b[0] == 'c' and b[1] == 0 and a[0] == 'i':
                    s = self.ins[a[1]]
                    if s['op'] == 'zext' and s.get('from') == 'i1':
                        return self.atoms(s['args'][0], env, truth == (p == 'ne'), depth + 1)
                    if s['op'] == 'phi' and env and a[1] in env and env[a[1]][0] == 'c':
                        return [[]] if ((env[a[1]][1] == 0) == (p == 'eq')) == truth else []
                    # (x & const) kept as an atom
                ea, eb = self.expr(a, env), self.expr(b, env)
                e = mkcmp(p, ea, eb)
                if e[0] == 'c':
                    return [[]] if bool(e[1]) == truth else []
                pol = truth
                if e[0] == 'cmp' and e[1] == 'ne':
                    e = ('cmp', 'eq', e[2], e[3])
                    pol = not truth
                elif e[0] == 'cmp' and e[1] in ('uge', 'ule', 'sge', 'sle'):
                    e = ('cmp', NEG[e[1]], e[2], e[3])
                    pol = not truth
                return [[(e, pol)]]
        return [[(('bool', self.expr(r, env)), truth)]]

    # ---- loops
    def iteration(self, i):
        """For a load/store whose address (or an instruction whose value) is an affine
        function of the innermost loop: (loop, base expr, start expr, step, size)."""
        s = i.get('scev')
        return None if s is None else affine(self, s)

def mkaddr(base, off, var):
    if base[0] == 'addr':
        return mkaddr(base[1], base[2] + off, base[3] + var)
    cv = []
    for v, s in var:
        if v[0] == 'mul' and v[1][0] == 'c':
            v, s = v[2], s * v[1][1]
        elif v[0] == 'mul' and v[2][0] == 'c':
            v, s = v[1], s * v[2][1]
        if v[0] == 'c':
            off += v[1] * s
        else:
            cv.append((v, s))
    if off == 0 and not cv:
        return base
    return ('addr', base, off, tuple(sorted(cv, key=repr)))

def mkcmp(p, a, b):
    if a[0] in ('c', 'null') and b[0] in ('c', 'null'):
        x = a[1] if a[0] == 'c' else 0
        y = b[1] if b[0] == 'c' else 0
        ux, uy = x & 0xffffffffffffffff, y & 0xffffffffffffffff
        v = {'eq': x == y, 'ne': x != y, 'ult': ux < uy, 'ule': ux <= uy, 'ugt': ux > uy, 'uge': ux >= uy,
             'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}.get(p)
        return ('c', 1 if v else 0)
    if p in ('eq', 'ne'):
        if a[0] in ('c', 'null') or (b[0] not in ('c', 'null') and repr(a) > repr(b)):
            a, b = b, a
        if a == b:
            return ('c', 1 if p == 'eq' else 0)
        return ('cmp', p, a, b)
    if p in ('ugt', 'ule', 'sgt', 'sle'):
        p, a, b = SWAP[p], b, a
    # now ult/uge/slt/sge
    if p == 'ult' and a[0] == 'c' and a[1] == 0:       # 0 < b
        return mkcmp('ne', b, ('c', 0))
    if p == 'uge' and a[0] == 'c' and a[1] == 0:       # 0 >= b
        return mkcmp('eq', b, ('c', 0))
    if p == 'ult' and b[0] == 'c' and b[1] == 1:
        return mkcmp('eq', a, ('c', 0))
    if p == 'uge' and b[0] == 'c' and b[1] == 1:
        return mkcmp('ne', a, ('c', 0))
    return ('cmp', p, a, b)

def refs(i):
    for r in i.get('args', []):
        yield r
    if 'base' in i:
        yield i['base']
        for v, s in i.get('var', []):
            yield v
    for v, b in i.get('in', []):
        yield v
    if 'fp' in i:
        yield i['fp']

# ---- scalar evolution ------------------------------------------------------
def strip(s):
    while s[0] in ('zext', 'sext', 'trunc', 'p2i'):
        s = s[1]
    return s

class Lin:
    """sum of coefficient*symbol + constant"""
    def __init__(self, c=0, t=None):
        self.c = c
        self.t = {k: v for k, v in (t or {}).items() if v}
    def add(self, o, m=1):
        t = dict(self.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) + m * v
        return Lin(self.c + m * o.c, t)
    def mul(self, m):
        return Lin(self.c * m, {k: v * m for k, v in self.t.items()})
    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t
    def __hash__(self):
        return hash((self.c, tuple(sorted(self.t.items(), key=repr))))
    def const(self):
        return self.c if not self.t else None
    def __repr__(self):
        return ' + '.join(['%d*%r' % (v, k) for k, v in self.t.items()] + [str(self.c)])

def lin(fn, s):
    """SCEV without recurrences to a linear form over value expressions."""
    s = strip(s)
    k = s[0]
    if k == 'c':
        return Lin(s[1])
    if k == 'v':
        return Lin(0, {fn.expr(s[1]): 1})
    if k == '+':
        r = Lin()
        for o in s[1:]:
            r = r.add(lin(fn, o))
        return r
    if k == 'umax' and len(s) == 3 and s[1] == ['c', 1]:
        return lin(fn, s[2])          # rotated loop, entered only when the bound is not zero
    if k == '*':
        r = Lin(1)
        for o in s[1:]:
            x = lin(fn, o)
            if x.const() is not None:
                r = r.mul(x.const())
            elif r.const() is not None:
                r = x.mul(r.const())
            else:
                raise Undecided('nonlinear')
        return r
    raise Undecided('scev ' + str(k))

def rec(fn, s):
    """(loop or None, start Lin, step Lin) of a SCEV that is affine in at most one loop."""
    s = strip(s)
    k = s[0]
    if k == 'rec':
        if len(s[2]) != 2:
            raise Undecided('polynomial recurrence')
        l0, st, z = rec(fn, s[2][0])
        if l0 is not None:
            raise Undecided('nested recurrence')
        l1, step, z1 = rec(fn, s[2][1])
        if l1 is not None:
            raise Undecided('nested recurrence')
        return s[1], st, step
    if k == '+':
        L, a, b = None, Lin(), Lin()
        for o in s[1:]:
            l, x, y = rec(fn, o)
            if l is not None:
                if L is not None and L != l:
                    raise Undecided('two loops')
                L = l
            a = a.add(x)
            b = b.add(y)
        return L, a, b
    if k == '*':
        m = 1
        R = None
        for o in s[1:]:
            l, x, y = rec(fn, o)
            if l is None and x.const() is not None:
                m *= x.const()
            elif R is None:
                R = (l, x, y)
            else:
                raise Undecided('nonlinear')
        if R is None:
            return None, Lin(m), Lin()
        return R[0], R[1].mul(m), R[2].mul(m)
    return None, lin(fn, s), Lin()

def affine(fn, s):
    try:
        return rec(fn, s)
    except Undecided:
        return None

def elin(e):
    """Linear form of an expression."""
    if e[0] == 'c':
        return Lin(e[1])
    if e[0] == 'add':
        return elin(e[1]).add(elin(e[2]))
    if e[0] == 'sub' and len(e) == 3:
        return elin(e[1]).add(elin(e[2]), -1)
    if e[0] == 'mul':
        a, b = elin(e[1]), elin(e[2])
        if a.const() is not None:
            return b.mul(a.const())
        if b.const() is not None:
            return a.mul(b.const())
    if e[0] == 'shl' and e[2][0] == 'c':
        return elin(e[1]).mul(1 << e[2][1])
    if e[0] == 'or' and ('c', 1) in e[1:]:
        o = e[1] if e[2] == ('c', 1) else e[2]
        if o[0] == 'shl' or o[0] == 'mul':
            return elin(o).add(Lin(1))
    return Lin(0, {e: 1})

def counted(fn, loop, xb):
    """How often the loop goes round before xb leaves it, for a counter compared with a
    bound of another width (Lin), or None."""
    t = fn.blocks[xb][-1]
    if t['op'] != 'br' or not t['args']:
        return None
    stay = [k for k in (0, 1) if t['succ'][k] in loop['bset']]
    if len(stay) != 1:
        return None
    cs = fn.atoms(t['args'][0], None, stay[0] == 0)
    if len(cs) != 1 or len(cs[0]) != 1:
        return None
    a, v = cs[0][0]
    if a[0] != 'cmp' or a[1] not in ('ult', 'slt') or not v:
        if not (a[0] == 'cmp' and a[1] == 'eq' and not v):
            return None
    x, bound = a[2], a[3]
    if a[1] == 'eq' and not counter(fn, loop, x):
        x, bound = bound, x
    c = counter(fn, loop, x)
    if c is None or mentions_block(fn, bound, loop['bset']):
        return None
    return Lin(-c).add(elin(bound))

def counter(fn, loop, e):
    """c if e is the value start 0, step 1 counter of the loop plus c"""
    c = 0
    while e[0] == 'add':
        if e[1][0] == 'c':
            c, e = c + e[1][1], e[2]
        elif e[2][0] == 'c':
            c, e = c + e[2][1], e[1]
        else:
            return None
    if e[0] != 'phi' or fn.blk[e[1]] != loop['header']:
        return None
    for v, b in fn.ins[e[1]]['in']:
        x = fn.expr(v)
        if b in loop['bset']:
            if x not in (('add', ('c', 1), e), ('add', e, ('c', 1))):
                return None
        elif x != ('c', 0):
            return None
    return c

def exec_count(fn, loop, block, exit_block):
    """How often `block` runs when the loop is left through exit_block's exit (Lin)."""
    for b, s in loop['exits']:
        if b == exit_block:
            n = affine(fn, s)
            if n is None or n[0] is not None:
                n = (None, counted(fn, loop, exit_block))
            n = n[1]
            if n is None:
                return None
            if block in fn.dom[exit_block]:
                return n.add(Lin(1))
            return n
    return None

# ---- path-sensitive reachability ------------------------------------------
class Paths:
    """Explores the paths of a function.  The state is (block, values of the phis on
    this path, the facts decided by the branches taken).  Facts are only kept for the
    atoms that more than one branch depends on; everything else is forgotten, so the
    number of states stays small.  Loops are explored with the phis of their headers
    unknown after the first iteration, until no new state appears."""
    def __init__(self, fn, limit=60000, keep=None):
        self.fn = fn
        self.limit = limit
        # atoms that occur in more than one branch
        cnt = collections.Counter()
        for b, blk in enumerate(fn.blocks):
            t = blk[-1]
            if t['op'] == 'br' and t['args']:
                seen = set()
                for tr in (True, False):
                    for conj in fn.atoms(t['args'][0], None, tr):
                        for a, v in conj:
                            seen.add(a)
                for a in seen:
                    cnt[a] += 1
        self.multi = {a for a, n in cnt.items() if n > 1}
        self.keep = keep
        # subjects compared in several places (x == c1, x == c2)
        subj = collections.Counter()
        for a in cnt:
            if a[0] == 'cmp' and a[1] == 'eq' and a[3][0] in ('c', 'null'):
                subj[a[2]] += 1
        self.subj = {x for x, n in subj.items() if n > 1}
        # phis that decide branches or are returned, transitively
        self.loop_phis = {}
        for l in fn.loops.values():
            for i in fn.blocks[l['header']]:
                if i['op'] == 'phi':
                    self.loop_phis[i['id']] = l

    def relevant(self, a):
        if a in self.multi or (self.keep and self.keep(a)):
            return True
        if a[0] == 'cmp' and a[1] == 'eq' and a[2] in self.subj:
            return True
        # anything that mentions a phi may be decided along a path
        return False

    def consistent(self, facts, a, v):
        if a in facts:
            return facts[a] == v
        if a[0] == 'cmp' and a[1] == 'eq' and v and a[3][0] in ('c', 'null'):
            for o, ov in facts.items():
                if ov and o[0] == 'cmp' and o[1] == 'eq' and o[2] == a[2] and o[3] != a[3] and o[3][0] in ('c', 'null'):
                    x = a[3][1] if a[3][0] == 'c' else 0
                    y = o[3][1] if o[3][0] == 'c' else 0
                    if x != y:
                        return False
        return True

    def explore(self, visit=None, cut=None, start=0, env0=None, facts0=None, st0=None, step=None, edge=None):
        """Walks every state.  cut(src, dst, conj, env) -> True stops at an edge;
        visit(block, env, facts, path) -> True stops in a block.  Returns nothing;
        visit collects.  path is a linked list (block, parent).
        A client state st (hashable) may be carried: step(block, env, facts, path, st)
        and edge(src, dst, conj, env, facts, st) return the new one, or None to stop."""
        fn = self.fn
        seen = set()
        work = [(start, None, dict(env0 or {}), dict(facts0 or {}), (start, None), st0)]
        n = 0
        while work:
            b, frm, env, facts, path, st = work.pop()
            # phis
            upd = {}
            for i in fn.blocks[b]:
                if i['op'] != 'phi':
                    break
                if frm is None:
                    continue
                val = None
                for v, pb in i['in']:
                    if pb == frm:
                        val = v
                l = self.loop_phis.get(i['id'])
                if l is not None and frm in l['bset']:
                    upd[i['id']] = None          # unknown from the second iteration on
                elif l is not None:
                    # entry of the loop: unknown, unless a flag
                    upd[i['id']] = val if val and val[0] in ('c', 'n') and i['ty'] == 'i1' else None
                else:
                    if val and val[0] == 'i' and val[1] in env:
                        val = env[val[1]]
                    upd[i['id']] = val
            if upd:
                env = dict(env)
                for k, v in upd.items():
                    if v is None:
                        env.pop(k, None)
                    else:
                        env[k] = v
            if b in [l['header'] for l in fn.loops.values()] and frm is not None:
                for l in fn.loops.values():
                    if l['header'] == b and frm in l['bset']:
                        # facts about values computed inside the loop do not survive
                        facts = {a: v for a, v in facts.items() if not mentions_block(fn, a, l['bset'])}
                        env = {k: v for k, v in env.items() if fn.blk[k] not in l['bset'] or k in upd and upd[k] is not None}
            key = (b, tuple(sorted((k, str(v)) for k, v in env.items())), frozenset(facts.items()), st)
            if key in seen:
                continue
            seen.add(key)
            n += 1
            if n > self.limit:
                raise Undecided('too many states in ' + fn.src)
            if visit and visit(b, env, facts, path):
                continue
            if step:
                st = step(b, env, facts, path, st)
                if st is None:
                    continue
            t = fn.blocks[b][-1]
            if t['op'] == 'br' and t['args']:
                for truth, s in ((True, t['succ'][0]), (False, t['succ'][1])):
                    for conj in fn.atoms(t['args'][0], env, truth):
                        f2 = dict(facts)
                        ok = True
                        for a, v in conj:
                            if not self.consistent(f2, a, v):
                                ok = False
                                break
                            f2[a] = v
                        if not ok:
                            continue
                        full = f2
                        if cut and cut(b, s, conj, env, full):
                            continue
                        s2 = edge(b, s, conj, env, full, st) if edge else st
                        if edge and s2 is None:
                            continue
                        f2 = {a: v for a, v in f2.items() if self.relevant(a)}
                        work.append((s, b, env, f2, (s, path), s2))
            elif t['op'] == 'switch':
                x = fn.expr(t['args'][0], env)
                for c, s in t['cases']:
                    a = ('cmp', 'eq', x, ('c', c))
                    if not self.consistent(facts, a, True):
                        continue
                    if x[0] == 'c' and x[1] != c:
                        continue
                    if cut and cut(b, s, [(a, True)], env, facts):
                        continue
                    s2 = edge(b, s, [(a, True)], env, facts, st) if edge else st
                    if edge and s2 is None:
                        continue
                    f2 = dict(facts)
                    f2[a] = True
                    work.append((s, b, env, f2, (s, path), s2))
                if not (x[0] == 'c' and any(x[1] == c for c, s in t['cases'])):
                    conj = [(('cmp', 'eq', x, ('c', c)), False) for c, s in t['cases']]
                    if all(self.consistent(facts, a, v) for a, v in conj):
                        if not (cut and cut(b, t['def'], conj, env, facts)):
                            s2 = edge(b, t['def'], conj, env, facts, st) if edge else st
                            if edge and s2 is None:
                                continue
                            f2 = dict(facts)
                            work.append((t['def'], b, env, f2, (t['def'], path), s2))
            else:
                for s in fn.succ[b]:
                    if cut and cut(b, s, [], env, facts):
                        continue
                    s2 = edge(b, s, [], env, facts, st) if edge else st
                    if edge and s2 is None:
                        continue
                    work.append((s, b, env, facts, (s, path), s2))
        return n

def walk(e):
    yield e
    if isinstance(e, tuple):
        for x in e:
            if isinstance(x, tuple):
                yield from walk(x)

def mentions_block(fn, e, bset):
    for x in walk(e):
        if x and x[0] in ('phi', 'alloca') and len(x) == 2 and isinstance(x[1], int) and fn.blk.get(x[1]) in bset:
            return True
        if x and x[0] == 'call' and len(x) > 2 and isinstance(x[2], int) and fn.blk.get(x[2]) in bset:
            return True
    return False

def pathlines(fn, path, limit=14):
    """Source lines along a path, for reports."""
    bs = []
    while path:
        bs.append(path[0])
        path = path[1]
    bs.reverse()
    out = []
    for b in bs:
        for i in fn.blocks[b]:
            l = i.get('loc')
            if l and i['op'] in ('br', 'call', 'ret', 'store', 'switch'):
                s = '%s:%d' % (l[0], l[1])
                if not out or out[-1] != s:
                    out.append(s)
    if len(out) > limit:
        out = out[:limit // 2] + ['...'] + out[-limit // 2:]
    return out
