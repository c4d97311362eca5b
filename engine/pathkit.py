"""Helpers for rules over path effects: values in a normal form that uses what the path
knows, boolean tables, and obligations collected over all paths of a function."""
from ir import *
from effects import effects, Mods, F

class Knows:
    """what a path knows about values"""
    def __init__(self, p):
        self.p = p
        self.eqs = {}
        for a, v in p.facts.items():
            if v and a[0] == 'cmp' and a[1] == 'eq' and a[3][0] in ('c', 'null'):
                self.eqs[a[2]] = ('c', a[3][1]) if a[3][0] == 'c' else ('null',)
        self.memo = {}
        for x in [x for x in self.eqs if x[0] in ('add', 'sub') and self.eqs[x][0] == 'c']:
            c = self.eqs.pop(x)
            l = self.lin(x).add(Lin(c[1]), -1)
            t = [(a, k) for a, k in l.t.items() if k]
            if len(t) == 1 and abs(t[0][1]) == 1:
                self.eqs.setdefault(t[0][0], ('c', -l.c * t[0][1]))
            if t:
                self.eqs[x] = c
            self.memo = {}

    def n(self, e):
        if e is None:
            return None
        if e in self.memo:
            return self.memo[e]
        self.memo[e] = e
        r = self.norm(e)
        if r in self.eqs:
            r = self.eqs[r]
        self.memo[e] = r
        return r

    def norm(self, e):
        if e in self.eqs:
            return self.eqs[e]
        k = e[0]
        if k in ('add', 'sub', 'mul', 'shl'):
            l = self.lin(e)
            return self.unlin(l)
        if k == 'addr':
            b = self.n(e[1])
            off, var = e[2], []
            for v, s in e[3]:
                l = self.lin(v)
                off += l.c * s
                for t, c in l.t.items():
                    if c:
                        var.append((t, c * s))
            return mkaddr(b, off, tuple(sorted(var, key=repr)))
        if k == 'select':
            c = self.truth(e[1])
            if c is not None:
                return self.n(e[2] if c else e[3])
            return ('select', self.n(e[1])) + tuple(self.n(x) for x in e[2:])
        if k == 'cmp':
            c = self.truth(e)
            if c is not None:
                return ('c', int(c))
            return e
        if k in ('umin', 'umax') and len(e) == 3:
            a, b = self.n(e[1]), self.n(e[2])
            if a == b:
                return a
            for x, y in ((a, b), (b, a)):
                if x == ('c', 0):
                    return x if k == 'umin' else y
            M = (1 << 64) - 1
            if a[0] == b[0] == 'c':
                return a if (a[1] & M < b[1] & M) == (k == 'umin') else b
            t = self.truth(('cmp', 'ult', a, b))
            if t is not None:
                return a if t == (k == 'umin') else b
            return (k, a, b)
        if k == 'ld':
            return ('ld', self.n(e[1])) + e[2:]
        if k in ('and', 'or', 'xor'):
            xs = tuple(self.n(x) for x in e[1:])
            if all(x[0] == 'c' for x in xs):
                f = {'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y}[k]
                return ('c', f(xs[0][1], xs[1][1]))
            return (k,) + tuple(sorted(xs, key=repr))
        return e

    def lin(self, e):
        """linear form over normal atoms"""
        if e in self.eqs and self.eqs[e][0] == 'c':
            return Lin(self.eqs[e][1])
        k = e[0]
        if k == 'c':
            return Lin(e[1])
        if k == 'null':
            return Lin(0)
        if k == 'add':
            return self.lin(e[1]).add(self.lin(e[2]))
        if k == 'sub' and len(e) == 3:
            return self.lin(e[1]).add(self.lin(e[2]), -1)
        if k == 'mul':
            a, b = self.lin(e[1]), self.lin(e[2])
            if a.const() is not None:
                return b.mul(a.const())
            if b.const() is not None:
                return a.mul(b.const())
            return Lin(0, {('mul',) + tuple(sorted((self.unlin(a), self.unlin(b)), key=repr)): 1})
        if k == 'xor' and len(e) == 3 and ('c', -1) in e[1:]:
            x = e[2] if e[1] == ('c', -1) else e[1]
            if x[0] in ('phi', 'ld', 'add', 'sub', 'mul', 'arg'):
                return Lin(-1).add(self.lin(x), -1)
        if k == 'shl' and e[2][0] == 'c':
            return self.lin(e[1]).mul(1 << e[2][1])
        n = self.n(e) if k not in ('add', 'sub', 'mul', 'shl') else e
        if n[0] == 'c':
            return Lin(n[1])
        if n[0] in ('lin', 'mul') and n != e:
            return self.lin(n)
        if n[0] == 'lin':
            l = Lin(n[1])
            for t, c in n[2]:
                l = l.add(Lin(0, {t: c}))
            return l
        return Lin(0, {n: 1})

    def unlin(self, l):
        t = {a: c for a, c in l.t.items() if c}
        if not t:
            return ('c', l.c)
        if l.c == 0 and len(t) == 1 and list(t.values()) == [1]:
            return list(t)[0]
        return ('lin', l.c, tuple(sorted(t.items(), key=repr)))

    def same(self, a, b):
        a, b = self.n(a), self.n(b)
        if a == b:
            return True
        if a[0] in ('null', 'c') and b[0] in ('null', 'c'):
            return (a[1] if a[0] == 'c' else 0) == (b[1] if b[0] == 'c' else 0)
        return False

    def truth(self, e):
        """what the path knows of a condition"""
        k = e[0]
        if k == 'c':
            return bool(e[1] & 1)
        f = self.p.facts
        if k == 'cmp':
            if e in f:
                return f[e]
            pr, a, b = e[1], e[2], e[3]
            neg = {'ne': 'eq', 'uge': 'ult', 'sge': 'slt', 'ule': 'ugt', 'sle': 'sgt'}
            if pr in neg:
                x = self.truth(('cmp', neg[pr], a, b))
                return None if x is None else not x
            sw = {'ugt': 'ult', 'sgt': 'slt'}
            if pr in sw:
                return self.truth(('cmp', sw[pr], b, a))
            na, nb = self.n(a), self.n(b)
            if pr == 'eq':
                x = mkcmp('eq', na, nb)
                if x[0] == 'c':
                    return bool(x[1])
                if x in f:
                    return f[x]
                if na == nb:
                    return True
            x = mkcmp(pr, na, nb)
            if x[0] == 'c':
                return bool(x[1] & 1)
            if x in f:
                return f[x]
            if na[0] == 'c' and nb[0] == 'c':
                M = (1 << 64) - 1
                if pr == 'ult':
                    return (na[1] & M) < (nb[1] & M)
                if pr == 'slt':
                    return na[1] < nb[1]
            if pr == 'ult' and nb == ('c', 0):
                return False
            if pr == 'ult' and na == ('c', 0):
                z = self.truth(('cmp', 'eq', nb, ('c', 0)))
                return None if z is None else not z
            return None
        if k == 'xor' and len(e) == 3 and e[1][0] == 'c' and e[1][1] in (1, -1):
            x = self.truth(e[2])
            return None if x is None else not x
        if k == 'xor' and len(e) == 3 and e[2][0] == 'c' and e[2][1] in (1, -1):
            x = self.truth(e[1])
            return None if x is None else not x
        if k in ('and', 'or') and len(e) == 3:
            if ('c', 1) in e[1:] and k == 'and':
                return self.truth(e[1] if e[2] == ('c', 1) else e[2])
            a, b = self.truth(e[1]), self.truth(e[2])
            if k == 'and':
                return False if a is False or b is False else True if a and b else None
            return True if a or b else False if a is False and b is False else None
        if k == 'select':
            c = self.truth(e[1])
            if c is None:
                return None
            return self.truth(e[2] if c else e[3])
        if ('bool', e) in f:
            return f[('bool', e)]
        x = f.get(('cmp', 'eq', e, ('c', 0)))
        if x is not None:
            return not x
        b = ('cmp', 'eq', ('and', ('c', 1), e), ('c', 0))
        if b in f:
            return not f[b]
        b = ('cmp', 'eq', ('and', e, ('c', 1)), ('c', 0))
        if b in f:
            return not f[b]
        if e in self.eqs:
            return self.eqs[e] not in (('c', 0), ('null',))
        return None

def table(k, e, atoms):
    """the value of a truth value e under every assignment of the atoms (pairs of a name and
    a list of expressions that all are that atom) the path allows: yields (assignment, value)"""
    import itertools
    names = list(atoms)
    for bits in itertools.product((False, True), repeat=len(names)):
        asg = dict(zip(names, bits))
        ok = True
        for n, v in asg.items():
            for x, pos in atoms[n]:
                t = k.truth(x)
                if t is not None and t != (v == pos):
                    ok = False
        if not ok:
            continue
        yield asg, teval(k, e, {x: (asg[n] == pos) for n in names for x, pos in atoms[n]})

def teval(k, e, env):
    if e in env:
        return env[e]
    t = k.truth(e)
    if t is not None:
        return t
    h = e[0]
    if h == 'null':
        return False
    if h == 'cmp' and e[1] == 'ne':
        x = teval(k, ('cmp', 'eq') + e[2:], env)
        return None if x is None else not x
    if h == 'cmp' and e[1] == 'eq' and e[3] == ('c', 0):
        x = teval(k, e[2], env)
        return None if x is None else not x
    if h == 'cmp' and e[1] == 'ult' and e[2] == ('c', 0):
        x = teval(k, ('cmp', 'eq', e[3], ('c', 0)), env)
        return None if x is None else not x
    if h == 'xor' and any(y[0] == 'c' and y[1] in (1, -1) for y in e[1:]):
        x = teval(k, [y for y in e[1:] if not (y[0] == 'c' and y[1] in (1, -1))][0], env)
        return None if x is None else not x
    if h == 'and' and ('c', 1) in e[1:]:
        return teval(k, e[1] if e[2] == ('c', 1) else e[2], env)
    if h in ('and', 'or'):
        a, b = teval(k, e[1], env), teval(k, e[2], env)
        if h == 'and':
            return False if a is False or b is False else True if a and b else None
        return True if a or b else False if a is False and b is False else None
    if h == 'select':
        c = teval(k, e[1], env)
        if c is None:
            a, b = teval(k, e[2], env), teval(k, e[3], env)
            return a if a == b else None
        return teval(k, e[2] if c else e[3], env)
    if h in ('zext', 'trunc'):
        return teval(k, e[1], env)
    return None

def written(p, outside=True):
    """addresses stored to on the path (not in local objects), with the event index"""
    out = []
    for j, e in enumerate(p.events):
        if e[0] in ('store', 'copy', 'zero'):
            r = e[1]
            while r[0] == 'addr':
                r = r[1]
            if r[0] != 'alloca':
                out.append((j, e))
    return out

def root(e):
    while e[0] == 'addr':
        e = e[1]
    return e

class Fun:
    """a function, its paths and the members of its arguments"""
    def __init__(self, C, m, name, **kw):
        self.C, self.m = C, m
        self.fn = m.fn(name)
        if self.fn is None and m.by_src.get(name):
            self.fn = m.fn(m.by_src[name][0])
        self.name = name
        if self.fn is None and not name.startswith('cypher_'):
            raise Undecided('no function ' + name)
        C.anchor(self.fn is not None, name)
        kw.setdefault('mods', Mods(m))
        self.paths = effects(self.fn, **kw)
        C.cover['paths'] += len(self.paths)
    def A(self, n):
        k = self.fn.pindex(n) if isinstance(n, str) else n
        if k is None:
            raise Undecided('%s has no parameter %s' % (self.name, n))
        return ('arg', k)
    def f(self, base, struct, field):
        return F(self.m, base, struct, field)
    def ob(self, rule, key, ok, msg, p=None):
        self.C.ob(rule, self.fn.where(), ok, key='%s:%s' % (self.name, key), msg='%s: %s' % (self.name, msg), path=p.lines() if p and not ok else None)
