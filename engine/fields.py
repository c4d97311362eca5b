"""Where constructors keep their arguments, and how those places are read back."""
from astmodel import *
import header

MEMCPY = ('llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', 'memcpy', 'memmove')
ALLOC = ('calloc', 'malloc', 'realloc', 'mdup', 'strdup', 'strndup')

def rooted(a):
    """(root, offset, vars) of an address expression"""
    if a[0] == 'addr':
        return a[1], a[2], a[3]
    return a, 0, ()

def unbool(e):
    """strip what turns a stored boolean into a truth value"""
    while True:
        if e[0] == 'and' and ('c', 1) in e[1:]:
            e = e[1] if e[2] == ('c', 1) else e[2]
        elif e[0] == 'cmp' and e[1] == 'ne' and e[3] == ('c', 0):
            e = e[2]
        elif e[0] == 'select' and e[2] == ('c', 1) and e[3] == ('c', 0):
            e = e[1]
        else:
            return e

def allocation(e):
    return e[0] == 'call' and e[1] in ALLOC

class Place:
    """How one parameter is kept: kind is scalar, inline (array inside the node) or
    pointer (array behind a pointer); stride and start in bytes."""
    def __init__(self, kind, off, stride=8, start=0, count=None, owned=False):
        self.kind, self.off, self.stride, self.start, self.count, self.owned = kind, off, stride, start, count, owned
    def __repr__(self):
        return 'Place(%s,%s,%s,%s,%s)' % (self.kind, self.off, self.stride, self.start, self.count)

class Ctor:
    def __init__(self, m, fn, sp):
        self.m, self.fn, self.sp = m, fn, sp
        self.paths = Paths(fn)
        self.hp = header.cached()[fn.name]['params']
        self.idx = {n: k for k, (n, t) in enumerate(self.hp)}
        self.objs = set()
        self.deleg = []                # (call expr of another constructor)
        self.results()
        self.collect()

    def results(self):
        fn = self.fn
        out = set()
        def visit(b, env, facts, path):
            t = fn.blocks[b][-1]
            if t['op'] == 'ret' and t['args']:
                out.add(fn.expr(t['args'][0], env))
            return False
        self.paths.explore(visit=visit)
        self.rets = out
        for e in out:
            if e[0] == 'null':
                continue
            if e[0] == 'call' and e[1] in ('calloc', 'malloc'):
                self.objs.add(e)
            elif e[0] == 'call' and e[1].startswith('cypher_ast_'):
                self.deleg.append(e)
            else:
                raise Undecided('result of the constructor is not understood: %s' % (e[0],))

    def collect(self):
        """stores into the object: off -> [(value expr, instr)]; copies: (off, src, size, instr)"""
        fn = self.fn
        self.stores = {}
        self.copies = []
        self.vstores = []
        for i in fn.all():
            if i['op'] == 'store':
                r, off, var = rooted(fn.expr(i['args'][1]))
                if r in self.objs:
                    v = fn.expr(i['args'][0])
                    if var:
                        self.vstores.append((off, var, v, i))
                    else:
                        self.stores.setdefault(off, []).append((v, i))
            elif i['op'] == 'call' and i.get('callee') in MEMCPY:
                r, off, var = rooted(fn.expr(i['args'][0]))
                if r in self.objs:
                    self.copies.append((off if not var else None, fn.expr(i['args'][1]), elin(fn.expr(i['args'][2])), i))
            elif i['op'] == 'call' and i.get('callee') in ('strncpy', 'strcpy', 'stpcpy'):
                r, off, var = rooted(fn.expr(i['args'][0]))
                if r in self.objs:
                    self.copies.append((off if not var else None, fn.expr(i['args'][1]),
                                        elin(fn.expr(i['args'][2])) if len(i['args']) > 2 else None, i))
        # copies into memory that the object points to
        self.pcopies = {}
        for i in fn.all('call'):
            if i.get('callee') in MEMCPY:
                d = fn.expr(i['args'][0])
                if allocation(d) and d not in self.objs:
                    self.pcopies.setdefault(d, []).append((fn.expr(i['args'][1]), elin(fn.expr(i['args'][2])), i))

    def avoidable(self, i, zero=(), nulls=()):
        """A successful path on which instruction i is not executed (and none of the
        zero/null expressions is known to be zero)."""
        fn = self.fn
        blk = fn.blk[i['id']]
        found = []
        def cut(s, d, conj, env, facts):
            for a, v in list(conj) + list(facts.items()):
                if v and a[0] == 'cmp' and a[1] == 'eq' and ((a[3] == ('c', 0) and a[2] in zero) or (a[3] == ('null',) and a[2] in nulls)):
                    return True
            return False
        def visit(b, env, facts, path):
            if found or b == blk:
                return True
            t = fn.blocks[b][-1]
            if t['op'] == 'ret' and t['args'] and fn.expr(t['args'][0], env)[0] != 'null':
                found.append(path)
            return False
        Paths(fn).explore(visit=visit, cut=cut)
        return found[0] if found else None

    def arg(self, pn):
        return ('arg', self.idx[pn])

    def clobbered(self, off, size, i, ok):
        """another store to the same place that can follow instruction i"""
        fn = self.fn
        for o, vs in self.stores.items():
            for v, j in vs:
                if j is i or not (o < off + size and off < o + 8) or ok(v):
                    continue
                if o != off and not (off <= o < off + size):
                    continue
                if reach_after(fn, i, j):
                    return j
        for o, src, sz, j in self.copies:
            if o is None or j is i:
                continue
            n = sz.const() if sz is not None else None
            if n is not None and o < off + size and off < o + n and reach_after(fn, i, j):
                return j
        return None

    def place(self, pn):
        """Place, or raises Undecided, or returns ('missing'|'clobbered'|..., text)."""
        fn, sp = self.fn, self.sp
        p = sp['params'].get(pn)
        a = self.arg(pn)
        kind = p['kind']
        if self.deleg and not self.objs:
            raise Undecided('delegates to another constructor')
        if kind in ('node', 'flag', 'enum', 'operator', 'count'):
            cands = []
            for off, vs in self.stores.items():
                for v, i in vs:
                    if kind == 'count' and (v == a and i.get('vty') in ('i8', 'i16') or v[0] == 'low' and v[2] == a or any(
                            x[0] == 'and' and len(x) == 3 and a in x[1:] and any(y[0] == 'c' and 0 <= y[1] < 0xffffffff for y in x[1:]) for x in walk(v))):
                        return ('narrow', 'only a part of the number `%s` is kept' % pn, [fn.loc(i)])
                    if v == a or unbool(v) == a or is_arg_bool(v, a):
                        cands.append((off, i))
            if not cands:
                if self.mentions(a):
                    raise Undecided('the way `%s` is kept is not understood' % pn)
                return ('missing', 'the value of `%s` is not kept in the node' % pn, None)
            best = None
            for off, i in cands:
                zero = [a] if kind in ('count',) else []
                nulls = [a] if kind == 'node' else []
                av = self.avoidable(i, zero, nulls)
                if av:
                    best = best or ('skipped', 'the value of `%s` is not kept on every successful path' % pn, pathlines(fn, av))
                    continue
                cl = self.clobbered(off, 1, i, lambda v: v == a or unbool(v) == a or is_arg_bool(v, a))
                if cl is not None:
                    best = best or ('clobbered', 'the value of `%s` is overwritten at %s' % (pn, fn.loc(cl)), None)
                    continue
                return Place('scalar', off)
            return best
        if kind in ('nodes', 'operators'):
            cnt = Lin(p.get('plus', 0), {self.arg(p['count']): p.get('mult', 1)})
            zero = zero_exprs(cnt)
            for off, src, size, i in self.copies:
                if src == a and off is not None:
                    if size != cnt.mul(8):
                        return ('size', '%r bytes of `%s` are kept, %r expected' % (size, pn, cnt.mul(8)), [fn.loc(i)])
                    av = self.avoidable(i, zero)
                    if av:
                        return ('skipped', '`%s` is not copied on every successful path' % pn, pathlines(fn, av))
                    return Place('inline', off, count=cnt)
            for off, vs in self.stores.items():
                for v, i in vs:
                    if v[0] == 'call' and v[1] == 'mdup' and v[3] == a:
                        size = elin(v[4])
                    elif allocation(v) and v in self.pcopies and self.pcopies[v][0][0] == a:
                        size = self.pcopies[v][0][1]
                    else:
                        continue
                    if size != cnt.mul(8):
                        return ('size', '%r bytes of `%s` are kept, %r expected' % (size, pn, cnt.mul(8)), [fn.loc(i)])
                    av = self.avoidable(i, zero)
                    if av:
                        return ('skipped', '`%s` is not copied on every successful path' % pn, pathlines(fn, av))
                    return Place('pointer', off, count=cnt, owned=True)
            # stored element by element
            for off, var, v, i in self.vstores:
                if v[0] != 'ld':
                    continue
                st = affine(fn, i.get('scev')) if i.get('scev') else None
                for l in fn.all('load'):
                    if fn.expr(['i', l['id']]) != v:
                        continue
                    lt = affine(fn, l['scev']) if l.get('scev') else None
                    if not st or not lt or st[0] is None or st[0] != lt[0]:
                        continue
                    if lt[1] != Lin(0, {a: 1}) or lt[2].const() != 8 or st[2].const() is None:
                        continue
                    obj = [o for o in self.objs if st[1].t.get(o) == 1 and len(st[1].t) == 1]
                    if not obj:
                        continue
                    L = fn.loops[st[0]]
                    good = set()
                    for xb, s in L['exits']:
                        for xs in fn.succ[xb]:
                            if xs not in L['bset'] and exec_count(fn, L, fn.blk[i['id']], xb) == cnt:
                                good.add((xb, xs))
                    found = []
                    def cut(s, d, conj, env, facts):
                        if (s, d) in good:
                            return True
                        return any(vv and x[0] == 'cmp' and x[1] == 'eq' and x[3] == ('c', 0) and x[2] in zero for x, vv in list(conj) + list(facts.items()))
                    def visit(b, env, facts, path):
                        t = fn.blocks[b][-1]
                        if t['op'] == 'ret' and t['args'] and fn.expr(t['args'][0], env)[0] != 'null':
                            found.append(path)
                        return bool(found)
                    Paths(fn).explore(visit=visit, cut=cut)
                    if found:
                        return ('skipped', 'not every element of `%s` is kept' % pn, pathlines(fn, found[0]))
                    return Place('inline', st[1].c, stride=st[2].const(), count=cnt)
            if self.mentions(a):
                # is it stored at all?
                if not self.stored_somewhere(a):
                    return ('missing', '`%s` is not kept in the node' % pn, None)
                raise Undecided('the way `%s` is kept is not understood' % pn)
            return ('missing', '`%s` is not kept in the node' % pn, None)
        if kind == 'string':
            n = self.arg(p['len'])
            for off, src, size, i in self.copies:
                if src == a and off is not None:
                    if size != Lin(0, {n: 1}) and size != Lin(1, {n: 1}):
                        return ('size', '%r characters of `%s` are kept' % (size, pn), [fn.loc(i)])
                    av = self.avoidable(i, [n])
                    if av:
                        return ('skipped', '`%s` is not copied on every successful path' % pn, pathlines(fn, av))
                    # terminated
                    term = False
                    for (o, var, v, j) in self.vstores:
                        if o == off and v == ('c', 0) and len(var) == 1 and var[0] == (n, 1) and not self.avoidable(j):
                            term = True
                    for o in self.objs:
                        if o[1] == 'calloc':
                            sz = elin(o[3]).mul(elin(o[4]).const()) if elin(o[4]).const() is not None else elin(o[4]).mul(elin(o[3]).const() or 0)
                            d = sz.add(Lin(0, {n: 1}), -1)
                            if d.const() is not None and d.const() > off:
                                term = True
                    if not term:
                        return ('unterminated', 'the kept copy of `%s` is not terminated' % pn, [fn.loc(i)])
                    return Place('inline', off, stride=1)
            for off, vs in self.stores.items():
                for v, i in vs:
                    if v[0] == 'call' and v[1] == 'strndup' and v[3] == a and v[4] == n:
                        if self.avoidable(i):
                            return ('skipped', '`%s` is not copied on every successful path' % pn, None)
                        return Place('pointer', off, stride=1, owned=True)
            if not self.stored_somewhere(a):
                return ('missing', '`%s` is not kept in the node' % pn, None)
            raise Undecided('the way `%s` is kept is not understood' % pn)
        raise Undecided('kind ' + kind)

    def mentions(self, a):
        """the parameter reaches something not analysed"""
        fn = self.fn
        for i in fn.all():
            if i['op'] == 'call' and i.get('callee') not in ('cypher_astnode_instanceof',) and not (i.get('callee') or '').startswith('llvm.dbg'):
                for x in i['args']:
                    e = fn.expr(x)
                    if e == a:
                        return True
            if i['op'] == 'store' and any(x == a for x in walk(fn.expr(i['args'][0]))):
                return True
        return False

    def stored_somewhere(self, a):
        fn = self.fn
        for i in fn.all('store'):
            if any(x == a for x in walk(fn.expr(i['args'][0]))):
                return True
        for i in fn.all('call'):
            if i.get('callee') in ('cypher_astnode_instanceof',):
                continue
            if any(any(x == a for x in walk(fn.expr(y))) for y in i['args']):
                return True
        return False

    def object_size(self, o):
        if o[1] == 'calloc':
            a, b = elin(o[3]), elin(o[4])
            if a.const() is not None:
                return b.mul(a.const())
            if b.const() is not None:
                return a.mul(b.const())
            return None
        if o[1] == 'malloc':
            return elin(o[3])
        return None

def is_arg_bool(v, a):
    return v[0] == 'select' and v[1][0] == 'cmp' and any(x == a for x in walk(v))

def reach_after(fn, i, j):
    """instruction j can execute after instruction i"""
    bi, bj = fn.blk[i['id']], fn.blk[j['id']]
    if bi == bj and fn.pos[j['id']] > fn.pos[i['id']]:
        return True
    seen, work = set(), list(fn.succ[bi])
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        work += fn.succ[b]
    return bj in seen

_ct = {}
def model(m, name, sp):
    """places of the parameters of a constructor: {param: Place | (problem, text, path) | Undecided}"""
    if name in _ct:
        return _ct[name]
    fn = m.fn(name)
    out = {}
    ct = None
    try:
        ct = Ctor(m, fn, sp['ctors'][name])
    except Undecided as e:
        for pn in sp['ctors'][name]['params']:
            out[pn] = e
    if ct:
        for pn in sp['ctors'][name]['params']:
            try:
                out[pn] = ct.place(pn)
            except Undecided as e:
                out[pn] = e
    _ct[name] = (ct, out)
    return _ct[name]
