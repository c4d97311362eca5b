"""M04: writes lie within the memory allocated."""
from astmodel import *
from effects import effects, Mods, tywidth
from pathkit import Knows
from ir import Undecided, Lin, walk, counter, strip
from containers import keep_v
from memory import generated

ALLOC = {'malloc': lambda B, K, a: B.lin(K, a[0]), 'calloc': lambda B, K, a: times(B, K, a[0], a[1]), 'realloc': lambda B, K, a: B.lin(K, a[1]), 'mdup': lambda B, K, a: B.lin(K, a[1])}
FILL = {'snprintf': (0, (1,)), 'vsnprintf': (0, (1,)), 'cp_snprintf': (0, (1,)), 'strncpy': (0, (2,)), 'fread': (0, (1, 2)), 'read': (1, (2,)), 'fgets': (0, (1,)), 'memset': (0, (2,)),
        'snprint_sequence': (0, (1,)), 'cypher_astnode_detailstr': (1, (2,)), 'stpncpy': (0, (2,)), 'strncat': (0, ())}

def times(B, K, a, b):
    x, y = B.lin(K, a), B.lin(K, b)
    if x.const() is not None:
        return y.mul(x.const())
    if y.const() is not None:
        return x.mul(y.const())
    return Lin(0, {('mul',) + tuple(sorted((K.unlin(x), K.unlin(y)), key=repr)): 1})

def times2(B, K, t):
    xs = [B.lin(K, x) for x in t[1:]]
    return Lin(0, {('mul',) + tuple(sorted((K.unlin(x) for x in xs), key=repr)): 1})

def strip_at(e):
    """loads of the arguments' memory without the time of the load"""
    if not isinstance(e, tuple) or not e:
        return e
    if e[0] == 'ld':
        r = e[1]
        while r[0] in ('addr', 'ld'):
            r = r[1]
        if r[0] == 'arg':
            return ('ld', strip_at(e[1]))
    return tuple(strip_at(x) for x in e)

def split(a):
    off, var = 0, []
    while a[0] == 'addr':
        off += a[2]
        var += list(a[3])
        a = a[1]
    return a, off, var

def extents(p, mods):
    """(event index, address, length expressions to be multiplied or a number, instruction, kind)"""
    for j, e in enumerate(p.events):
        if e[0] == 'store':
            yield j, e[1], tywidth(e[3]['vty']), e[3], 'store'
        elif e[0] == 'copy':
            yield j, e[1], (e[3],), e[4], 'copy'
            yield j, e[2], (e[3],), e[4], 'copy from'
        elif e[0] == 'zero':
            yield j, e[1], (e[2],), e[3], 'clear'
        elif e[0] == 'call' and isinstance(e[1], str):
            if e[1] in FILL:
                d, l = FILL[e[1]]
                if l:
                    yield j, e[2][d], tuple(e[2][x] for x in l), e[4], e[1]
            elif e[1] not in ALLOC:
                for k, o, z in mods.of(e[1]) or ():
                    if k < len(e[2]) and o is not None and z is not None:
                        yield j, ('addr', e[2][k], o, ()), z, e[4], e[1]

def length(B, K, n):
    if isinstance(n, int):
        return Lin(n)
    l = Lin(1)
    for x in n:
        y = B.lin(K, x)
        l = y if l == Lin(1) else times(B, K, K.unlin(l), K.unlin(y))
    return l

def phis(e):
    return {x for x in walk(e) if isinstance(x, tuple) and x and x[0] == 'phi'}

def counts(fn, L, n):
    """does the phi count the rounds of the loop, from 0?"""
    if counter(fn, L, ('phi', n)) == 0:
        return True
    s = strip(fn.ins[n].get('scev') or ['?'])
    return s[0] == 'rec' and s[1] == L['id'] and [strip(x)[:2] for x in s[2]] == [['c', 0], ['c', 1]]

def downwards(fn, L, n):
    """does the phi only ever get smaller in the loop?"""
    for v, b in fn.ins[n]['in']:
        if b in L['bset']:
            x = fn.expr(v)
            if not (x[0] == 'add' and len(x) == 3 and any(y[0] == 'c' and y[1] < 0 for y in x[1:]) and ('phi', n) in x[1:]):
                return False
    return True

class Bounds:
    def __init__(self, m, fn, paths):
        self.m, self.fn, self.paths, self.open, self.ends = m, fn, paths, False, {}

    def lin(self, K, e):
        """linear form; loads of what is only read are the same at any time, and so are counters of one loop"""
        out = Lin(0)
        l = K.lin(e)
        for t, c in l.t.items():
            out = out.add(self.atom(K, t).mul(c))
        return out.add(Lin(l.c))

    def atom(self, K, t):
        if t[0] == 'or' and len(t) == 3:
            for x, y in (t[1:], t[1:][::-1]):
                if x[0] == 'c' and x[1] > 0:
                    l = self.lin(K, y)
                    b = 1 << x[1].bit_length()
                    if l.c % b == 0 and all(k % b == 0 for k in l.t.values()):
                        return l.add(Lin(x[1]))
        if t[0] == 'phi' and t[1] in self.fn.blk:
            L = [l for l in self.fn.loops.values() if l['header'] == self.fn.blk[t[1]]]
            if L and counts(self.fn, L[0], t[1]):
                for i in self.fn.blocks[L[0]['header']]:
                    if i['op'] == 'phi' and counts(self.fn, L[0], i['id']):
                        return Lin(0, {('phi', i['id']): 1})
        if t[0] == 'mul':
            return times2(self, K, t)
        return Lin(0, {strip_at(t): 1})

    def upper(self, K, t):
        """linear forms t is at most on this path"""
        out = []
        if t[0] == 'umin':
            out += [self.lin(K, x) for x in t[1:]]
        if t[0] == 'phi':
            b = self.counter(K, t)
            if b is not None:
                out.append(b)
            L = [l for l in self.fn.loops.values() if l['header'] == self.fn.blk.get(t[1])]
            if L and downwards(self.fn, L[0], t[1]):
                out += [self.lin(K, e[2][t[1]]) for e in K.p.events if e[0] == 'loop' and e[1] == L[0]['id'] and t[1] in e[2]]
        return out

    def lower(self, K, t):
        return [self.lin(K, x) for x in t[1:]] if t[0] == 'umax' else []

    def counter(self, K, t):
        """rotated loop: a counter from 0 by 1 that goes on only while it is below N, of a loop entered only when N is not 0"""
        L = [l for l in self.fn.loops.values() if l['header'] == self.fn.blk[t[1]]]
        if not L or not counts(self.fn, L[0], t[1]):
            return None
        lim = set()
        for p in self.paths:
            if p.end[0] != 'back' or t not in self.header(p.end[1]):
                continue
            k = Knows(p)
            found = None
            for a, v in p.facts.items():
                if a[0] != 'cmp':
                    continue
                x, y = self.lin(k, a[2]), self.lin(k, a[3])
                if a[1] in ('ult', 'slt') and v and x == Lin(1, {t: 1}):
                    found = k.unlin(y)
                elif a[1] in ('ult', 'slt') and not v and y == Lin(1, {t: 1}):
                    found = k.unlin(x.add(Lin(1)))
                elif a[1] == 'eq' and not v and Lin(1, {t: 1}) in (x, y):
                    found = k.unlin(y if x == Lin(1, {t: 1}) else x)
            lim.add(found)
        if len(lim) != 1 or None in lim:
            return None
        N = lim.pop()
        if judge(self, K, self.lin(K, N).add(Lin(-1)), facts(self, K), 3) is not True:
            return None
        return self.lin(K, N).add(Lin(-1))

    def loose(self, g, t, G, seen=()):
        """is what t is at most the end of a count, or something given, that is not limited otherwise?"""
        return any(c > 0 and u not in seen and (u[0] == 'phi' and self.endless(u) or u != t and given(u) and all(h.t.get(u, 0) >= 0 or self.loose(h, u, G, seen + (t, u)) for h in G))
                   for u, c in g.t.items())

    def endless(self, u):
        if u not in self.ends:
            L = [l for l in self.fn.loops.values() if l['header'] == self.fn.blk.get(u[1])]
            ok = bool(L) and counts(self.fn, L[0], u[1])
            for p in self.paths if ok else ():
                for g in facts(self, Knows(p)):
                    if g.t.get(u, 0) < 0 and not any(c > 0 and given(x) for x, c in g.t.items()):
                        ok = False
            self.ends[u] = ok
        return self.ends[u]

    def header(self, li):
        L = self.fn.loops[li]
        return {('phi', i['id']) for i in self.fn.blocks[L['header']] if i['op'] == 'phi'}

def facts(B, K):
    """linear forms known not to be negative on the path"""
    out = []
    for a, v in K.p.facts.items():
        if a[0] != 'cmp' or a[1] not in ('ult', 'slt', 'eq'):
            continue
        if a[3][0] == 'null':
            continue
        x, y = B.lin(K, a[2]), B.lin(K, a[3])
        if a[1] == 'eq':
            d = x.add(y, -1)
            if not v and a[3] == ('c', 0) and a[2][0] == 'and' and len(a[2]) == 3:
                # part of it is not zero: it is not zero
                for z in a[2][1:]:
                    if z[0] != 'c':
                        out.append(B.lin(K, z).add(Lin(-1)))
            elif v and d.t:
                out += [d, d.mul(-1)]
            elif not v and len(d.t) == 1 and d.c == 0 and list(d.t.values()) == [1]:
                out.append(d.add(Lin(-1)))
            continue
        out.append(y.add(x, -1).add(Lin(-1)) if v else x.add(y, -1))
    return [d for d in out if d.t]

def given(t):
    if t[0] != 'ld':
        return t[0] == 'arg'
    while t[0] in ('addr', 'ld'):
        t = t[1]
    return t[0] == 'arg'

def judge(B, K, d, G, depth=0):
    """True: d >= 0; False: d < 0 for some values; None: not known"""
    neg = [t for t, c in d.t.items() if c < 0]
    if not neg:
        if d.c >= 0:
            return True
        if not d.t:
            return False
    elif B.open and len(neg) == len([c for c in d.t.values() if c]) and all(given(t) and not B.upper(K, t) and not any(g.t.get(t, 0) < 0 and not B.loose(g, t, G) for g in G) for t in neg):
        return False        # what is given may be of any size
    if depth > 4:
        return None
    for t, c in d.t.items():
        if t[0] == 'umin' and c > 0 or t[0] == 'umax' and c < 0:
            # d is the least of what it is with either
            r = [judge(B, K, d.add(Lin(0, {t: 1}), -c).add(B.lin(K, x).mul(c)), G, depth + 1) for x in t[1:]]
            return False if False in r else True if all(r) else None
    res = []
    for t, c in d.t.items():
        if c < 0:
            more = [u.add(Lin(0, {t: 1}), -1) for u in B.upper(K, t) if t not in u.t]
        elif d.c < 0:
            more = [Lin(0, {t: 1}).add(u, -1) for u in B.lower(K, t) if t not in u.t]
        else:
            continue
        for g in more + G:
            k = g.t.get(t, 0)
            if k * c > 0 and c % k == 0:
                r = judge(B, K, d.add(g, -(c // k)), G, depth + 1)
                if r:
                    return True
                if c < 0 and g in more or c < 0 and any(x[0] == 'phi' for x in (t,)):
                    res.append(r)
    if res and all(r is False for r in res):
        return False
    return None

def arrays(fn):
    return any(i['op'] == 'alloca' and (i.get('aty') or '').startswith('[') for b in fn.blocks for i in b)

def obligations(m, mods, fn):
    """(instruction that writes, what, size of the object, instruction that made it, holds, path)"""
    try:
        ps = effects(fn, mods=mods)
    except Undecided:
        # with its static functions out of line
        m = lib_module(('@all',))
        if m.fn(fn.name) is None:
            raise
        fn, mods = m.fn(fn.name), Mods(m)
        ps = effects(fn, mods=mods)
    B = Bounds(m, fn, ps)
    for p in ps:
        K = Knows(p)
        G = facts(B, K)
        size = {}
        for e in p.events:
            if e[0] == 'call' and e[1] in ALLOC:
                size[e[3]] = ALLOC[e[1]](B, K, e[2]), e[4], e[1]
        for j, a, n, i, kind in extents(p, mods):
            r, off, var = split(a)
            if r in size:
                s, mk, how = size[r]
            elif r[0] == 'alloca':
                mk, how = fn.ins[r[1]], 'local'
                if 'asz' not in mk or mk['args'][0][0] != 'c':
                    continue
                s = Lin(mk['asz'] * mk['args'][0][1])
            else:
                continue
            l = length(B, K, n).add(Lin(off))
            for v, k in var:
                l = l.add(B.lin(K, v).mul(k))
            B.open = how != 'realloc'
            yield i, kind, mk, how, judge(B, K, s.add(l, -1), G), s, l, p

def M04(c):
    c.rule('room', 'what is written to memory that was allocated, or copied from it, lies within the size allocated', 300)
    c.rule('local', 'what is written to an array on the stack lies within it', 5)
    for which, m in (('lib', lib_module(keep_v())), ('linter', module('linter', ('@all',)))):
        mods = Mods(m)
        for fn in m.fns():
            if generated(fn):
                c.cover['generated functions left out'] += 1
                continue
            made = [i for b in fn.blocks for i in b if i['op'] == 'call' and i.get('callee') in ALLOC]
            if not made and not arrays(fn):
                continue
            c.cover['functions'] += 1
            c.cover['allocations'] += len(made)
            c.attempt('room', fn.where(), lambda: one(c, m, mods, fn))
    c.rule('growing', 'a list or text that grows has room for what is put into it', 10)
    c.rule('detail', 'detail strings are printed within their buffer', 60)
    growing(c)

def one(c, m, mods, fn):
    seen = {}
    for i, kind, mk, how, ok, s, l, p in obligations(m, mods, fn):
        if how == 'local' and not (mk.get('aty') or '').startswith('['):
            continue
        k = (i['id'], kind, mk['id'])
        o = seen.setdefault(k, [i, kind, mk, how, 0, None, None])
        o[4] += 1
        if ok is False and o[5] is None:
            o[5] = (s, l, p)
        elif ok is None and o[6] is None:
            o[6] = (s, l, p)
    for i, kind, mk, how, n, bad, unk in seen.values():
        rule = 'local' if how == 'local' else 'room'
        c.cover['writes on paths'] += n
        if bad is None and unk is not None:
            if how == 'realloc':
                c.cover['writes to growing lists and texts (V01, R01, E01)'] += 1
                continue
            c.undecided(rule, fn.where(i), 'whether it lies within the memory')
            continue
        c.ob(rule, fn.where(i), bad is None, key='%s:%s:%s' % (fn.src, kind, i.get('loc', ['?', '?'])[1]),
             msg='%s: the %s (%s) reaches beyond the memory %s' % (fn.src, kind, fn.loc(i), 'of the array' if how == 'local' else 'allocated at ' + fn.loc(mk)),
             path=bad[2].lines() if bad else None)

class Only:
    """passes on those obligations of other rules that are about the room in a buffer"""
    def __init__(self, c, keys, as_):
        self.c, self.keys, self.as_, self.cover = c, keys, as_, c.cover
        self.tier, self.viol, self.und = c.tier, c.viol, c.und
    def __getattr__(self, n):
        return getattr(self.c, n)
    def rule(self, *a):
        pass
    def wanted(self, rule, key):
        k = self.keys.get(rule)
        return k is not None and (not k or str(key).split(':', 1)[-1] in k)
    def ob(self, rule, where, ok, key=None, msg=None, path=None):
        if self.wanted(rule, key):
            return self.c.ob(self.as_, where, ok, key='%s:%s' % (rule, key), msg=msg, path=path)
        return ok
    def violation(self, rule, where, key, msg, path=None):
        if self.wanted(rule, key):
            self.c.violation(self.as_, where, '%s:%s' % (rule, key), msg, path)
    def undecided(self, rule, where, why):
        if rule in self.keys:
            self.c.undecided(self.as_, where, why)
    def attempt(self, rule, where, fn, key=None):
        if rule in self.keys:
            return self.c.attempt(self.as_, where, fn, key)
        try:
            return fn()
        except Undecided:
            return None

GROW = {'grow': ('bytes', 'more', 'elements'), 'put': ('room',), 'text': ('bytes', 'more', 'buffer', 'room'), 'note': ('room', 'grow', 'full'), 'record': ('room', 'grow', 'full'),
        'message': ('room',), 'merge': ('errors:size', 'roots:size', 'directive:cap', 'directive:room', 'directive:full')}

def growing(c):
    import containers, errors, result, detail
    o = Only(c, GROW, 'growing')
    mv, me, mr = lib_module(keep_v()), lib_module(errors.KEEP_E), lib_module(result.KEEP_R)
    containers.both(o, mv, [('grow', 'cp_vector_push', containers.push), ('text', 'cp_sb_append', containers.append)])
    containers.both(o, me, [('note', 'cp_et_note_potential_error', errors.note), ('record', 'cp_et_reify_potentials', errors.reify), ('message', 'error_report', errors.report)])
    containers.both(o, mr, [('merge', 'cp_result_merge_segment', result.merge)])
    detail.A07(Only(c, {'bounded': (), 'regrow': ()}, 'detail'))

PROPS = {'M04': M04}
