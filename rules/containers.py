"""Lists and texts while parsing: V01, and the text handed to terminals (L01)."""
import re
import front
from ir import *
from astmodel import lib_module, KEEP
from pathkit import *
from effects import effects, Mods
from segments import src, sign
from positions import bare

VEC = ['cp_vector_push', 'cp_vector_pop', 'cp_vector_npop', 'cp_vector_get', 'cp_vector_last', 'cp_vector_init', 'cp_vector_cleanup', 'cp_vector_clear',
       'cp_vector_size', 'cp_vector_elements', 'cp_vector', 'cp_vector_free']
SB = ['cp_sb_append', 'cp_sb_cleanup']

class Members:
    def __init__(self, m, struct, base=('arg', 0)):
        self.m, self.s, self.b = m, struct, base
    def at(self, f):
        x = self.m.field(self.s, f)
        if x is None:
            raise Undecided('%s has no member %s' % (self.s, f))
        return mkaddr(self.b, x['o'], ())
    def ld(self, f):
        return ('ld', self.at(f))

def low(K, e):
    """a linear form that is at most e (unsigned, without overflow)"""
    e = K.n(e)
    if e[0] == 'and':
        for x, y in (e[1:], e[1:][::-1]):
            if x[0] == 'c' and x[1] < 0 and (-x[1]) & (-x[1] - 1) == 0:
                return low(K, y).add(Lin(x[1] + 1))
        return Lin(0)
    if e[0] in ('zext', 'sext'):
        return low(K, e[1])
    if e[0] == 'or':
        return max((low(K, x) for x in e[1:]), key=lambda l: (len(l.t), l.c))
    if e[0] == 'umax':
        return low(K, e[1])
    if e[0] == 'mul' and len(e) == 3:
        for x, y in (e[1:], e[1:][::-1]):
            if y[0] == 'c' and y[1] > 0:
                return low(K, x).mul(y[1])
    if e[0] == 'udiv' and e[2][0] == 'c' and e[2][1] > 0:
        return Lin(0)
    if e[0] == 'shl' and e[2][0] == 'c':
        return low(K, e[1]).mul(1 << e[2][1])
    if e[0] == 'lin':
        out = Lin(e[1])
        for t, c in e[2]:
            out = out.add(low(K, t).mul(c) if c > 0 else K.lin(t).mul(c))
        return out
    return K.lin(e)

def brl(l):
    out = Lin(l.c)
    for a, c in l.t.items():
        if c:
            out = out.add(Lin(0, {bare(a): c}))
    return out

def mentions(e, x):
    return e == x or isinstance(e, tuple) and any(mentions(y, x) for y in e)

def product(K, e, size):
    """e = size * x: x as a linear form, or None"""
    l = brl(K.lin(e)) if isinstance(e, tuple) else brl(e)
    if l.c:
        return None
    out = Lin(0)
    for a, c in l.t.items():
        if not c:
            continue
        if a == size:
            out = out.add(Lin(c))
        elif a[0] == 'mul' and size in a[1:] and len(a) == 3:
            o = a[2] if a[1] == size else a[1]
            out = out.add(brl(K.lin(o)).mul(c))
        else:
            return None
    return out

def offset(K, addr, base, size):
    """index of the element at the address, or None"""
    addr = bare(addr) if addr[0] != 'call' else addr
    if addr == base:
        return Lin(0)
    if addr[0] != 'addr' or addr[1] != base or addr[2]:
        return None
    t = Lin(0)
    for v, s in addr[3]:
        x = product(K, v, size)
        if x is None:
            return None
        t = t.add(x.mul(s))
    return t

def atleast(K, l, room):
    """l >= room + 1 given capacity <= length <= capacity on a path that grows"""
    d = l.add(room, -1)
    return all(c >= 0 for c in d.t.values()) and d.c >= 1

def ultk(K, a, b):
    """what is known of a < b (linear forms)"""
    def nn(l):
        out = Lin(l.c)
        for t, c in l.t.items():
            out = out.add(brl(K.lin(t)).mul(c))
        return out
    a, b = nn(a), nn(b)
    if b == Lin(0):
        return False
    for f, v in K.p.facts.items():
        if f[0] != 'cmp' or f[1] not in ('ult', 'slt', 'eq'):
            continue
        d, e = brl(K.lin(f[2])).add(brl(K.lin(f[3])), -1), a.add(b, -1)
        if f[1] == 'eq':
            k = e.add(d, -1).const() if v else None
            k = k if k is not None or not v else e.add(d).const()
            if k is not None:
                return k < 0
            continue
        k = e.add(d, -1).const()
        if k is not None and (v and k <= 0 or not v and k >= 0):
            return v
        k = e.add(d).const()
        if k is not None and (v and k >= -1 or not v and k <= -1):
            return not v
    return None

def push(C, m):
    X = Fun(C, m, 'cp_vector_push')
    V = Members(m, 'cp_vector')
    es, el, cap, ln = (V.ld(f) for f in ('element_size', 'elements', 'capacity', 'length'))
    L, Cp = Lin(0, {ln: 1}), Lin(0, {cap: 1})
    if any(p.end[0] == 'back' for p in X.paths):
        raise Undecided('loop in cp_vector_push')
    for p in X.paths:
        K = Knows(p)
        if p.end[0] != 'ret':
            X.ob('grow', 'end', False, 'does not return', p)
            continue
        allocs = [e for e in p.events if e[0] == 'call' and e[1] in ('realloc', 'reallocarray', 'malloc', 'calloc')]
        if any(e[1] != 'realloc' for e in allocs) or len(allocs) > 1 or any(e[0] == 'call' and e not in allocs for e in p.events):
            raise Undecided('how cp_vector_push allocates')
        s = 'fail' if p.end[1] != ('c', 0) else 'ok'
        w = [e for j, e in written(p) if e[1] != ('errno',)]
        if allocs and p.null(allocs[0][3]) is None:
            X.ob('grow', 'checked', False, 'does not look at whether there was memory', p)
            continue
        if allocs and p.null(allocs[0][3]):
            X.ob('grow', 'oom', s == 'fail', 'running out of memory is not reported', p)
            X.ob('grow', 'kept', not w, 'the list is changed although there was no memory', p)
            continue
        X.ob('put', 'ok', s == 'ok', 'adding an element fails although there was memory', p)
        base = el
        if allocs:
            a = allocs[0]
            X.ob('grow', 'old', bare(a[2][0]) == el, 'the memory that is enlarged is not that of the elements', p)
            newcap = p.load(V.at('capacity'), 'i32')
            x = product(K, bare(a[2][1]), es)
            if x is None:
                if not mentions(bare(a[2][1]), es):
                    X.ob('grow', 'bytes', False, 'the memory asked for does not depend on the size of the elements', p)
                    continue
                raise Undecided('how much memory cp_vector_push asks for')
            X.ob('grow', 'bytes', x == brl(K.lin(newcap)), 'the capacity noted is not that of the memory asked for', p)
            # on this path length == capacity (length <= capacity always holds, and the path knows it is not smaller)
            full = ultk(K, L, Cp)
            if full is None:
                raise Undecided('when cp_vector_push grows')
            z = K.truth(('cmp', 'eq', cap, ('c', 0)))
            lo = brl(low(K, newcap))
            ok = atleast(K, lo, Cp) or z and lo.c >= 1 and not lo.t or z is False and lo.t.get(cap, 0) >= 2 and lo.c >= 0 or \
                atleast(K, lo, L) or z is False and lo.t.get(ln, 0) >= 2 and lo.c >= 0
            X.ob('grow', 'more', ok and not (full is True and False), 'the list does not grow by at least one element when it is full', p)
            base = a[3]
            X.ob('grow', 'elements', p.load(V.at('elements')) == a[3], 'the memory asked for is not kept', p)
        else:
            full = ultk(K, L, Cp)
            X.ob('put', 'room', full is True, 'an element is added without room for it', p)
        cp = [e for e in p.events if e[0] == 'copy']
        if len(cp) != 1:
            raise Undecided('how cp_vector_push copies')
        _, d, sc, n = cp[0][:4]
        ix = offset(K, d if base[0] == 'call' else bare(d), base, es)
        X.ob('put', 'where', ix == L, 'the element is not put after those in the list', p)
        X.ob('put', 'what', sc == ('arg', 1) and bare(n) == es, 'not the whole element is put into the list', p)
        X.ob('put', 'length', brl(K.lin(p.load(V.at('length'), 'i32'))) == L.add(Lin(1)), 'the list is not longer by one afterwards', p)
        X.ob('put', 'size', bare(p.load(V.at('element_size'), 'i64')) == es, 'the size of the elements changes', p)

def takes(C, m):
    """pop, npop, get, last, clear, size, elements, init, cleanup"""
    V = Members(m, 'cp_vector')
    es, el, cap, ln = (V.ld(f) for f in ('element_size', 'elements', 'capacity', 'length'))
    L = Lin(0, {ln: 1})
    def fun(n):
        if not m.by_src.get(n):
            return None
        return Fun(C, m, n)
    def none(K, p):
        return K.truth(('cmp', 'eq', ln, ('c', 0)))
    for n, d in (('cp_vector_pop', -1), ('cp_vector_last', -1), ('cp_vector_get', 0)):
        X = fun(n)
        if X is None:
            continue
        for p in X.paths:
            K = Knows(p)
            if p.end[0] != 'ret':
                raise Undecided('loop in ' + n)
            i = L.add(Lin(-1)) if d else Lin(0, {('arg', 1): 1})
            missing = none(K, p) if d else ultk(K, i, L)
            missing = missing if d else None if missing is None else not missing
            r = p.end[1]
            if r == ('null',):
                X.ob('take', 'null', missing is True, 'yields nothing although there is such an element', p)
                X.ob('take', 'kept', not written(p), 'changes the list although there is no such element', p)
                continue
            X.ob('take', 'bound', missing is False, 'yields an element that is not there', p)
            ix = offset(K, bare(r), el, es)
            via = [e for e in p.events if e[0] == 'call' and e[1] == 'cp_vector_get' and n != 'cp_vector_get' and bare(e[3]) == bare(r)]
            if ix is None and len(via) == 1 and via[0][2][0] == ('arg', 0):
                ix = brl(K.lin(via[0][2][1]))
            if ix is None:
                raise Undecided('which element %s yields' % n)
            X.ob('take', 'which', ix == i, 'yields another element', p)
            if n == 'cp_vector_pop':
                X.ob('take', 'shorter', brl(K.lin(p.load(V.at('length'), 'i32'))) == L.add(Lin(-1)), 'the list is not shorter by one afterwards', p)
            else:
                X.ob('take', 'kept', not written(p), 'changes the list', p)
    X = fun('cp_vector_npop')
    if X is not None:
        for p in X.paths:
            K = Knows(p)
            v = K.n(p.load(V.at('length'), 'i32'))
            v0 = bare(v)
            want = (v0 == ('usub.sat', ln, ('arg', 1)) or
                    v0 == ('c', 0) and ultk(K, Lin(0, {('arg', 1): 1}), L) is not True and (ultk(K, Lin(0, {('arg', 1): 1}), L) is False or ultk(K, L, Lin(0, {('arg', 1): 1})) is True) or
                    brl(K.lin(v)) == L.add(Lin(0, {('arg', 1): 1}), -1) and (ultk(K, Lin(0, {('arg', 1): 1}), L) is True or ultk(K, L, Lin(0, {('arg', 1): 1})) is False))
            if not want:
                d = brl(K.lin(v)).add(L, -1)
                t = [x for x in d.t if d.t[x]]
                if len(t) == 1 and t[0][0] in ('umin',) and d.t[t[0]] == -1 and d.c == 0:
                    want = {bare(x) for x in t[0][1:]} == {ln, ('arg', 1)}
                elif t and any(x[0] not in ('arg', 'ld') for x in t):
                    raise Undecided('how many elements cp_vector_npop takes off')
            X.ob('take', 'n', want, 'does not take off the number of elements wanted, or all', p)
    X = fun('cp_vector_clear')
    if X is not None:
        for p in X.paths:
            X.ob('take', 'clear', Knows(p).n(p.load(V.at('length'), 'i32')) == ('c', 0), 'the list is not empty afterwards', p)
    X = fun('cp_vector_init')
    if X is not None:
        for p in X.paths:
            for f, t in (('elements', 'ptr'), ('capacity', 'i32'), ('length', 'i32')):
                X.ob('take', f, p.load(V.at(f), t) in (('c', 0), ('null',)), 'the list does not start empty', p)
            X.ob('take', 'es', p.load(V.at('element_size'), 'i64') == ('arg', 1), 'the size of the elements is not kept', p)
    X = fun('cp_vector_cleanup')
    if X is not None:
        for p in X.paths:
            fr = [e for e in p.events if e[0] == 'call' and e[1] == 'free']
            X.ob('take', 'free', len(fr) == 1 and bare(fr[0][2][0]) == el, 'the memory of the elements is not released once', p)
            # a list that was cleaned up stays usable or is never used again: length and capacity
            X.ob('take', 'empty', p.load(V.at('length'), 'i32') == ('c', 0) and p.load(V.at('capacity'), 'i32') == ('c', 0), 'the list is not empty afterwards', p)

def append(C, m):
    X = Fun(C, m, 'cp_sb_append')
    V = Members(m, 'cp_string_buffer')
    bf, cap, ln = (V.ld(f) for f in ('buffer', 'capacity', 'length'))
    N = ('arg', 2)
    need = Lin(0, {ln: 1, N: 1})
    Cp = Lin(0, {cap: 1})
    if any(p.end[0] == 'back' for p in X.paths):
        raise Undecided('loop in cp_sb_append')
    for p in X.paths:
        K = Knows(p)
        if p.end[0] != 'ret':
            X.ob('text', 'end', False, 'does not return', p)
            continue
        allocs = [e for e in p.events if e[0] == 'call']
        if any(e[1] != 'realloc' for e in allocs) or len(allocs) > 1:
            raise Undecided('how cp_sb_append allocates')
        ok = p.end[1] == ('c', 0)
        w = [e for j, e in written(p) if e[1] != ('errno',)]
        if allocs and p.null(allocs[0][3]) is None:
            X.ob('text', 'checked', False, 'does not look at whether there was memory', p)
            continue
        if allocs and p.null(allocs[0][3]):
            X.ob('text', 'oom', not ok, 'running out of memory is not reported', p)
            X.ob('text', 'kept', not w, 'the text is changed although there was no memory', p)
            continue
        if not allocs and not ok:
            X.ob('text', 'ok', False, 'fails although there is memory', p)
            continue
        if ok and not w and (K.truth(('cmp', 'eq', N, ('c', 0))) is True):
            continue
        X.ob('text', 'ok', ok, 'fails although there was memory', p)
        base, late = bf, False
        if allocs:
            a = allocs[0]
            X.ob('text', 'old', bare(a[2][0]) == bf, 'the memory that is enlarged is not that of the text', p)
            nc = p.load(V.at('capacity'), 'i64')
            X.ob('text', 'bytes', brl(K.lin(nc)) == brl(K.lin(a[2][1])), 'the capacity noted is not that of the memory asked for', p)
            lo = brl(low(K, a[2][1]))
            d = lo.add(need, -1)
            if any(x[0] not in ('ld', 'arg') for x in lo.t if lo.t[x]):
                late = True
            late or X.ob('text', 'more', d.c >= 0 and all(c >= 0 for c in d.t.values()), 'the memory asked for may be too small for the text', p)
            base = a[3]
            X.ob('text', 'buffer', p.load(V.at('buffer')) == a[3], 'the memory asked for is not kept', p)
        else:
            fits = ultk(K, need, Cp) is True or ultk(K, Cp, need) is False or ultk(K, Lin(0, {N: 1}), Cp.add(Lin(0, {ln: 1}), -1)) is True
            X.ob('text', 'room', fits, 'text is appended without room for it', p)
        cp = [e for e in p.events if e[0] == 'copy']
        if len(cp) != 1:
            raise Undecided('how cp_sb_append copies')
        _, d, s, n = cp[0][:4]
        d0 = d if base[0] == 'call' else bare(d)
        end = d0 == base if False else d0[0] == 'addr' and d0[1] == base and d0[2] == 0 and [(bare(v), k) for v, k in d0[3]] == [(ln, 1)]
        X.ob('text', 'where', end, 'the text is not put after what there is', p)
        X.ob('text', 'what', s == ('arg', 1) and n == N, 'not exactly the text given is appended', p)
        X.ob('text', 'length', brl(K.lin(p.load(V.at('length'), 'i64'))) == need, 'the length does not grow by that of the text', p)
        if late:
            raise Undecided('how much memory cp_sb_append asks for')

def space(f, v, at):
    """does the fact say whether the character at the address is a space: True, False or None"""
    if f[0] == 'cmp' and f[1] == 'eq' and f[3] == ('c', 0):
        e, v = f[2], not v
    elif f[0] == 'bool':
        e = f[1]
    else:
        return None
    if e[0] == 'call' and e[1] == 'isspace' and any(char_at(x, at) for x in e[2:] if isinstance(x, tuple)):
        return v
    if e[0] == 'and' and ('c', 8192) in e[1:]:
        o = e[1] if e[2] == ('c', 8192) else e[2]
        if o[0] == 'ld' and o[1][0] == 'addr' and len(o[1][3]) == 1 and o[1][3][0][1] == 2 and char_at(o[1][3][0][0], at):
            return v
    return None

def char_at(e, at):
    while e[0] in ('sext', 'zext', 'trunc'):
        e = e[1]
    return e[0] == 'ld' and asum(e[1]) == at

def asum(e):
    """an address as a linear form"""
    K = Knows(_No)
    def tl(e):
        if e[0] == 'addr':
            l = tl(e[1]).add(Lin(e[2]))
            for v, s in e[3]:
                l = l.add(brl(K.lin(v)).mul(s))
            return l
        return brl(K.lin(e))
    return tl(e)

class _No:
    facts = {}

def texts(C, m):
    """the text of a terminal is the text collected, or that between < and >"""
    from positions import Parser
    P = Parser(m)
    sb = P.off('string_buffer')
    so = {f: m.field('cp_string_buffer', f)['o'] for f in ('buffer', 'length')}
    bo = {f: m.field('block', f)['o'] for f in ('buffer_start', 'buffer_end')}
    yy = ('arg', 0)
    pb = ('ld', P.at('prev_block'))
    sbt = (('ld', mkaddr(yy, sb + so['buffer'], ())), ('ld', mkaddr(yy, sb + so['length'], ())))
    buf = ('ld', P.at('__buf'))
    start, end = (('ld', mkaddr(pb, bo[f], ())) for f in ('buffer_start', 'buffer_end'))
    bs = Lin(0, {buf: 1, start: 1})
    bn = Lin(0, {end: 1, start: -1})
    def isb(s, n):
        return asum(bare(s)) == bs and brl(Knows(_No).lin(n)) == bn
    def judge(X, rule, s, n, p, want):
        """want: 'strbuf' | 'block' | None"""
        if (bare(s), bare(n)) == sbt:
            X.ob(rule, 'text', want != 'block', 'takes the text collected before instead of that between < and >', p)
        elif isb(s, n):
            X.ob(rule, 'text', want != 'strbuf', 'takes the source text instead of the text collected', p)
        else:
            return False
        return True
    # appending
    for n in m.by_src.get('_strbuf_append', []):
        X = Fun(C, m, n)
        for p in X.paths:
            ap = [e for e in p.events if e[0] == 'call' and e[1] == 'cp_sb_append']
            X.ob('collect', 'append', len(ap) == 1 and ap[0][2] == (mkaddr(yy, sb, ()), ('arg', 1), ('arg', 2)), 'the text is not appended once to the text collected', p)
            if len(ap) == 1:
                z = Knows(p).truth(('cmp', 'eq', ap[0][3], ('c', 0)))
                X.ob('collect', 'failed', z is not None and (p.end[0] == 'stop') == (not z), 'goes on although appending failed', p)
    for n in m.by_src.get('_strbuf_append_block', []):
        X = Fun(C, m, n)
        for p in X.paths:
            ap = [e for e in p.events if e[0] == 'call' and isinstance(e[1], str) and src(m, e[1]) in ('_strbuf_append', 'cp_sb_append')]
            if len(ap) != 1 and p.end[0] == 'back':
                raise Undecided('loop in ' + n)
            ok = len(ap) == 1 and isb(ap[0][2][1], ap[0][2][2])
            X.ob('collect', 'block', ok, 'the text between < and > is not appended whole', p)
    # handing over
    done = 0
    for n in sorted(m.raw):
        if 'parser.c' not in m.raw[n].get('file', '') or 'quick' in m.raw[n].get('file', ''):
            continue
        fn = m.fn(n)
        if fn is None or not any(i['op'] == 'call' and (i.get('callee') or '').startswith('cypher_ast_') for b in fn.blocks for i in b):
            continue
        def ptypes(c):
            f = m.raw.get(c)
            return [x['ty'] for x in f['params']] if f else []
        ctors = {i['callee'] for b in fn.blocks for i in b if i['op'] == 'call' and (i.get('callee') or '').startswith('cypher_ast_')}
        text = set()
        for c in ctors:
            f = m.raw.get(c)
            if f and len(f['params']) == 3 and f['ditypes'][1].replace('const ', '') == 'char*' and f['params'][1]['ty'] == 'i64':
                text.add(c)
        if not text:
            continue
        s = src(m, n)
        want = 'strbuf' if 'strbuf' in s else 'block' if s.startswith('_') else None
        try:
            X = Fun(C, m, n)
            seen = False
            backs = []
            for p in X.paths:
                ct = [e for e in p.events if e[0] == 'call' and e[1] in text]
                if p.end[0] == 'back':
                    backs.append(p)
                    continue
                if not ct:
                    continue
                seen = True
                if len(ct) > 1:
                    X.ob('handed', 'once', False, 'creates more than one terminal', p)
                    continue
                a, l = ct[0][2][0], ct[0][2][1]
                if judge(X, 'handed', a, l, p, want):
                    continue
                trimmed(X, p, a, l, bs, bn)
            for p in backs:
                trimming(X, p, bs.add(bn))
            done += seen
        except Undecided as e:
            C.undecided('handed', n, e)
    C.cover['terminals'] += done

def trimmed(X, p, s, n, bs, bn):
    """source text without spaces at its ends"""
    K = Knows(p)
    inits = {}
    for e in p.events:
        if e[0] == 'loop':
            inits.update(e[2])
    a, l = asum(bare(s)), brl(K.lin(n))
    phis = [x for x in list(a.t) + list(l.t) if x[0] == 'phi']
    if not phis and l == Lin(0):
        return
    if not phis:
        d, e = a.add(bs, -1).const(), a.add(l).add(bs.add(bn), -1).const()
        if d is not None and e is not None:
            X.ob('handed', 'text', False, 'the text of the terminal leaves out characters of the text', p)
            return
        raise Undecided('the text handed to a terminal')
    if l == Lin(0):
        return
    first = last = None
    for f, v in p.facts.items():
        x = space(bare(f), v, a)
        first = x if x is not None else first
        x = space(bare(f), v, a.add(l).add(Lin(-1)))
        last = x if x is not None else last
    X.ob('handed', 'ends', first is False and last is False, 'spaces at the ends of the text are not left out', p)

def trimming(X, p, end):
    """one round of a loop that leaves out spaces: s + n stays, or n shrinks at its end"""
    K = Knows(p)
    inits, ids = {}, []
    for e in p.events:
        if e[0] == 'loop':
            inits.update(e[2])
    d = {}
    for ph, v in p.back.items():
        at = asum(bare(v)) if v[0] == 'addr' else brl(K.lin(v))
        x = at.add(Lin(0, {('phi', ph): 1}), -1).const()
        if x is None:
            raise Undecided('a loop over the text of a terminal')
        if x:
            d[ph] = x
    fs = [(bare(f), v) for f, v in p.facts.items()]
    vals = sorted(d.values())
    if vals == [-1, 1]:
        sp = next(('phi', k) for k in d if d[k] == 1)
        ok = any(space(f, v, Lin(0, {sp: 1})) for f, v in fs)
        X.ob('handed', 'front', ok, 'leaves out a character that is not a space at the start', p)
    elif vals == [-1]:
        n = next(('phi', k) for k in d)
        ok = False
        for f, v in fs:
            for at in cands(f):
                if at.t.get(n) == 1 and at.c == -1 and space(f, v, at):
                    ok = True
        X.ob('handed', 'back', ok, 'leaves out a character that is not a space at the end', p)
    elif vals:
        X.ob('handed', 'loop', False, 'leaves out characters of the text', p)

def cands(f):
    out = []
    def w(e):
        if isinstance(e, tuple):
            if e and e[0] == 'ld':
                out.append(asum(e[1]))
            for x in e:
                w(x)
    w(f)
    return out

def both(C, m, rules):
    for rule, n, f in rules:
        try:
            f(C, m)
        except Undecided as e:
            C.undecided(rule, n, e)

def makers():
    """names of the functions of the parser that create a node"""
    t = open(front.REPO + '/lib/src/parser.c', encoding='latin1').read()
    return sorted(set(re.findall(r'^cypher_astnode_t\s*\*\s*(_\w+)\s*\(\s*yycontext', t, re.M)))

def keep_v():
    return KEEP_V + tuple(makers())

KEEP_V = tuple(KEEP + VEC + SB + ['_strbuf_append', '_strbuf_append_block', 'add_terminal', 'add_child'])

def v01(C):
    C.rule('grow', 'a full list grows by at least one element, in memory as large as the capacity noted', 5)
    C.rule('put', 'an element is put whole after those in the list, within its memory', 5)
    C.rule('take', 'elements are found and taken off where they are', 5)
    C.rule('text', 'text is appended whole, within the memory of the text', 5)
    C.rule('collect', 'the texts of a terminal are appended in order, whole', 3)
    m = lib_module(keep_v())
    both(C, m, [('grow', 'cp_vector_push', push), ('take', 'cp_vector', takes), ('text', 'cp_sb_append', append)])
    C.rule('handed', 'the text of a terminal is the whole text collected or the source text of its block', 10)
    both(C, m, [('handed', 'terminals', texts)])

def l01(C):
    m = lib_module(keep_v())
    C.rule('collect', 'the texts of a terminal are appended in order, whole', 3)
    C.rule('handed', 'the text of a terminal is the whole text collected or the source text of its block', 10)
    C.rule('text', 'text is appended whole, within the memory of the text', 5)
    both(C, m, [('handed', 'terminals', texts), ('text', 'cp_sb_append', append)])

PROPS = {'V01': v01, 'L01': l01}
