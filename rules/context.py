"""The context of an error: P02."""
from ir import *
from astmodel import lib_module
from pathkit import *
from positions import Parser, posf, KEEP_P

BREAK = (10, 13)

def bk(p):
    return p.end[1][0] if isinstance(p.end[1], tuple) else p.end[1]

def single(l):
    """(variable, constant) of a linear form that is one variable plus a constant"""
    ts = [(t, c) for t, c in l.t.items() if c]
    return (ts[0][0], l.c) if len(ts) == 1 and ts[0][1] == 1 else (None, None)

def L0(e):
    """a linear form of an address or number, loads without versions"""
    if e[0] == 'c':
        return Lin(e[1])
    if e[0] == 'addr':
        l = L0(e[1]).add(Lin(e[2]))
        for v, s in e[3]:
            l = l.add(L0(v).mul(s))
        return l
    if e[0] in ('add', 'sub') and len(e) == 3:
        return L0(e[1]).add(L0(e[2]), 1 if e[0] == 'add' else -1)
    if e[0] in ('sext', 'zext', 'trunc'):
        return L0(e[1])
    if e[0] == 'and' and any(x[0] == 'c' and x[1] in (0xffffffff, 0xffffffffffffffff) for x in e[1:]):
        return L0([x for x in e[1:] if x[0] != 'c'][0])
    if e[0] == 'xor' and ('c', -1) in e[1:]:
        return L0([x for x in e[1:] if x != ('c', -1)][0]).mul(-1).add(Lin(-1))
    if e[0] == 'ld':
        return Lin(0, {('ld', e[1]): 1})
    return Lin(0, {e: 1})

def same(a, b):
    d = a.add(b, -1)
    return d.c == 0 and not any(d.t.values())

def facts(p):
    for a, v in p.facts.items():
        if a[0] == 'cmp' and a[2][0] != 'null' and a[3][0] != 'null':
            yield a[1], a[2], a[3], v

def at_edge(p, x, edge):
    """is it known that the address is the edge (True) or not (False)?"""
    for op, a, b, v in facts(p):
        la, lb = L0(a), L0(b)
        if op == 'eq' and (same(la, x) and same(lb, edge) or same(la, edge) and same(lb, x)):
            return v
        if op == 'ult':
            if same(la, edge) and same(lb, x) or same(la, x) and same(lb, edge):
                return not v
    return None

def char_at(p, x):
    """(character known, characters it is known not to be) at an address"""
    eq, ne = None, set()
    for op, a, b, v in facts(p):
        if op == 'eq' and b[0] == 'c':
            y = a
            while y[0] in ('sext', 'zext'):
                y = y[1]
            if y[0] == 'ld' and same(L0(y[1]), x):
                if v:
                    eq = b[1]
                else:
                    ne.add(b[1])
    return eq, ne

def flag(p, h):
    """the truth value of a variable known on the path"""
    ph = ('phi', h)
    for a, v in p.facts.items():
        if a == ph or a == ('bool', ph):
            return v
        if a[0] == 'cmp' and a[1] == 'eq' and a[3] == ('c', 0) and (a[2] == ph or a[2] == ('and', ('c', 1), ph)):
            return not v
    return None

def done(p, flags, x, edge, back):
    """is the end of the line known to be reached at x: True, False or None"""
    ks = [flag(p, h) for h in flags]
    if True in ks:
        return True
    e = at_edge(p, x, edge)
    eq, ne = char_at(p, x.add(Lin(-1)) if back else x)
    if e or eq in BREAK:
        return True
    if e is False and set(BREAK) <= ne:
        return False
    if False in ks:
        return 'flag'
    return None

def excerpt(C, m):
    X = Fun(C, m, 'line_context')
    if len(X.fn.params) != 4:
        raise Undecided('parameters of line_context')
    A = [('arg', i) for i in range(4)]
    buf, end = L0(A[0]), L0(A[0]).add(L0(A[1]))
    off = ('ld', A[2])
    # the copies
    rets = []
    for p in X.paths:
        if p.end[0] != 'ret' or p.end[1][0] in ('null', 'c'):
            continue
        r = p.end[1]
        cp = [e for e in p.events if e[0] == 'copy' and e[1] == r]
        if r[0] != 'call' or len(cp) != 1:
            raise Undecided('how the context is made')
        rets.append((p, r, L0(cp[0][2]), L0(cp[0][3])))
    if not rets:
        raise Undecided('no context')
    S = {single(x)[0] for _, _, x, _ in rets} - {A[0]}
    if len(S) != 1 or None in S or list(S)[0][0] != 'phi':
        raise Undecided('where the context begins')
    S = list(S)[0]
    loops = {e[1]: set(e[2]) for p in X.paths for e in p.events if e[0] == 'loop'}
    main = [o for o in loops if S[1] in loops[o]]
    if len(main) != 1:
        raise Undecided('where the context begins')
    main = main[0]
    ents = {}
    for p in X.paths:
        for e in p.events:
            if e[0] == 'loop' and e[1] == main:
                for h, v in e[2].items():
                    ents.setdefault(h, set()).add(v)
    backs = [p for p in X.paths if p.end[0] == 'back' and bk(p) == main]
    def step(p, h):
        if h not in p.back:
            return Lin(0)
        d = L0(p.back[h]).add(Lin(0, {('phi', h): 1}), -1)
        if any(d.t.values()):
            # where it is known to be what is assigned
            return Lin(0) if at_edge(p, Lin(0, {('phi', h): 1}), L0(p.back[h])) else None
        return d
    # the other end: a variable that starts where S does
    E = [h for h in ents if h != S[1] and ents[h] == ents[S[1]]]
    E = [h for h in E if all(step(p, h) is not None for p in backs)]
    if len(E) != 1:
        raise Undecided('where the context ends')
    E = ('phi', E[0])
    lS, lE = Lin(0, {S: 1}), Lin(0, {E: 1})
    # where it is known to have come to the first character
    rets = [(p, r, lS.add(src).add(buf, -1) if single(src)[0] == A[0] and at_edge(p, lS, buf) else src, ln) for p, r, src, ln in rets]
    # which counts the characters between them
    counts = []
    for h in ents:
        if ents[h] == {('c', 0)} and all(step(p, h) is not None for p in backs) and any(step(p, h).const() for p in backs):
            counts.append(('phi', h))
    for p in backs:
        s, e = step(p, S[1]), step(p, E[1])
        if s is None or e is None:
            raise Undecided('how the ends move')
        s, e = s.const(), e.const()
        X.ob('excerpt', 'move', s in (0, -1) and e in (0, 1), 'a character is left out of the context of an error, or the context begins elsewhere', p)
        for c in counts:
            X.ob('excerpt', 'count', step(p, c[1]).const() == e - s, 'the length of the context of an error is not that of the text between its ends', p)
    def norm(l):
        for c in counts:
            if l.t.get(c):
                l = l.add(Lin(0, {c: 1}), -l.t[c]).add(lE.add(lS, -1), l.t[c]) if l.t[c] == 1 else l
        return l
    # flags: known to be set only where the end of the line was found
    sets = {}
    for h in ents:
        if ents[h] != {('c', 0)} or ('phi', h) in counts:
            continue
        sets[h] = [p for p in backs if p.back.get(h) is not None and p.back[h][0] == 'c' and p.back[h][1] & 1]
    ok = {'s': [h for h, ps in sets.items() if ps], 'e': [h for h, ps in sets.items() if ps]}
    changed = True
    while changed:
        changed = False
        for k in ('s', 'e'):
            for h in list(ok[k]):
                for p in backs:
                    v = p.back.get(h, ('phi', h))
                    if v == ('phi', h) or v == ('c', 0) or flag(p, h):
                        continue
                    if v[0] == 'c' and v[1] & 1 and done(p, [x for x in ok[k] if x != h], lS if k == 's' else lE, buf if k == 's' else end, k == 's') is True:
                        continue
                    ok[k].remove(h)
                    changed = True
                    break
    def moved(p, x, back):
        """may the end x move on over its character?"""
        e = at_edge(p, x, buf if back else end)
        eq, ne = char_at(p, x.add(Lin(-1)) if back else x)
        if e or eq in BREAK:
            return False
        if e is False and set(BREAK) <= ne:
            return True
        return None
    def judge(p, x, back, where):
        k = moved(p, x, back)
        if k is None:
            # a test is missing, or of a kind not known
            e = at_edge(p, x, buf if back else end)
            eq, ne = char_at(p, x.add(Lin(-1)) if back else x)
            others = [a for a in p.facts if any(t == (S if back else E) for t in walk_(a))]
            known = sum(1 for op, a, b, v in facts(p) if any(t == (S if back else E) for t in walk_(('t', a, b))))
            if len(others) != known:
                raise Undecided('how far the context goes')
            if e is None and not ne or e is None or ne and not set(BREAK) <= ne or not ne:
                C_ = [y for y in p.calls() if y[1] in ('memchr', 'strchr', 'strcspn', 'isspace')]
                if C_:
                    raise Undecided('how far the context goes')
                k = False
        X.ob('excerpt', where, k, 'the context of an error goes beyond %s' % ('the start of its line' if back else 'the end of its line'), p)
    for p in backs:
        if step(p, S[1]).const() == -1:
            judge(p, lS, True, 'line:start')
        if step(p, E[1]).const() == 1:
            judge(p, lE, False, 'line:end')
    full_ = 0
    for p, r, src, ln in rets:
        s = src.add(lS, -1)
        if any(s.t.values()) or s.c not in (0, -1):
            X.ob('excerpt', 'copied', bool(any(s.t.values())) or False, 'the context begins elsewhere than its text', p) if not any(s.t.values()) else None
            if any(s.t.values()):
                raise Undecided('where the context begins')
            continue
        d = norm(ln).add(src).add(lE, -1)     # how far the end was moved on the way out
        if any(d.t.values()):
            raise Undecided('the length of the context')
        if d.c not in (0, 1):
            X.ob('excerpt', 'length', False, 'the length of the context of an error is not that of the text between its ends', p)
            continue
        X.ob('excerpt', 'length', True, '', p)
        if s.c == -1:
            judge(p, lS, True, 'line:start')
        if d.c == 1:
            judge(p, lE, False, 'line:end')
        fs, fe = lS.add(s), lE.add(Lin(d.c))
        ds, de = done(p, ok['s'], fs, buf, True), done(p, ok['e'], fe, end, False)
        full = any(op == 'eq' and v and (same(norm(L0(a)), fe.add(fs, -1)) and b == A[3] or same(norm(L0(b)), fe.add(fs, -1)) and a == A[3]) or
                   op == 'ult' and (not v and same(norm(L0(a)), fe.add(fs, -1)) and b == A[3] or v and a == A[3] and False) for op, a, b, v in facts(p))
        full_ += full
        if not full and (ds is None or de is None):
            # both ends found, told by one variable
            both = [h for h in ents if ents[h] == {('c', 0)} and flag(p, h) and h not in ok['s'] + ok['e']]
            if both:
                raise Undecided('when the context is complete')
        X.ob('excerpt', 'whole', full or ds is True and de is True, 'the context of an error ends although there is more of its line and room for it', p)
        # marks
        lr = L0(r)
        marks = set()
        zero = False
        for e in p.events:
            if e[0] == 'zero' and root(e[1]) == r:
                zero = True
            if e[0] == 'call' and e[2] and root(e[2][0]) == r and e[1].startswith('llvm.memset'):
                o = norm(L0(e[2][0]).add(lr, -1))
                k = o.add(norm(ln), -1)
                if e[2][1][0] != 'c' or e[2][2][0] != 'c' or o.const() is None and k.const() is None:
                    raise Undecided('what is written into the context')
                for j in range(e[2][2][1]):
                    marks.add(('s', o.const() + j, e[2][1][1]) if o.const() is not None else ('e', k.const() + j, e[2][1][1]))
                continue
            if e[0] == 'call' and any(x[0] == 'addr' and root(x) == r or x == r for x in e[2]) and not e[1].startswith(('free', 'llvm.')):
                raise Undecided('what is written into the context')
            if e[0] == 'copy' and root(e[1]) == r and e[1] != r:
                raise Undecided('what is written into the context')
            if e[0] != 'store' or root(e[1]) != r:
                continue
            o = norm(L0(e[1]).add(lr, -1))
            k = o.add(norm(ln), -1)
            size = e[3].get('vty') if isinstance(e[3], dict) else 'i8'
            if size not in ('i8', None) or e[2][0] != 'c':
                raise Undecided('what is written into the context')
            if o.const() is not None:
                marks.add(('s', o.const(), e[2][1]))
            elif k.const() is not None:
                marks.add(('e', k.const(), e[2][1]))
            else:
                raise Undecided('where the context is changed')
        X.ob('excerpt', 'terminated', ('e', 0, 0) in marks, 'the context of an error does not end where its text does', p)
        ms, me = {(k, o, c) for k, o, c in marks if k == 's'}, {(k, o, c) for k, o, c in marks if k == 'e' and o}
        WS, WE = {('s', i, 46) for i in range(3)}, {('e', -i, 46) for i in (1, 2, 3)}
        for got, want, dn, what in ((ms, WS, ds, 'start'), (me, WE, de, 'end')):
            if got and got != want:
                X.ob('excerpt', 'marks:' + what, False, 'the context of an error is changed other than by marking that it is cut off', p)
                continue
            if dn is None and not (not got and full is False):
                raise Undecided('where the context is cut off')
            X.ob('excerpt', 'cut:' + what, bool(got) == (dn is not True), 'the context of an error is %s at its %s' % ('marked as cut off although it is not' if got else 'cut off without a mark', what), p)
        st = [e for e in p.events if e[0] == 'store' and e[1] == A[2]]
        if not st:
            X.ob('excerpt', 'offset', False, 'the place in the context is not told', p)
        else:
            v = L0(st[-1][2]).add(Lin(0, {off: 1}), -1).add(src).add(buf, -1)
            if any(v.t.values()) and at_edge(p, lS, buf):
                v = v.add(lS, -1).add(buf)
            if any(v.t.values()):
                raise Undecided('the place in the context')
            X.ob('excerpt', 'offset', v.c == 0, 'the place in the context is not that of the error', p)
    if not full_:
        raise Undecided('how long a context may be')
    # where both ends start
    X.C.attempt('excerpt', X.fn.where(), lambda: origin(X, main, S, A, buf, end, off))

def origin(X, main, S, A, buf, end, off):
    """the search for the ends of the line starts at the error, or before the ends of lines there"""
    at = buf.add(Lin(0, {off: 1}))
    last = end.add(Lin(-1))
    def stepped(p, x):
        eq, ne = char_at(p, x)
        if eq is None and not ne:
            raise Undecided('where the error is')
        X.ob('excerpt', 'origin', eq in (10, 13, 0), 'the context is not that of the line of the error', p)
    def start(p, l, inner=True):
        for base in (at, last):
            d = l.add(base, -1)
            if not any(d.t.values()):
                if d.c == -1:
                    stepped(p, base)
                else:
                    X.ob('excerpt', 'origin', d.c == 0, 'the context is not that of the line of the error', p)
                return
        v, k = single(l)
        if v is not None and v[0] == 'phi' and inner:
            for e in p.events:
                if e[0] == 'loop' and v[1] in e[2]:
                    if k == -1:
                        stepped(p, Lin(0, {v: 1}))
                    else:
                        X.ob('excerpt', 'origin', k == 0, 'the context is not that of the line of the error', p)
                    start(p, L0(e[2][v[1]]), False)
                    for q in X.paths:
                        if q.end[0] == 'back' and bk(q) == e[1]:
                            d = L0(q.back[v[1]]).add(Lin(0, {v: 1}), -1)
                            if any(d.t.values()):
                                raise Undecided('where the error is')
                            X.ob('excerpt', 'origin', d.c == -1, 'the context is not that of the line of the error', q)
                            stepped(q, Lin(0, {v: 1}))
                    return
        if same(l, end):
            X.ob('excerpt', 'origin', False, 'the context is looked for beyond the input', p)
            return
        if same(l, buf):
            # where the search has come to the beginning, or the error is there
            xs = [at, last] + [Lin(k, {('phi', h): 1}) for e in p.events if e[0] == 'loop' for h in e[2] for k in (0, -1)]
            if any(at_edge(p, buf, x) for x in xs):
                return
            X.ob('excerpt', 'origin', False, 'the context is not that of the line of the error', p)
            return
        raise Undecided('where the error is')
    for p in X.paths:
        for e in p.events:
            if e[0] == 'loop' and e[1] == main and S[1] in e[2]:
                start(p, L0(e[2][S[1]]))

def walk_(e):
    if isinstance(e, tuple):
        yield e
        for x in e:
            yield from walk_(x)

def every(C, m):
    """each error recorded gets its context, once"""
    P = Parser(m)
    X = Fun(C, m, 'finished')
    et = P.off('error_tracking')
    st = ['cp_error_tracking']
    if 'cp_error_tracking' not in m.structs or not m.field(st[0], 'errors') or not m.field(st[0], 'nerrors'):
        raise Undecided('where errors are')
    es, ns = mkaddr(('arg', 0), et + m.field(st[0], 'errors')['o'], ()), mkaddr(('arg', 0), et + m.field(st[0], 'nerrors')['o'], ())
    size = m.structs['cypher_parse_error']['size'] if 'size' in m.structs['cypher_parse_error'] else None
    cx = m.field('cypher_parse_error', 'context')['o']
    N, ES = Lin(0, {('ld', ns): 1}), Lin(0, {('ld', es): 1})
    heads = {}
    for p in X.paths:
        for e in p.events:
            if e[0] == 'loop':
                heads.setdefault(e[1], dict(e[2]))
    for p in X.paths:
        for e in p.calls('line_context'):
            a = e[2]
            if len(a) != 4:
                raise Undecided('arguments of line_context')
            ok = same(L0(a[0]), Lin(0, {('ld', P.at('__buf')): 1})) and same(L0(a[1]), Lin(0, {('ld', P.at('__limit')): 1}))
            X.ob('every', 'input', ok, 'the context is not taken from all of the input read', p)
            if a[3][0] == 'c':
                X.ob('every', 'room', a[3][1] >= 7, 'there is no room for a context', p)
    if not heads:
        ps = [p for p in X.paths if p.end[0] == 'ret' and p.calls('line_context')]
        for p in ps:
            X.ob('every', 'stop', False, 'only one error gets a context', p)
        if ps:
            return
    if len(heads) != 1:
        raise Undecided('how the errors are gone through')
    o, phis = list(heads.items())[0]
    backs = [p for p in X.paths if p.end[0] == 'back']
    vs = [h for h in phis if all(h in p.back for p in backs) and same(L0(phis[h]), N) and all(same(L0(p.back[h]), Lin(-1, {('phi', h): 1})) for p in backs)]
    up = [h for h in phis if phis[h] == ('c', 0) and all(h in p.back and same(L0(p.back[h]), Lin(1, {('phi', h): 1})) for p in backs)]
    if len(vs) + len(up) != 1:
        for h in phis:
            l = L0(phis[h])
            d = l.add(N, -1)
            if not any(d.t.values()) and d.c and all(h in p.back and same(L0(p.back[h]), Lin(-1, {('phi', h): 1})) for p in backs):
                X.ob('every', 'all', False, 'an error gets no context')
                return
        raise Undecided('how the errors are gone through')
    ph = ('phi', (vs or up)[0])
    i = Lin(-1, {ph: 1}) if vs else Lin(0, {ph: 1})
    # variables that hold the number of errors
    same_n = {h for h in phis if h != ph[1] and same(L0(phis[h]), N) and all(h not in p.back or same(L0(p.back[h]), N) or p.back[h] == ('phi', h) for p in backs)}
    def L(e):
        l = L0(e)
        for h in same_n:
            c = l.t.get(('phi', h))
            if c:
                l = l.add(Lin(0, {('phi', h): 1}), -c).add(N, c)
        return l
    n = 0
    for p in X.paths:
        # the error looked at
        known = None
        for a, v in p.facts.items():
            if a[0] == 'cmp' and a[1] == 'eq' and a[3] == ('null',) and a[2][0] == 'ld':
                y = a[2][1]
                if y[0] == 'addr' and y[2] == cx and len(y[3]) == 1 and same(L0(y[3][0][0]), i):
                    known = v
        rounds = any(e[0] == 'loop' for e in p.events)
        if p.end[0] == 'back':
            n += 1
            if p.calls('line_context'):
                continue
            if known is None:
                X.ob('every', 'all', False, 'an error gets no context', p)
            else:
                X.ob('every', 'all', known is False, 'an error gets no context', p)
            continue
        if p.end[0] != 'ret':
            continue
        last, seen = None, False
        for op, a, b, v in facts(p):
            la, lb = L(a), L(b)
            if any(l.t.get(ph) for l in (la, lb)):
                seen = True
            for x, y in ((la, lb), (lb, la)):
                if op != 'eq' or v is not True:
                    continue
                d = x.add(Lin(0, {ph: 1}), -1)
                if not any(d.t.values()) and y.const() is not None and vs:
                    # the variable where the loop ends
                    k = y.c - d.c
                    last = k if not p.calls('line_context') and known is None else k - 1
                if up and same(y, N) and not any(d.t.values()):
                    last = 'n' if d.c == 0 or d.c == 1 and (p.calls('line_context') or known is False) else 'less'
                if not rounds and same(x, N) and y.const() == 0:
                    last = 0
            if op == 'ult' and not v and up and same(lb, N):
                d = la.add(Lin(0, {ph: 1}), -1)
                if not any(d.t.values()):
                    last = 'n' if d.c == 0 or d.c == 1 and (p.calls('line_context') or known is False) else 'less'
            if op == 'ult' and not v and vs and same(la, Lin(0)) and not any(lb.add(Lin(0, {ph: 1}), -1).t.values()):
                last = 0
        if not rounds:
            X.ob('every', 'all', last == 0, 'errors get no context', p)
            continue
        if vs and known is False and not p.calls('line_context'):
            X.ob('every', 'stop', True, '', p)       # those before have theirs
            continue
        if last is None and seen:
            raise Undecided('when all errors have a context')
        if up and known is False and last is None:
            X.ob('every', 'stop', False, 'errors after one that has a context get none', p)
            continue
        if last is None:
            if p.calls('line_context'):
                X.ob('every', 'stop', False, 'only one error gets a context', p)
                continue
            raise Undecided('when all errors have a context')
        X.ob('every', 'all', last in (0, 'n'), 'an error gets no context', p)
    if not n:
        raise Undecided('how the errors are gone through')

def P02(C):
    C.rule('excerpt', 'the context is the text around the error up to the ends of its line, as far as there is room, marked where it is cut off, and the place in it is that of the error', 20)
    C.rule('every', 'every error recorded gets its context, taken from the input read, when the segment is complete', 4)
    m = lib_module(KEEP_P)
    C.attempt('excerpt', 'line_context', lambda: excerpt(C, m))
    C.attempt('every', 'finished', lambda: every(C, m))

PROPS = {'P02': P02}
