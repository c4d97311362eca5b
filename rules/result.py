"""Parse segments and results: R01."""
from ir import *
from astmodel import lib_module, KEEP
from pathkit import *

KEEP_R = tuple(KEEP + ['cp_errors_vcleanup', 'cypher_parse_segment', 'cp_result_merge_segment'])
SEG, RES, ERR = 'cypher_parse_segment', 'cypher_parse_result', 'cypher_parse_error'

# getter: (function, struct, member, bound or None, 'elem' (pointer to it) | 'val')
GETTERS = [
    ('cypher_parse_segment_get_range', SEG, 'range', None, 'val'),
    ('cypher_parse_segment_nerrors', SEG, 'nerrors', None, 'val'),
    ('cypher_parse_segment_get_error', SEG, 'errors', 'nerrors', 'elem'),
    ('cypher_parse_segment_nroots', SEG, 'nroots', None, 'val'),
    ('cypher_parse_segment_get_root', SEG, 'roots', 'nroots', 'val'),
    ('cypher_parse_segment_nnodes', SEG, 'nnodes', None, 'val'),
    ('cypher_parse_segment_get_directive', SEG, 'directive', None, 'val'),
    ('cypher_parse_segment_is_eof', SEG, 'eof', None, 'val'),
    ('cypher_parse_result_nroots', RES, 'nroots', None, 'val'),
    ('cypher_parse_result_get_root', RES, 'roots', 'nroots', 'val'),
    ('cypher_parse_result_nnodes', RES, 'nnodes', None, 'val'),
    ('cypher_parse_result_ndirectives', RES, 'ndirectives', None, 'val'),
    ('cypher_parse_result_get_directive', RES, 'directives', 'ndirectives', 'val'),
    ('cypher_parse_result_nerrors', RES, 'nerrors', None, 'val'),
    ('cypher_parse_result_get_error', RES, 'errors', 'nerrors', 'elem'),
    ('cypher_parse_result_eof', RES, 'eof', None, 'val'),
    ('cypher_parse_error_position', ERR, 'position', None, 'val'),
    ('cypher_parse_error_message', ERR, 'msg', None, 'val'),
    ('cypher_parse_error_context', ERR, 'context', None, 'val'),
    ('cypher_parse_error_context_offset', ERR, 'context_offset', None, 'val'),
]

def bare(e):
    """without the versions of loads"""
    if not isinstance(e, tuple):
        return e
    if e and e[0] == 'ld':
        return ('ld', bare(e[1]))
    return tuple(bare(x) for x in e)

def boolean(e):
    while True:
        if e[0] == 'cmp' and e[1] == 'ne' and e[3] == ('c', 0):
            e = e[2]
        elif e[0] == 'and' and ('c', 1) in e[1:]:
            e = e[1] if e[2] == ('c', 1) else e[2]
        elif e[0] in ('zext', 'trunc'):
            e = e[1]
        else:
            return e

def size_of(m, s):
    st = m.structs.get(s)
    if st is None:
        raise Undecided('no description of ' + s)
    return st['s'] if 's' in st else st.get('size')

def getter(C, m, spec):
    name, st, member, bound, kind = spec
    X = Fun(C, m, name)
    fn = X.fn
    sret = len(fn.params) > (2 if bound else 1)
    obj = ('arg', 1 if sret else 0)
    idx = ('arg', 2 if sret else 1)
    x = m.field(st, member)
    if x is None:
        raise Undecided('no member %s of %s' % (member, st))
    size = x.get('s')
    el = {'errors': 40}.get(member, 8) if bound else None
    if member == 'errors':
        el = struct_size(m, ERR)
    for p in X.paths:
        K = Knows(p)
        if p.end[0] != 'ret':
            X.ob('getters', 'end', False, 'does not return on every path', p)
            continue
        if st == ERR and p.null(obj):
            continue        # refused
        w = [e for j, e in written(p) if not (sret and root(e[1]) == ('arg', 0)) and e[1] != ('errno',)]
        if w:
            X.ob('getters', 'pure', False, 'changes something', p)
            continue
        r = p.end[1]
        if bound:
            cond = K.truth(('cmp', 'ult', idx, ('ld', X.f(obj, st, bound))))
            if cond is None:
                X.ob('getters', 'bound', False, 'does not compare the index with %s' % bound, p)
            elif not cond:
                X.ob('getters', 'beyond', K.same(r, ('null',)), 'does not return NULL for an index beyond %s' % bound, p)
            else:
                a = mkaddr(('ld', X.f(obj, st, member)), 0, ((idx, el),))
                want = a if kind == 'elem' else ('ld', a)
                X.ob('getters', 'elem', K.same(r, want), 'does not return the element at the index', p)
        elif sret:
            a = X.f(obj, st, member)
            ok = any(e[0] == 'copy' and e[1] == ('arg', 0) and e[2] == a and e[3] == ('c', struct_size(m, 'cypher_input_range')) for e in p.events)
            ok = ok or all(p.load(mkaddr(('arg', 0), d, ()), 'i32') == ('ld', mkaddr(a, d, ())) for d in range(0, struct_size(m, 'cypher_input_range'), 4))
            X.ob('getters', 'value', ok, 'does not return %s' % member, p)
        else:
            a = X.f(obj, st, member)
            if r is not None and r[0] == 'insertvalue':
                parts = []
                e = r
                while e[0] == 'insertvalue':
                    parts.append((e[1], e[3]))
                    e = e[2]
                ok = all(K.same(v, ('ld', mkaddr(a, 8 * ix[0], ()))) for ix, v in parts) and len(parts) == 2
            else:
                ok = r is not None and (K.same(r, ('ld', a)) or K.same(boolean(r), ('ld', a)))
            if not ok and r is not None and r[0] not in ('ld', 'c', 'null', 'addr', 'arg', 'insertvalue', 'add', 'sub', 'cmp', 'and', 'xor', 'or'):
                raise Undecided('value of %s' % name)
            X.ob('getters', 'value', ok, 'does not return %s' % member, p)

def struct_size(m, s):
    """bytes of a struct, from the debug information"""
    st = m.structs.get(s)
    if st is None:
        raise Undecided('no description of ' + s)
    if 'sz' in st:
        return st['sz']
    x = max(st['m'], key=lambda y: y['o'])
    return (x['o'] + x['s'] + 7) // 8 * 8

def ctor(C, m):
    X = Fun(C, m, 'cypher_parse_segment')
    fn = X.fn
    names = ('ordinal', 'range', 'errors', 'nerrors', 'roots', 'nroots', 'directive', 'eof')
    A = {n: X.A(n) for n in names}
    ssz, esz = struct_size(m, SEG), struct_size(m, ERR)
    loops = {}
    for p in X.paths:
        K = Knows(p)
        al = [e for e in p.events if e[0] == 'call' and e[1] in ('calloc', 'malloc')]
        if len(al) != 1:
            raise Undecided('the segment is not allocated by one call')
        seg = al[0][3]
        n = K.lin(al[0][2][0]).mul(1) if al[0][1] == 'malloc' else None
        if al[0][1] == 'calloc':
            a, b = K.n(al[0][2][0]), K.n(al[0][2][1])
            n = a[1] * b[1] if a[0] == 'c' and b[0] == 'c' else None
        else:
            n = n.const()
        X.ob('segment', 'alloc', n is not None and n >= ssz, 'allocates too little for a segment', p)
        fld = lambda f, ty='ptr': p.load(X.f(seg, SEG, f), ty)
        dups = [e for e in p.events if e[0] == 'call' and e[1] == 'mdup']
        failed = p.null(seg) or any(p.null(e[3]) for e in dups)
        if p.end[0] == 'back':
            continue
        if failed:
            fr = [bare(e[2][0]) for e in p.calls('free') if e[2][0] != ('null',)]
            held = [e[3] for e in dups if not p.null(e[3])] + ([] if p.null(seg) else [seg])
            got = [x for x in fr if not p.null(x)]
            X.ob('segment', 'failure', p.end[1] == ('null',), 'does not return NULL when memory runs out', p)
            X.ob('segment', 'leak', sorted(map(repr, got)) == sorted(map(repr, held)), 'does not free what it has allocated when memory runs out', p)
            continue
        X.ob('segment', 'ret', p.end[1] == seg, 'does not return the segment', p)
        X.ob('segment', 'refcount', fld('refcount', 'i32') == ('c', 1), 'does not start with one reference', p)
        rg = X.f(seg, SEG, 'range')
        okr = all(bare(p.load(mkaddr(rg, d, ()), 'i32')) == ('ld', mkaddr(A['range'], d, ())) for d in range(0, struct_size(m, 'cypher_input_range'), 4))
        X.ob('segment', 'range', okr, 'does not record its range', p)
        for arr, cnt, esize in (('errors', 'nerrors', esz), ('roots', 'nroots', 8)):
            z = p.zero(A[cnt])
            cv = fld(cnt, 'i32')
            X.ob('segment', cnt, K.same(cv, A[cnt]), 'does not record %s' % cnt, p)
            if not z:
                v = fld(arr)
                d = [e for e in dups if e[3] == v]
                if d and p.null(v) is None:
                    X.ob('segment', arr + '-null', False, 'is made although there may be no memory for its %s' % arr, p)
                ok = len(d) == 1 and d[0][2][0] == A[arr] and K.same(d[0][2][1], ('mul', A[cnt], ('c', esize)))
                X.ob('segment', arr, ok, 'does not hold a copy of all %s' % arr, p)
        X.ob('segment', 'directive', K.same(fld('directive'), A['directive']), 'does not record the directive', p)
        X.ob('segment', 'eof', K.same(boolean(fld('eof', 'i8')), boolean(A['eof'])), 'does not record the end of input mark', p)
        nn = K.lin(fld('nnodes', 'i32'))
        so = [e for e in p.events if e[0] == 'call' and e[1] == 'cypher_ast_set_ordinals']
        if p.zero(A['nroots']):
            X.ob('segment', 'nnodes', nn == Lin(0), 'counts nodes without roots', p)
            continue
        last = so[-1][3] if so else None
        ph = [e for e in p.events if e[0] == 'loop']
        carried = [('phi', k) for e in ph for k in e[2]]
        ok = last is not None and nn == Lin(0, {last: 1, A['ordinal']: -1})
        if not ok and carried:
            ok = any(nn == Lin(0, {c: 1, A['ordinal']: -1}) for c in carried)
        if not ok and any(isinstance(x, tuple) and x[:1] == ('ld',) for x in nn.t):
            raise Undecided('nnodes is computed in a way that is not understood')
        X.ob('segment', 'nnodes', ok, 'the number of nodes is not that by which the ordinals grew', p)
    # the loop that numbers the roots
    sites = [i for b in fn.blocks for i in b if i['op'] == 'call' and i.get('callee') == 'cypher_ast_set_ordinals']
    if len(sites) != 1:
        raise Undecided('cypher_ast_set_ordinals is not called in one place')
    i = sites[0]
    L = [l for l in fn.loops.values() if fn.blk[i['id']] in l['bset']]
    if len(L) != 1:
        raise Undecided('the roots are not numbered in a loop')
    L = L[0]
    a0 = i['args'][0]
    ld = fn.ins[a0[1]] if a0[0] == 'i' else None
    st = affine(fn, ld['scev']) if ld and ld['op'] == 'load' and ld.get('scev') else None
    if st is None:
        raise Undecided('the roots are not read in order')
    base = {Lin(0, {A['roots']: 1}), }
    arr_ok = st[1] == Lin(0, {A['roots']: 1}) or len(st[1].t) == 1 and st[1].c == 0 and list(st[1].t)[0][0] in ('ld', 'call', '?', 'v')
    X.ob('ordinals', 'first', arr_ok and st[2].const() == 8, 'the roots are not numbered in order from the first')
    cnts = [exec_count(fn, L, fn.blk[i['id']], xb) for xb, _ in L['exits']]
    if None in cnts:
        raise Undecided('how many roots are numbered is not understood')
    X.ob('ordinals', 'all', all(c == Lin(0, {A['nroots']: 1}) for c in cnts), 'not exactly all the roots are numbered')
    # the ordinal is carried from root to root
    o = fn.expr(i['args'][1])
    ok = None
    if o[0] == 'phi' and fn.blk[o[1]] == L['header']:
        ok = True
        for v, b in fn.ins[o[1]]['in']:
            x = fn.expr(v)
            want = ('i', i['id']) if b in L['bset'] else A['ordinal']
            if b in L['bset']:
                ok = ok and v == ['i', i['id']] or ok and tuple(v) == ('i', i['id'])
            else:
                ok = ok and x == A['ordinal']
    if ok is None and not any(x and x[0] in ('phi', 'call', 'ld', '?') for x in walk(o)):
        ok = False
    if ok is None:
        raise Undecided('the ordinal is not carried from root to root in a way that is understood')
    X.ob('ordinals', 'carried', bool(ok), 'the ordinals do not continue from root to root')

def refcount(C, m):
    X = Fun(C, m, 'cypher_parse_segment_retain')
    s = ('arg', 0)
    rc = X.f(s, SEG, 'refcount')
    for p in X.paths:
        K = Knows(p)
        X.ob('refcount', 'retain', K.same(p.load(rc, 'i32'), ('add', ('c', 1), ('ld', rc))) and all(e[1] == rc for j, e in written(p)), 'does not just add one reference', p)
    X = Fun(C, m, 'cypher_parse_segment_release')
    for p in X.paths:
        if p.null(s):
            X.ob('refcount', 'null', not [e for j, e in written(p)] and not p.calls('free'), 'does something to a NULL segment', p)
            continue
        if p.end[0] == 'back':
            raise Undecided('loop in cypher_parse_segment_release')
        K = Knows(p)
        left = ('add', ('c', -1), ('ld', rc))
        st = [e[2] for e in p.events if e[0] == 'store' and e[1] == rc]
        X.ob('refcount', 'drop', bool(st) and K.same(st[0], left), 'does not drop one reference', p)
        gone = K.truth(('cmp', 'eq', left, ('c', 0)))
        if gone is None:
            gone = K.truth(('cmp', 'eq', ('ld', rc), ('c', 1)))
        rel = [(e[1],) + tuple(bare(x) for x in e[2]) for e in p.events if e[0] == 'call' and e[1] in ('free', 'cp_errors_vcleanup', 'cypher_ast_vfree', 'cypher_ast_free')]
        if gone is None:
            X.ob('refcount', 'test', not rel, 'frees the segment without knowing that no reference is left', p)
            continue
        if not gone:
            X.ob('refcount', 'early', not rel, 'frees parts of the segment while references are left', p)
            continue
        releases(X, 'refcount', p, rel, s, SEG, ('errors', 'nerrors'), ('roots', 'nroots'), ())
    X = Fun(C, m, 'cypher_parse_result_free')
    for p in X.paths:
        rel = [(e[1],) + tuple(bare(x) for x in e[2]) for e in p.events if e[0] == 'call' and e[1] in ('free', 'cp_errors_vcleanup', 'cypher_ast_vfree', 'cypher_ast_free')]
        if p.null(s):
            X.ob('free', 'null', not rel, 'does something to a NULL result', p)
            continue
        if p.end[0] == 'back':
            raise Undecided('loop in cypher_parse_result_free')
        releases(X, 'free', p, rel, s, RES, ('errors', 'nerrors'), ('roots', 'nroots'), ('directives',))

def releases(X, rule, p, rel, s, st, errs, roots, more):
    ld = lambda f: ('ld', X.f(s, st, f))
    K = Knows(p)
    zero = lambda f: p.zero(ld(f))
    want = [('cp_errors_vcleanup', ld(errs[0]), ld(errs[1])), ('free', ld(errs[0])), ('cypher_ast_vfree', ld(roots[0]), ld(roots[1])), ('free', ld(roots[0]))]
    want += [('free', ld(f)) for f in more] + [('free', s)]
    for w in want:
        k = rel.count(w)
        n = w[0] in ('cp_errors_vcleanup', 'cypher_ast_vfree')
        if k == 0 and (n and zero(errs[1] if w[0][1] == 'p' else roots[1]) or not n and w[1][0] == 'ld' and p.null(w[1])):
            continue
        what = {s: 'itself', ld(errs[0]): 'its errors', ld(roots[0]): 'its nodes'}.get(w[1], 'its directives')
        X.ob(rule, '%s:%s' % w[:2] if False else '%s:%s' % (w[0], what), k == 1, 'does not release %s exactly once (%s)' % (what, w[0]), p)
    order = [w for w in rel if w in want]
    def before(a, b):
        return a not in order or b not in order or order.index(a) < order.index(b)
    X.ob(rule, 'order', all(before(w, ('free', s)) for w in want[:-1]) and before(want[0], want[1]) and before(want[2], want[3]),
         'uses something after freeing it', p)
    other = [w for w in rel if w not in want and not (w[0] == 'free' and w[1] == ('null',))]
    X.ob(rule, 'other', not other, 'releases something it does not own', p)

def merge(C, m):
    X = Fun(C, m, 'cp_result_merge_segment')
    r, s = X.A('result'), X.A('segment')
    esz = struct_size(m, ERR)
    R = lambda f: X.f(r, RES, f)
    S = lambda f: X.f(s, SEG, f)
    for p in X.paths:
        if p.end[0] != 'ret':
            raise Undecided('loop in cp_result_merge_segment')
        K = Knows(p)
        ret = K.n(p.end[1])
        if ret[0] != 'c':
            raise Undecided('value of cp_result_merge_segment')
        ok = ret[1] == 0
        res = [e for e in p.events if e[0] == 'call' and e[1] == 'realloc']
        nomem = [e for e in res if p.null(e[3])] + [e for e in p.events if e[0] == 'call' and e[1] in ('malloc', 'calloc') and p.null(e[3])]
        X.ob('merge', 'outcome', ok == (not nomem), 'reports failure although it has merged' if not ok else 'reports success although memory ran out', p)
        if res and any(p.null(e[3]) is None for e in res):
            X.ob('merge', 'unchecked', False, 'uses memory without looking whether it was allocated', p)
            continue
        for arr, cnt, es in (('errors', 'nerrors', esz), ('roots', 'nroots', 8)):
            n0, sn0 = ('ld', R(cnt)), ('ld', S(cnt))
            n1, sn1 = p.load(R(cnt), 'i32'), p.load(S(cnt), 'i32')
            a1 = p.load(R(arr))
            sum_ = ('add', n0, sn0)
            cps = [e for e in p.events if e[0] == 'copy' and K.same(e[2], ('ld', S(arr)))]
            if p.zero(sn0):
                X.ob('merge', cnt, K.same(n1, n0) and K.same(a1, ('ld', R(arr))) or K.same(n1, n0) and any(e[3] == a1 for e in res), 'changes %s although the segment has none' % arr, p)
                continue
            grown = [e for e in res if K.same(e[2][0], ('ld', R(arr)))]
            moved = K.same(n1, sum_)
            if moved:
                big = [e for e in grown if K.same(e[2][1], ('mul', sum_, ('c', es))) and e[3] == a1]
                at = [e for e in cps if K.same(e[1], mkaddr(a1, 0, ((n0, es),))) and K.same(e[3], ('mul', sn0, ('c', es)))]
                if not cps and any(e[0] == 'loop' for e in p.events):
                    raise Undecided('%s are appended in a loop' % arr)
                X.ob('merge', arr + ':size', bool(big), 'the array of %s is not grown to hold those of the result and of the segment' % arr, p)
                X.ob('merge', arr + ':append', bool(at), 'not all %s of the segment are appended after those of the result' % arr, p)
                X.ob('merge', arr + ':owner', K.same(sn1, ('c', 0)), 'the segment still owns the %s after they were merged' % arr, p)
            elif not ok and K.same(n1, n0):
                X.ob('merge', arr + ':lost', K.same(sn1, sn0), 'the %s of the segment are lost when memory runs out' % arr, p)
                live = [e for e in grown if not p.null(e[3])]
                X.ob('merge', arr + ':dangling', not live or a1 == live[-1][3], 'the result keeps a pointer to freed %s' % arr, p)
            else:
                X.ob('merge', cnt, False, '%s of the result is not the sum of both' % cnt, p)
        if not ok:
            d = [e for e in res if not p.null(e[3]) and K.same(e[2][0], ('ld', R('directives')))]
            X.ob('merge', 'directives:dangling', not d or p.load(R('directives')) == d[-1][3], 'the result keeps a pointer to freed directives', p)
            continue
        X.ob('merge', 'nnodes', K.same(p.load(R('nnodes'), 'i32'), ('add', ('ld', R('nnodes')), ('ld', S('nnodes')))), 'nnodes of the result is not the sum of both', p)
        # directive
        d0, n0, cap = ('ld', S('directive')), ('ld', R('ndirectives')), ('ld', R('directives_cap'))
        none = p.null(d0)
        n1, a1 = p.load(R('ndirectives'), 'i32'), p.load(R('directives'))
        if none is None:
            X.ob('merge', 'directive:test', False, 'the directive is merged without looking whether there is one', p)
        elif none:
            X.ob('merge', 'directive:none', K.same(n1, n0), 'a directive is added although the segment has none', p)
        else:
            X.ob('merge', 'directive:count', K.same(n1, ('add', ('c', 1), n0)), 'the number of directives does not grow by one', p)
            slot = mkaddr(a1, 0, ((n0, 8),))
            st = [e for e in p.events if e[0] == 'store' and K.same(e[1], slot)]
            X.ob('merge', 'directive:slot', bool(st) and K.same(st[-1][2], d0), 'the directive is not appended after those of the result', p)
            g = [e for e in res if K.same(e[2][0], ('ld', R('directives')))]
            if g:
                c1 = p.load(R('directives_cap'), 'i32')
                X.ob('merge', 'directive:cap', K.same(g[-1][2][1], ('mul', c1, ('c', 8))) and a1 == g[-1][3], 'the capacity recorded for the directives is not that of the array', p)
                l = K.lin(c1)
                # old capacity <= count (known on this path) or 0: the new one is larger than the count
                l0 = K.n(cap)
                z0 = K.n(n0)
                room = l.const() is not None and (l.const() >= 1 and l0 == ('c', 0) or z0[0] == 'c' and l.const() > z0[1]) or (l.t.get(l0, 0) >= 1 and (l.t.get(l0, 0) >= 2 or l.c >= 1) and l.c >= 0 and set(l.t) == {l0}) or \
                    l == K.lin(n0).add(Lin(1)) or set(l.t) == {K.n(n0)} and l.c >= 1 and l.t[K.n(n0)] >= 1
                full = K.truth(('cmp', 'ult', n0, cap))
                full2 = K.truth(('cmp', 'eq', n0, cap))
                if full is None and full2 is None:
                    full = False if l0 == ('c', 0) else None
                X.ob('merge', 'directive:room', room, 'the array of directives does not grow enough to hold another', p)
            else:
                t = K.truth(('cmp', 'ult', n0, cap))
                if t is None:
                    t2 = K.truth(('cmp', 'eq', n0, cap))
                    t = None if t2 is None else not t2
                X.ob('merge', 'directive:full', t is True, 'the directive is stored without room for it', p)
        # end of input
        e1 = p.load(R('eof'), 'i8')
        E0, E1 = ('ld', R('eof')), ('ld', S('eof'))
        atoms = {'E': [(E0, True), (('and', ('c', 1), E0), True), (('cmp', 'eq', E0, ('c', 0)), False)],
                 'F': [(E1, True), (('and', ('c', 1), E1), True), (('cmp', 'eq', E1, ('c', 0)), False)],
                 'D': [(('cmp', 'eq', d0, ('null',)), False)],
                 'N': [(('cmp', 'eq', ('ld', S('nerrors')), ('c', 0)), False)]}
        for asg, v in table(K, e1, atoms):
            want = asg['E'] or asg['F'] and (asg['D'] or asg['N'])
            if v is None:
                C.undecided('merge', X.name, 'end of input mark')
                break
            if v != want:
                X.ob('merge', 'eof', False, 'the end of input mark of the result is %s when %s' % ('set' if v else 'not set',
                     ', '.join(t for t in ('the result has it' if asg['E'] else None, 'the segment has it' if asg['F'] else 'the segment lacks it', 'with a directive' if asg['D'] else 'without directive',
                                           'with errors' if asg['N'] else 'without errors') if t)), p)
                break
        else:
            X.ob('merge', 'eof', True, 'end of input mark')

def errors(C, m):
    X = Fun(C, m, 'cp_errors_vcleanup')
    fn = X.fn
    sites = {}
    for b in fn.blocks:
        for i in b:
            if i['op'] == 'call' and i.get('callee') == 'free':
                a = i['args'][0]
                ld = fn.ins[a[1]] if a[0] == 'i' else None
                st = affine(fn, ld['scev']) if ld and ld['op'] == 'load' and ld.get('scev') else None
                if st is None or st[0] is None:
                    raise Undecided('what cp_errors_vcleanup frees is not understood')
                sites[i['id']] = (i, st)
    esz = struct_size(m, ERR)
    A, N = Lin(0, {('arg', 0): 1}), Lin(0, {('arg', 1): 1})
    for f in ('msg', 'context'):
        off = m.field(ERR, f)['o']
        up = [(i, st) for i, st in sites.values() if st[1] == A.add(Lin(off)) and st[2].const() == esz]
        dn = [(i, st) for i, st in sites.values() if st[1] == A.add(N.mul(esz)).add(Lin(off - esz)) and st[2].const() == -esz]
        hit = up or dn
        X.ob('errors', f, len(hit) == 1, 'does not free the %s of every error' % ('message' if f == 'msg' else f))
        for i, st in hit:
            L = [l for l in fn.loops.values() if fn.blk[i['id']] in l['bset']]
            cs = [exec_count(fn, L[0], fn.blk[i['id']], xb) for xb, _ in L[0]['exits']] if len(L) == 1 else [None]
            if None in cs:
                raise Undecided('how many errors are freed is not understood')
            X.ob('errors', f + ':all', all(c == N for c in cs), 'does not free the %s of exactly all errors' % f)
    X.ob('errors', 'other', len(sites) == 2, 'frees something other than the message and context of errors')

def R01(C):
    C.rule('getters', 'each getter returns the member it is named for, and NULL for an index beyond the end', 20)
    C.rule('segment', 'a segment holds copies of exactly the errors, nodes, directive, range and end of input mark it is made from', 5)
    C.rule('ordinals', 'all root nodes of a segment are numbered in order, each continuing after the previous one', 1)
    C.rule('refcount', 'retain adds a reference; release drops one, and frees everything the segment owns, once, when none is left', 5)
    C.rule('merge', 'merging appends errors, nodes and directive of the segment to those of the result, which then owns them', 20)
    C.rule('free', 'freeing a result frees everything it owns once', 3)
    C.rule('errors', 'message and context of every error are freed', 3)
    m = lib_module(KEEP_R)
    for g in GETTERS:
        C.anchor(m.fn(g[0]) is not None, g[0])
        try:
            getter(C, m, g)
        except Undecided as e:
            C.undecided('getters', g[0], e)
    for rule, f in (('segment', ctor), ('refcount', refcount), ('merge', merge), ('errors', errors)):
        try:
            f(C, m)
        except Undecided as e:
            C.undecided(rule, f.__name__, e)

PROPS = {'R01': R01}
