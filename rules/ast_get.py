"""Accessors: they return what the constructor was given, and only for the right nodes."""
from fields import *
from memo import spec

def load():
    m = lib_module()
    return m, TypeTable(m), spec()

def family(sp, tt, ctor):
    """constructors whose nodes the accessors of `ctor` apply to"""
    t = sp['ctors'][ctor]['type']
    return [n for n, s in sp['ctors'].items() if t in tt.ancestors(s['type'])]

def getters(c, m, sp):
    for g, s in sp['getters'].items():
        fn = m.fn(g)
        if fn is None:
            yield g, s, None
        else:
            yield g, s, fn

def einval(fn, b):
    for i in fn.blocks[b]:
        if i['op'] == 'store' and i['args'][0][0] == 'c' and i['args'][0][1] == 22:
            a = fn.expr(i['args'][1])
            if a[0] == 'call' and a[1] == '__errno_location':
                return True
    return False

def norm(e):
    e = unbool(e)
    if e[0] == 'addr':
        return ('addr', e[1], e[2], tuple((norm_idx(v), s) for v, s in e[3]))
    return e

def norm_idx(v):
    return v

def element(e, place, idx, stride, offset):
    """e is element `stride*idx + offset` of the list kept at place (of argument 0)"""
    if e[0] != 'ld':
        return False
    root, off, var = rooted(e[1])
    l = Lin(off)
    for v, s in var:
        l = l.add(elin(v).mul(s))
    if place.kind == 'inline':
        want = Lin(place.off + place.stride * offset, {idx: place.stride * stride})
        return root == ('arg', 0) and l == want
    if place.kind == 'pointer':
        want = Lin(place.stride * offset, {idx: place.stride * stride})
        return root == ('ld', mkaddr(('arg', 0), place.off, ())) and l == want
    return False

def value_of(e, place, s, kind):
    e = norm(e)
    if kind == 'string':
        if place.kind == 'inline':
            return e == mkaddr(('arg', 0), place.off, ())
        return e == ('ld', mkaddr(('arg', 0), place.off, ()))
    if s.get('index') is not None:
        return element(e, place, ('arg', s['index']), s.get('stride', 1), s.get('offset', 0))
    return e == ('ld', mkaddr(('arg', 0), place.off, ()))

def virtual_target(m, fn, e, ct):
    """the function called through a table that the constructor put into the node:
    (Fn, argument expressions)"""
    i = fn.ins.get(e[2])
    if not i or 'fp' not in i or ct is None:
        return None
    f = fn.expr(i['fp'])
    if f[0] != 'ld':
        return None
    tab, slot, var = rooted(f[1])
    if var or tab[0] != 'ld':
        return None
    r, off, var = rooted(tab[1])
    if r != ('arg', 0) or var:
        return None
    vals = [v for v, j in ct.stores.get(off, [])]
    if len(vals) != 1 or vals[0][0] != 'g':
        return None
    g = m.globals.get(vals[0][1])
    if not g or not g.get('const') or not g.get('init') or g['init'][0] != 'v':
        return None
    items = g['init'][1]
    if slot % 8 or slot // 8 >= len(items) or items[slot // 8][0] != 'g':
        return None
    t = m.fn(items[slot // 8][1])
    return (t, e[3:]) if t else None

def const_like(e):
    return e[0] in ('null', 'c', 'undef')

def guard_types(fn, tt):
    for i in fn.calls('cypher_astnode_instanceof'):
        if fn.expr(i['args'][0]) == ('arg', 0):
            t = fn.expr(i['args'][1])
            yield i, tt.names.get(t[1] & 0xff) if t[0] == 'c' else None

def guard_atom(a):
    x = instof(a[1]) if a[0] == 'bool' else None
    return x if x and x[0] == ('arg', 0) else None

def returns(fn, cut):
    out = []
    def visit(b, env, facts, path):
        t = fn.blocks[b][-1]
        if t['op'] == 'ret' and t['args']:
            out.append((fn.expr(t['args'][0], env), path))
        return False
    Paths(fn).explore(visit=visit, cut=cut)
    return out

def in_range(a, v, idx, cnt):
    """the branch establishes idx < cnt (cnt: (load expr, mult ignored, plus))"""
    ld, plus = cnt
    if a[0] != 'cmp':
        return None
    if plus == 0:
        if a == ('cmp', 'ult', idx, ld):
            return v
        if a == ('cmp', 'ult', ld, idx):
            return False if v else None      # ld < idx: out of range; ld >= idx says nothing
    if plus == 1:
        if a == ('cmp', 'ult', ld, idx):
            return not v
        if a[1] == 'ult' and a[2] == idx and elin(a[3]) == Lin(1, {ld: 1}):
            return v
    return None

def A03(c):
    m, tt, sp = load()
    c.rule('kept', 'every argument of a constructor is kept in the node on every successful path and is not overwritten', 180)
    c.rule('returned', 'an accessor returns, for a node of its type, the place where every constructor of that type keeps the corresponding argument', 180)
    c.rule('in-range', 'an indexed accessor reads an element only after establishing that the index is below the number of elements', 35)
    c.rule('out-of-range', 'an indexed accessor does not refuse an index below the number of elements', 35)
    c.rule('stamp', 'every constructor records its node type, the children, their number and the range', 100)
    c.rule('base', 'the accessors for type, children and range read what the constructors recorded', 4)
    base = base_places(m)
    for k, v in base.items():
        c.anchor(v is not None or k in ('problem',), 'cypher_astnode accessor of ' + k)
    for name in sp['ctors']:
        fn = m.fn(name)
        if fn is None:
            c.violation('kept', name, name, 'the documented constructor is not defined')
            continue
        c.cover['constructors'] += 1
        ct, pl = model(m, name, sp)
        for pn, x in pl.items():
            w = '%s(%s) %s' % (name, pn, fn.loc())
            if isinstance(x, Undecided):
                c.undecided('kept', w, x)
            elif isinstance(x, Place):
                c.ob('kept', w, True, msg=repr(x))
            else:
                c.ob('kept', w, False, key='%s.%s' % (name, pn), msg=x[1], path=x[2])
        stamp(c, m, tt, sp, name, ct, base)
    for g, s, fn in getters(c, m, sp):
        if fn is None:
            c.violation('returned', g, g, 'the documented accessor is not defined')
            continue
        c.cover['accessors'] += 1
        # guards are decided: the node is of the right type
        def typed_cut(sb, d, conj, env, facts):
            for a, v in conj:
                if guard_atom(a) and not v:
                    return True
            return False
        for name in family(sp, tt, sp['getters'][g]['ctor']):
            ct, pl = model(m, name, sp)
            s = sp['getters'][g].get('alt', {}).get(name, sp['getters'][g])
            w = '%s on %s %s' % (g, name, fn.loc())
            gf, cut0 = fn, typed_cut
            # accessors that dispatch on a table kept in the node
            rs = None
            try:
                rs = [e for e, p in returns(fn, typed_cut) if e[0] == 'call' and e[1] == '*']
            except Undecided:
                pass
            if rs:
                vt = virtual_target(m, fn, rs[0], ct)
                if len(set(rs)) > 1 or vt is None:
                    c.undecided('returned', w, 'dispatch is not understood')
                    continue
                gf = vt[0]
                if list(vt[1]) != [('arg', k) for k in range(len(gf.params))]:
                    c.ob('returned', w, False, key='%s.%s' % (g, name), msg='calls %s with other arguments' % gf.src)
                    continue
                w = '%s on %s via %s %s' % (g, name, gf.src, gf.loc())
            if s['field'] not in sp['ctors'][name]['params']:
                dl = sp['delegates'].get(name)
                def other():
                    for e, path in returns(gf, cut0):
                        if dl:
                            x = pl[dl]
                            if not isinstance(x, Place):
                                raise Undecided('place of `%s` is not known' % dl)
                            want = ('ld', mkaddr(('arg', 0), x.off, ()))
                            if e[0] != 'call' or e[1] != g or e[3] != want or list(e[4:]) != [('arg', k) for k in range(1, len(gf.params))]:
                                return ('does not answer with that of its `%s`' % dl, pathlines(gf, path))
                        elif e not in (('null',), ('c', 0)):
                            return ('does not return null', pathlines(gf, path))
                c.attempt('returned', w, other, key='%s.%s' % (g, name))
                continue
            x = pl[s['field']]
            # pair_map keeps keys and values interleaved in one argument
            if not isinstance(x, Place):
                c.undecided('returned', w, 'place of `%s` is not known' % s['field'])
                continue
            kind = sp['ctors'][name]['params'][s['field']]['kind']
            def check():
                bad = None
                some = False
                for e, path in returns(gf, cut0):
                    if value_of(e, x, s, kind):
                        some = True
                    elif const_like(e) and s.get('index') is not None:
                        pass
                    elif e[0] in ('phi', '?', 'deep') or e[0] == 'call' :
                        raise Undecided('result is not understood')
                    else:
                        bad = bad or ('does not return the `%s` that was given to the constructor' % s['field'], pathlines(gf, path))
                if bad:
                    return bad
                if not some:
                    return ('never returns the `%s` that was given to the constructor' % s['field'], None)
            c.attempt('returned', w, check, key='%s.%s' % (g, name))
            if s.get('index') is not None:
                p = sp['ctors'][name]['params'][s['field']]
                cp = pl.get(p['count'])
                if not isinstance(cp, Place):
                    c.undecided('in-range', w, 'place of the count is not known')
                    continue
                idx = ('arg', s['index'])
                cnt = (('ld', mkaddr(('arg', 0), cp.off, ())), p.get('plus', 0))
                if p.get('mult', 1) != s.get('stride', 1):
                    raise AssertionError(g)
                def rng():
                    def cut(sb, d, conj, env, facts):
                        if cut0(sb, d, conj, env, facts):
                            return True
                        return any(in_range(a, v, idx, cnt) is True for a, v in conj)
                    for e, path in returns(gf, cut):
                        if not const_like(e):
                            return ('reads an element without establishing that the index is in range', pathlines(gf, path))
                def rng2():
                    def cut(sb, d, conj, env, facts):
                        if cut0(sb, d, conj, env, facts):
                            return True
                        return any(in_range(a, v, idx, cnt) is False for a, v in conj)
                    for e, path in returns(gf, cut):
                        if const_like(e):
                            return ('returns nothing although the index is in range', pathlines(gf, path))
                c.attempt('in-range', w, rng, key='%s.%s' % (g, name))
                c.attempt('out-of-range', w, rng2, key='%s.%s' % (g, name))
    # the generic accessors
    check_base(c, m, base)

def base_places(m):
    """offsets of type, children, nchildren, range, ordinal in a node, from the accessors"""
    out = {}
    for k, f in (('type', 'cypher_astnode_type'), ('nchildren', 'cypher_astnode_nchildren')):
        fn = m.fn(f)
        out[k] = None
        if fn:
            for e, p in returns(fn, lambda *a: False):
                if e[0] == 'ld' and rooted(e[1])[0] == ('arg', 0) and not rooted(e[1])[2]:
                    out[k] = rooted(e[1])[1]
    fn = m.fn('cypher_astnode_get_child')
    out['children'] = None
    if fn:
        for e, p in returns(fn, lambda *a: False):
            if e[0] == 'ld' and e[1][0] == 'addr' and e[1][1][0] == 'ld':
                r, off, var = rooted(e[1][1][1])
                if r == ('arg', 0) and not var:
                    out['children'] = off
    fn = m.fn('cypher_astnode_range')
    out['range'] = None
    if fn:
        for i in fn.all('call'):
            if i.get('callee') in MEMCPY and fn.expr(i['args'][0]) == ('arg', 0):
                r, off, var = rooted(fn.expr(i['args'][1]))
                if r == ('arg', 1) and not var:
                    out['range'] = off
    return out

def check_base(c, m, base):
    fn = m.fn('cypher_astnode_get_child')
    idx = ('arg', 1)
    n = ('ld', mkaddr(('arg', 0), base['nchildren'], ()))
    def rng():
        for e, path in returns(fn, lambda s, d, conj, env, facts: any(in_range(a, v, idx, (n, 0)) is True for a, v in conj)):
            if not const_like(e):
                return ('reads a child without establishing that the index is in range', pathlines(fn, path))
    def rng2():
        for e, path in returns(fn, lambda s, d, conj, env, facts: any(in_range(a, v, idx, (n, 0)) is False for a, v in conj)):
            if const_like(e):
                return ('returns nothing although the index is in range', pathlines(fn, path))
    def val():
        want = ('ld', ('addr', ('ld', mkaddr(('arg', 0), base['children'], ())), 0, ((idx, 8),)))
        for e, path in returns(fn, lambda *a: False):
            if not const_like(e) and e != want:
                return ('does not return the child at the index', pathlines(fn, path))
    for k, f in (('range', rng), ('all', rng2), ('value', val)):
        c.attempt('base', 'cypher_astnode_get_child ' + fn.loc(), f, key='get_child.' + k)
    for f in ('cypher_astnode_type', 'cypher_astnode_nchildren'):
        fn2 = m.fn(f)
        def one():
            for e, p in returns(fn2, lambda s, d, conj, env, facts: any(v and a == ('cmp', 'eq', ('arg', 0), ('null',)) for a, v in conj)):
                if e != ('ld', mkaddr(('arg', 0), base[f[len('cypher_astnode_'):]], ())):
                    return ('does not return what the constructors recorded', pathlines(fn2, p))
        c.attempt('base', f + ' ' + fn2.loc(), one, key=f)

def stamp(c, m, tt, sp, name, ct, base):
    fn = m.fn(name)
    s = sp['ctors'][name]
    w = '%s %s' % (name, fn.loc())
    def run():
        if ct is None or not ct.objs:
            raise Undecided('object not known')
        # type
        st = ct.stores.get(base['type'], [])
        want = tt.types.get(s['type'])
        vals = [v for v, i in st]
        if not st:
            if want == 0:
                pass
            else:
                return ('the node type is not recorded', None)
        for v, i in st:
            if v[0] != 'c':
                raise Undecided('type is not a constant')
            if (v[1] & 0xff) != want:
                return ('records type %s instead of %s' % (tt.names.get(v[1] & 0xff), s['type']), [fn.loc(i)])
            av = ct.avoidable(i)
            if av:
                return ('the node type is not recorded on every path', pathlines(fn, av))
        if 'children' not in ct.idx:
            kids, nk = None, None
        else:
            kids, nk = ct.arg('children'), ct.arg('nchildren')
        if kids is not None:
            ok = None
            for v, i in ct.stores.get(base['children'], []):
                if v[0] == 'null':
                    continue
                if v[0] == 'call' and v[1] == 'mdup' and v[3] == kids:
                    size = elin(v[4])
                elif allocation(v) and v in ct.pcopies and ct.pcopies[v][0][0] == kids:
                    size = ct.pcopies[v][0][1]
                else:
                    raise Undecided('the way the children are kept is not understood')
                if size != Lin(0, {nk: 8}):
                    return ('keeps %r bytes of the children' % size, [fn.loc(i)])
                av = ct.avoidable(i, [nk])
                if av:
                    return ('the children are not kept on every successful path', pathlines(fn, av))
                ok = True
            if not ok:
                return ('the children are not kept', None)
            ok = None
            for v, i in ct.stores.get(base['nchildren'], []):
                if v == nk:
                    av = ct.avoidable(i, [nk])
                    if av:
                        return ('the number of children is not recorded on every successful path', pathlines(fn, av))
                    ok = True
                elif v != ('c', 0):
                    return ('records a wrong number of children', [fn.loc(i)])
            if not ok:
                return ('the number of children is not recorded', None)
        # range
        r = ct.arg('range')
        ok = False
        for off, src, size, i in ct.copies:
            if off == base['range'] and size is not None and size.const() == 32 and range_source(fn, src, r):
                av = ct.avoidable(i)
                if av:
                    return ('the range is not recorded on every successful path', pathlines(fn, av))
                ok = True
        if not ok:
            parts = set()
            for off in range(base['range'], base['range'] + 32, 8):
                for v, i in ct.stores.get(off, []):
                    if v[0] == 'ld':
                        ro, o2, var = rooted(v[1])
                        if range_source(fn, ro, r) and o2 == off - base['range'] and not ct.avoidable(i):
                            parts.add(off)
            ok = len(parts) >= 4
        if not ok:
            if ct.stored_somewhere(r):
                raise Undecided('the way the range is kept is not understood')
            return ('the range is not recorded', None)
    c.attempt('stamp', w, run, key=name)

def range_source(fn, e, r, depth=0):
    """e is the range argument or a local copy of it"""
    if e == r:
        return True
    if e[0] == 'alloca' and depth < 6:
        srcs = []
        for i in fn.all('call'):
            if i.get('callee') in MEMCPY and fn.expr(i['args'][0]) == e:
                srcs.append(fn.expr(i['args'][1]))
        for i in fn.all('store'):
            if rooted(fn.expr(i['args'][1]))[0] == e:
                return False
        return len(srcs) == 1 and range_source(fn, srcs[0], r, depth + 1)
    return False

def A04(c):
    m, tt, sp = load()
    c.rule('guard', 'an accessor reads a type-specific part of a node only on paths on which the node has been tested to be an instance of the '
           'accessor\'s type', 180)
    c.rule('guard-not-narrower', 'the test accepts every node type the accessor is documented for', 180)
    c.rule('reject-errno', 'an accessor given a node of another type stores EINVAL and returns a constant', 180)
    base = base_places(m)
    for g, s, fn in getters(c, m, sp):
        if fn is None:
            c.violation('guard', g, g, 'the documented accessor is not defined')
            continue
        c.cover['accessors'] += 1
        T = sp['ctors'][s['ctor']]['type']
        w = '%s %s' % (g, fn.loc())
        # opaque: node handed to something else than instanceof
        opaque = [i for i in fn.all('call') if i.get('callee') and i.get('callee') != 'cypher_astnode_instanceof' and any(fn.expr(a) == ('arg', 0) for a in i['args'])]
        if opaque:
            for r in ('guard', 'guard-not-narrower', 'reject-errno'):
                c.undecided(r, w, 'node handed to %s' % opaque[0].get('callee'))
            continue
        reads = set()
        for i in fn.all('load'):
            r, off, var = rooted(fn.expr(i['args'][0]))
            if r == ('arg', 0):
                reads.add(fn.blk[i['id']])
        for i in fn.all('ret'):
            pass
        tys = [t for i, t in guard_types(fn, tt)]
        def g1():
            bad = []
            def cut(sb, d, conj, env, facts):
                for a, v in conj:
                    x = guard_atom(a)
                    if x and v:
                        t = x[1]
                        n = tt.names.get(t[1] & 0xff) if t[0] == 'c' else None
                        if n and T in tt.ancestors(n):
                            return True
                    # direct comparison of the recorded type
                    if v and a[0] == 'cmp' and a[1] == 'eq' and a[2] == ('ld', mkaddr(('arg', 0), base['type'], ())) and a[3][0] == 'c':
                        n = tt.names.get(a[3][1] & 0xff)
                        if n and T in tt.ancestors(n):
                            return True
                return False
            def visit(b, env, facts, path):
                if bad:
                    return True
                if b in reads:
                    # in this block before a guard was passed (the guard ends a block)
                    for i in fn.blocks[b]:
                        if i['op'] == 'load':
                            r, off, var = rooted(fn.expr(i['args'][0], env))
                            if r == ('arg', 0) and off != base['type']:
                                bad.append(path)
                t = fn.blocks[b][-1]
                if t['op'] == 'ret' and t['args'] and not const_like(fn.expr(t['args'][0], env)):
                    bad.append(path)
                return False
            Paths(fn).explore(visit=visit, cut=cut)
            if bad:
                return ('reads a node that has not been tested to be %s' % T, pathlines(fn, bad[0]))
        c.attempt('guard', w, g1, key=g)
        def g2():
            for name in family(sp, tt, s['ctor']):
                D = sp['ctors'][name]['type']
                def cut(sb, d, conj, env, facts):
                    for a, v in conj:
                        x = guard_atom(a)
                        if x and x[1][0] == 'c':
                            n = tt.names.get(x[1][1] & 0xff)
                            if (n in tt.ancestors(D)) != v:
                                return True
                        if a[0] == 'cmp' and a[1] == 'eq' and a[2] == ('ld', mkaddr(('arg', 0), base['type'], ())) and a[3][0] == 'c':
                            if (tt.names.get(a[3][1] & 0xff) == D) != v:
                                return True
                    return False
                if all(const_like(e) for e, p in returns(fn, cut)):
                    return ('refuses nodes of type %s' % D, None)
        c.attempt('guard-not-narrower', w, g2, key=g)
        def g3():
            bad = []
            def cut(sb, d, conj, env, facts):
                for a, v in conj:
                    x = guard_atom(a)
                    if x and v and T in tt.ancestors(tt.names.get(x[1][1] & 0xff) if x[1][0] == 'c' else ''):
                        return True
                    if a[0] == 'cmp' and a[1] == 'eq' and v and a[2] == ('ld', mkaddr(('arg', 0), base['type'], ())):
                        return True
                return False
            def visit(b, env, facts, path):
                if einval(fn, b):
                    return True
                t = fn.blocks[b][-1]
                if t['op'] == 'ret':
                    bad.append(path)
                return False
            Paths(fn).explore(visit=visit, cut=cut)
            if bad:
                return ('does not report EINVAL for a node of another type', pathlines(fn, bad[0]))
        c.attempt('reject-errno', w, g3, key=g)

PROPS = {'A03': A03, 'A04': A04}
