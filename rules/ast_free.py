"""Releasing nodes: what a node owns is released with it, once."""
from astmodel import *
from fields import rooted, allocation
from memo import spec
import typestate

def owned_places(m, fn):
    """offsets of a node (its allocation at offset 0) that hold memory of its own"""
    objs = set()
    for r in fn.rets():
        work, seen = [fn.expr(r['args'][0])], set()
        while work:
            e = work.pop()
            if e in seen:
                continue
            seen.add(e)
            if e[0] == 'phi':
                work += [fn.expr(v) for v, b in fn.ins[e[1]]['in']]
            elif e[0] == 'select':
                work += [e[2], e[3]]
            elif e[0] == 'call' and e[1] in ('calloc', 'malloc'):
                objs.add(e)
    own = {}
    for i in fn.all('store'):
        r, off, var = rooted(fn.expr(i['args'][1]))
        v = fn.expr(i['args'][0])
        vs = [v]
        if v[0] == 'phi':
            vs = [fn.expr(x) for x, b in fn.ins[v[1]]['in']]
        elif v[0] == 'select':
            vs = [v[2], v[3]]
        if r in objs and not var and any(allocation(x) and x not in objs for x in vs):
            own[off] = i
    return objs, own

def vt_field(m, name):
    st = m.structs.get('cypher_astnode_vt')
    for x in st['m']:
        if x['n'] == name:
            return x['o']
    return None

def A06(c):
    m = lib_module()
    tt = TypeTable(m)
    sp = spec()
    c.rule('frees-owned', 'the release function of a node type frees every piece of memory its constructor gives a node (besides the children), exactly once, on every path', 1)
    c.rule('frees-node', 'the release function of a node type frees the node itself, exactly once, on every path', 80)
    c.rule('frees-nothing-else', 'the release function of a node type frees nothing else', 80)
    c.rule('no-release', 'every node type that can be constructed has a release function', 80)
    c.rule('release-called', 'freeing a node calls the release function of its own type, with the node, exactly once unless the node is NULL', 2)
    c.rule('annotations-drained', 'every annotation of a node is released before the node is', 2)
    c.rule('children-released', 'freeing an AST frees every child, and the array of children, as they were before the node was released; freeing one node frees the array only', 2)
    c.rule('all-elements', 'freeing an array of nodes frees every element of it', 1)
    base = m.structs.get('cypher_astnode')
    c.anchor(base, 'struct cypher_astnode')
    fo = {x['n']: x['o'] for x in base['m']}
    owned = {}                    # type -> {offset}
    types = {}
    for name in sp['ctors']:
        fn = m.fn(name)
        if fn is None:
            continue
        objs, own = owned_places(m, fn)
        own = {o: i for o, i in own.items() if o != fo['children']}      # freed by whoever frees the node
        # the type: third... the argument of the initialiser that is a known constant
        for i in fn.calls('cypher_astnode_init'):
            t = fn.expr(i['args'][1])
            if t[0] == 'c':
                types.setdefault(tt.names.get(t[1] & 0xff), []).append((name, own))
        for i in fn.all('store'):
            r, off, var = rooted(fn.expr(i['args'][1]))
            if r in objs and off == fo['type'] and not var:
                t = fn.expr(i['args'][0])
                if t[0] == 'c':
                    types.setdefault(tt.names.get(t[1] & 0xff), []).append((name, own))
    c.anchor(len(types) > 60, 'node types of the constructors')
    nfree = 0
    for t, cs in sorted(types.items(), key=str):
        d = tt.desc(tt.vt.get(t)) if tt.vt.get(t) else None
        rel = d and d['release'][0] == 'g' and d['release'][1]
        rf = m.fn(rel) if rel else None
        if rf is None and rel and rel in m.by_src:
            rf = m.fn(m.by_src[rel][0])
        if rf is None:
            c.ob('no-release', t, False, key=str(t), msg='has no release function')
            continue
        c.ob('no-release', t, True)
        offs = sorted(set(o for n, own in cs for o in own))
        release_rules(c, m, t, rf, offs)
    # drivers
    roff = vt_field(m, 'release')
    for name, deep in (('cypher_ast_free', True), ('cypher_astnode_free', False)):
        fn = m.fn(name)
        c.anchor(fn, name)
        driver(c, m, fn, fo, roff, deep)
    fn = m.fn('cypher_ast_vfree')
    c.anchor(fn, 'cypher_ast_vfree')
    c.attempt('all-elements', fn.where(), lambda: all_elements(fn, 'cypher_ast_free', 0, 1))

def release_rules(c, m, t, rf, offs):
    w = '%s released by %s' % (t, rf.where())
    def instr(i, env, facts, st):
        if i['op'] == 'call' and (i.get('callee') or '') in ('free', 'cypher_astnode_release', 'cypher_ast_free', 'cypher_ast_vfree', 'cypher_astnode_free'):
            e = rf.expr(i['args'][0], env)
            if known(facts, e):
                return st
            if i['callee'] == 'cypher_astnode_release' and e == ('arg', 0):
                pass
            elif i['callee'] != 'free':
                return st + ((i['callee'], e, i['id']),)
            return st + (('free', e, i['id']),)
        if i['op'] == 'call' and i.get('callee') is None:
            raise Undecided('indirect call')
        return st
    def known(facts, e):
        return typestate.known_null(facts, e)
    try:
        ends = typestate.run(rf, (), instr, keep=lambda a: True)
    except Undecided as e:
        for r in ('frees-node', 'frees-nothing-else'):
            c.undecided(r, w, e)
        return
    self_ok = True
    other = None
    for i, env, facts, path, st in ends:
        if typestate.known_null(facts, ('arg', 0)):
            continue
        if rejected(rf, facts):
            continue
        n = sum(1 for k, e, _ in st if k == 'free' and e == ('arg', 0))
        if n != 1:
            self_ok = ('the node is freed %d times' % n, pathlines(rf, path))
        for k, e, iid in st:
            if k != 'free' or not (e == ('arg', 0) or e[0] == 'ld' and rooted(e[1])[0] == ('arg', 0) and rooted(e[1])[1] in offs and not rooted(e[1])[2]):
                other = ('something is released that the node does not own (%s)' % rf.loc(iid), pathlines(rf, path))
        for off in offs:
            e = ('ld', ('addr', ('arg', 0), off, ())) if off else ('ld', ('arg', 0))
            k = sum(1 for kk, x, _ in st if kk == 'free' and x == e)
            if k != 1 and not (k == 0 and typestate.known_null(facts, e)):
                c.ob('frees-owned', w, False, key='%s.%d' % (t, off), msg='the memory kept at offset %d of the node is freed %d times' % (off, k), path=pathlines(rf, path))
    for off in offs:
        if not any(v['key'] == 'frees-owned:%s.%d' % (t, off) for v in c.viol):
            c.ob('frees-owned', w + ' offset %d' % off, True)
    c.ob('frees-node', w, self_ok is True, key=t, msg=None if self_ok is True else self_ok[0], path=None if self_ok is True else self_ok[1])
    c.ob('frees-nothing-else', w, other is None, key=t, msg=other and other[0], path=other and other[1])

def rejected(rf, facts):
    """the path on which the argument turned out to be of another type"""
    for a, v in facts.items():
        if a[0] == 'bool' and not v:
            x = instof(a[1])
            if x and x[0] == ('arg', 0):
                return True
    return False

def fld(off):
    return ('ld', ('addr', ('arg', 0), off, ())) if off else ('ld', ('arg', 0))

def driver(c, m, fn, fo, roff, deep):
    w = fn.where()
    ann, kids, nk = fld(fo['annotations']), fld(fo['children']), fld(fo['nchildren'])
    loads = {}
    for i in fn.all('load'):
        loads.setdefault(fn.expr(['i', i['id']]), []).append(i['id'])
    def instr(i, env, facts, st):
        rel, ids, bad, vf, fr, drained = st
        if i['op'] == 'load':
            e = fn.expr(['i', i['id']])
            if e in (kids, nk):
                ids = ids | {i['id']} if not rel else ids
            return (rel, ids, bad, vf, fr, drained)
        if i['op'] == 'call':
            cal = i.get('callee')
            if cal is None:
                tgt = fn.expr(i['fp']) if 'fp' in i else None
                ok = tgt is None or (tgt[0] == 'ld' and rooted(tgt[1])[1] == roff)
                if ok and i['args'] and fn.expr(i['args'][0], env) == ('arg', 0):
                    if not drained:
                        bad = bad | {('annotations-drained', 'the node is released while it may still have annotations', i['id'])}
                    rel += 1
                else:
                    bad = bad | {('release-called', 'an indirect call is not the release function of the node', i['id'])}
                return (rel, ids, bad, vf, fr, drained)
            if cal == 'cypher_ast_vfree':
                a, n = i['args'][0], i['args'][1]
                good = fn.expr(a, env) == kids and fn.expr(n, env) == nk
                if good and rel and not (src(fn, a) <= ids and src(fn, n) <= ids):
                    bad = bad | {('children-released', 'the children are read after the node was released', i['id'])}
                if not good:
                    bad = bad | {('children-released', 'what is freed is not the whole array of children', i['id'])}
                return (rel, ids, bad, vf + 1, fr, drained)
            if cal == 'free':
                e = fn.expr(i['args'][0], env)
                if e == kids:
                    if rel and not src(fn, i['args'][0]) <= ids:
                        bad = bad | {('children-released', 'the array of children is read after the node was released', i['id'])}
                    if fr == 0 and deep and vf == 0:
                        bad = bad | {('children-released', 'the array of children is freed before the children', i['id'])}
                    return (rel, ids, bad, vf, fr + 1, drained)
                bad = bad | {('children-released', 'something else is freed', i['id'])}
                return (rel, ids, bad, vf, fr, drained)
            if cal == 'cp_release_annotation':
                if rel:
                    bad = bad | {('annotations-drained', 'an annotation is released after the node', i['id'])}
                if fn.expr(i['args'][0], env) != ann:
                    bad = bad | {('annotations-drained', 'what is released is not the first annotation of the node', i['id'])}
                return (rel, ids, bad, vf, fr, False)
            if cal in ('cypher_ast_free', 'cypher_astnode_free'):
                return (rel, ids, bad | {('children-released', 'another node is freed', i['id'])}, vf, fr, drained)
        return st
    def edge(s, d, conj, env, facts, st):
        rel, ids, bad, vf, fr, drained = st
        for a, v in conj:
            if v and a == ('cmp', 'eq', ann, ('null',)):
                drained = True
        return (rel, ids, bad, vf, fr, drained)
    def go():
        return typestate.run(fn, (0, frozenset(), frozenset(), 0, 0, False), instr, edge=edge, keep=lambda a: a == ('cmp', 'eq', ('arg', 0), ('null',)))
    try:
        ends = go()
    except Undecided as e:
        for r in ('release-called', 'annotations-drained', 'children-released'):
            c.undecided(r, w, e)
        return
    out = {}
    for i, env, facts, path, st in ends:
        rel, ids, bad, vf, fr, drained = st
        if typestate.known_null(facts, ('arg', 0)):
            if rel or vf or fr:
                out.setdefault('release-called', ('a NULL node is released', path))
            continue
        for r, msg, iid in bad:
            out.setdefault(r, ('%s (%s)' % (msg, fn.loc(iid)), path))
        if rel != 1:
            out.setdefault('release-called', ('the node is released %d times' % rel, path))
        nokids = typestate.known_null(facts, kids) or facts.get(('cmp', 'eq', nk, ('c', 0))) is True
        if fr != 1 and not (fr == 0 and nokids):
            out.setdefault('children-released', ('the array of children is freed %d times' % fr, path))
        if deep and vf != 1 and not (vf == 0 and nokids):
            out.setdefault('children-released', ('the children are freed %d times' % vf, path))
        if not deep and vf:
            out.setdefault('children-released', ('the children of a single node are freed', path))
    for r in ('release-called', 'annotations-drained', 'children-released'):
        x = out.get(r)
        c.ob(r, w, x is None, key=fn.name, msg=x and x[0], path=x and pathlines(fn, x[1]))

def src(fn, r):
    """the loads a value comes from"""
    out, work, seen = set(), [r], set()
    while work:
        x = work.pop()
        if x[0] != 'i' or x[1] in seen:
            continue
        seen.add(x[1])
        i = fn.ins[x[1]]
        if i['op'] == 'load':
            out.add(x[1])
        elif i['op'] == 'phi':
            work += [v for v, b in i['in']]
        elif i['op'] in ('select', 'zext', 'sext', 'trunc', 'bitcast', 'freeze'):
            work += i['args']
    return out

def all_elements(fn, callee, karr, kn):
    """callee is applied to every element of the array argument, whose length is the
    other argument"""
    from fields import elin
    ok = None
    for i in fn.calls(callee):
        it = elem_iteration(fn, i['args'][0], karr)
        if it is None:
            continue
        L, start, stride = it
        cnt = Lin(0, {('arg', kn): 1})
        if stride != 8 or start != Lin(0, {('arg', karr): 1}):
            return ('the loop does not visit consecutive elements from the first', [fn.loc(i)])
        good = set()
        for xb, s in L['exits']:
            for xs in fn.succ[xb]:
                if xs not in L['bset'] and exec_count(fn, L, fn.blk[i['id']], xb) == cnt:
                    good.add((xb, xs))
        zero = zero_exprs(cnt)
        found = []
        def cut(s, d, conj, env, facts):
            if (s, d) in good:
                return True
            return any(v and a[0] == 'cmp' and a[1] == 'eq' and a[3] == ('c', 0) and a[2] in zero for a, v in list(conj) + list(facts.items()))
        def visit(b, env, facts, path):
            if fn.blocks[b][-1]['op'] == 'ret':
                found.append(path)
            return bool(found)
        Paths(fn).explore(visit=visit, cut=cut)
        if found:
            return ('returns without having visited every element', pathlines(fn, found[0]))
        ok = True
    if not ok:
        raise Undecided('no loop over the array found')
    return None

def elem_iteration(fn, r, karr):
    if r[0] != 'i' or fn.ins[r[1]]['op'] != 'load':
        return None
    l = fn.ins[r[1]]
    if not l.get('scev'):
        return None
    a = affine(fn, l['scev'])
    if not a or a[0] is None:
        return None
    return fn.loops[a[0]], a[1], a[2].const()

PROPS = {'A06': A06}
