"""Cloning: every argument of the copy is the same part of the original."""
from fields import *
from memo import spec
from ast_get import base_places, const_like, returns

def load():
    m = lib_module()
    return m, TypeTable(m), spec()

def type_facts(tt, T):
    """cuts branches that contradict self being a node of type T"""
    anc = tt.ancestors(T)
    def contra(conj):
        for a, v in conj:
            x = instof(a[1]) if a[0] == 'bool' else None
            if x and x[0] == ('arg', 0) and x[1][0] == 'c':
                if (tt.names.get(x[1][1] & 0xff) in anc) != v:
                    return True
        return False
    return contra

class Search:
    """Loops that look for the position of a value among the children of self."""
    def __init__(self, fn, base):
        self.fn, self.base = fn, base
        self.kids = ('ld', mkaddr(('arg', 0), base['children'], ()))
        self.found = []           # (loop, phi expr, block, succ on equality, searched expr)
        for b, blk in enumerate(fn.blocks):
            t = blk[-1]
            if t['op'] != 'br' or not t['args']:
                continue
            for truth, s in ((True, t['succ'][0]), (False, t['succ'][1])):
                for conj in fn.atoms(t['args'][0], None, truth):
                    for a, v in conj:
                        if not v or a[0] != 'cmp' or a[1] != 'eq':
                            continue
                        for x, y in ((a[2], a[3]), (a[3], a[2])):
                            if x[0] == 'ld' and x[1][0] == 'addr' and x[1][1] == self.kids and x[1][2] == 0 and len(x[1][3]) == 1:
                                ph = x[1][3][0][0]
                                self.found.append((b, s, ph, y))

        # leaving a search without a match does not happen: the constructors only
        # accept parts that are among the children (A02)
        self.exhausted = set()
        for b, s, ph, y in self.found:
            L = fn.innermost_loop(b)
            if L is None:
                continue
            hit = {(x, t) for x, t, p, q in self.found if x in L['bset']}
            for x in L['bset']:
                for t in fn.succ[x]:
                    if t not in L['bset'] and (x, t) not in hit:
                        self.exhausted.add((x, t))

        nch = ('ld', mkaddr(('arg', 0), base['nchildren'], ()))
        dead = set(self.exhausted)
        if self.found:
            for b, blk in enumerate(fn.blocks):
                t = blk[-1]
                if t['op'] == 'br' and t['args']:
                    for tr, s in ((True, t['succ'][0]), (False, t['succ'][1])):
                        cs = fn.atoms(t['args'][0], None, tr)
                        if cs and all((('cmp', 'eq', nch, ('c', 0)), True) in conj for conj in cs):
                            dead.add((b, s))
        live, work = {0}, [0]
        while work:
            b = work.pop()
            for s in fn.succ[b]:
                if (b, s) not in dead and s not in live:
                    live.add(s)
                    work.append(s)
        self.dead, self.live = dead, live

    def values(self, e, seen=None):
        """what e may be, given that the part looked for is among the children"""
        if e[0] != 'phi' or any(ph == e for b, s, ph, y in self.found):
            return {e}
        seen = set() if seen is None else seen
        if e in seen:
            return set()
        seen.add(e)
        out = set()
        for v, pb in self.fn.ins[e[1]]['in']:
            if pb in self.live and (pb, self.fn.blk[e[1]]) not in self.dead:
                out |= self.values(self.fn.expr(v), seen)
        return out

    def target(self, idx, useblk=None):
        """The value whose position idx is: (expr, None), (None, reason) or Undecided"""
        fn = self.fn
        if idx[0] == 'call' and fn.mod.fn(idx[1]) is not None and len(idx) == 5 and idx[3] == ('arg', 0):
            f = fn.mod.fn(idx[1])
            sub = Search(f, self.base)
            if not sub.found or any(y != ('arg', 1) for b, s, ph, y in sub.found):
                raise Undecided('search by %s is not understood' % idx[1])
            out = []
            for e, path in returns(f, lambda sb, d, conj, env, facts: (sb, d) in sub.exhausted):
                out.append(e)
            hits = [ph for b, s, ph, y in sub.found]
            if all(e in hits for e in out) and all(sub.whole(ph) for ph in hits):
                return idx[4], None
            raise Undecided('search by %s is not understood' % idx[1])
        vals = self.values(idx)
        if len(vals) == 1:
            idx = next(iter(vals))
        hits = [(b, s, ph, y) for (b, s, ph, y) in self.found if ph == idx]
        if not hits:
            if idx[0] == 'c':
                return None, 'takes the child at a fixed position'
            l = elin(idx)
            if any(l == Lin(k, {ph: 1}) for b, s, ph, y in self.found for k in (-1, 1)):
                return None, 'the position found is not the one used'
            raise Undecided('position among the children is not understood')
        good = {y for b, s, ph, y in hits}
        if len(good) > 1:
            raise Undecided('several searches')
        if not self.whole(idx):
            return None, 'the search does not look at every child'
        return good.pop(), None

    def whole(self, ph):
        """the search starts at the first child and advances by one"""
        fn = self.fn
        if ph[0] != 'phi':
            raise Undecided('search is not understood')
        vals = [fn.expr(v) for v, pb in fn.ins[ph[1]]['in']]
        return ('c', 0) in vals and all(v == ('c', 0) or elin(v) == Lin(1, {ph: 1}) for v in vals)

def child_copy(e):
    """index expression if e is an element of the array of copies (argument 1)"""
    if e[0] == 'ld':
        r, off, var = rooted(e[1])
        if r == ('arg', 1):
            if off == 0 and len(var) == 1 and var[0][1] == 8:
                return var[0][0]
            if not var and off % 8 == 0:
                return ('c', off // 8)
    return None

def clone_targets(tt):
    for T, vt in sorted(tt.vt.items()):
        d = tt.desc(vt) if vt else None
        if not d or 'clone' not in d:
            continue
        yield T, vt, d['clone'][1] if d['clone'][0] == 'g' else None

def A05(c):
    m, tt, sp = load()
    c.rule('same-type', 'the clone function of every node type returns a node built by a constructor of that type (or null on failure)', 90)
    c.rule('argument', 'every argument with which the copy is built is the corresponding part of the original: a child is replaced by the copy of '
           'that child, everything else is taken over unchanged; optional parts are absent exactly when absent in the original', 180)
    c.rule('list', 'every element of a list is replaced by the copy of that element, for all elements', 35)
    c.rule('frame', 'the copy gets the copied children, as many children as the original, and the range of the original', 90)
    c.rule('deep', 'cloning a tree clones every child, in order, and hands the copies to the clone function of the type', 4)
    base = base_places(m)
    bytype = {}
    for n, s in sp['ctors'].items():
        bytype.setdefault(s['type'], []).append(n)
    for T, vt, fname in clone_targets(tt):
        if T not in bytype:
            continue                                  # abstract types have no constructor
        if fname is None:
            c.violation('same-type', T, T, 'the type has no clone function')
            continue
        fn = m.fn(fname)
        if fn is None:
            c.undecided('same-type', T, 'clone function %s is not defined here' % fname)
            continue
        c.cover['clone functions'] += 1
        one(c, m, tt, sp, base, T, fn, bytype)
    deep(c, m, tt, base)

def strlen_of(e):
    return e[3] if e[0] == 'call' and e[1] == 'strlen' else None

def one(c, m, tt, sp, base, T, fn, bytype):
    w = '%s clone %s' % (T, fn.loc())
    contra = type_facts(tt, T)
    srch = Search(fn, base)
    calls = {}
    bad = []
    objs = set()
    try:
        for e, path in returns(fn, lambda s, d, conj, env, facts: contra(conj)):
            if e[0] == 'null':
                continue
            if e[0] == 'call' and e[1] in sp['ctors']:
                calls.setdefault(e[2], (e, path))
            elif e[0] == 'call' and e[1] in ('calloc', 'malloc'):
                objs.add(e)
            else:
                raise Undecided('result is not understood')
    except Undecided as e:
        c.undecided('same-type', w, e)
        return
    if objs:
        c.undecided('same-type', w, 'builds the node itself')
        return
    if not calls:
        c.ob('same-type', w, False, key=T, msg='never returns a copy of a node of type %s' % T)
        return
    for cid, (e, path) in calls.items():
        ctor = e[1]
        if sp['ctors'][ctor]['type'] != T:
            c.ob('same-type', w, False, key=T, msg='copies a node of type %s as %s' % (T, sp['ctors'][ctor]['type']), path=pathlines(fn, path))
            return
    c.ob('same-type', w, True, msg='copied by ' + ', '.join(e[1] for e, p in calls.values()))
    for cid, (e0, path0) in calls.items():
        ctor = e0[1]
        s = sp['ctors'][ctor]
        hp = header.cached()[ctor]['params']
        ct, pl = model(m, ctor, sp)
        ci = fn.ins[cid]
        blk = fn.blk[cid]
        nch = ('ld', mkaddr(('arg', 0), base['nchildren'], ()))
        reached = []
        def reaching():
            """the ways to reach the call"""
            if not reached:
                def visit(b, env, facts, path):
                    if b == blk:
                        reached.append((env, dict(facts), path))
                        return True
                    return False
                Paths(fn, keep=lambda a: a[0] == 'cmp' and a[1] == 'eq' and a[3][0] in ('null', 'c') and a[2][0] == 'ld' and rooted(a[2][1])[0] == ('arg', 0)).explore(
                    visit=visit, cut=lambda sb, d, conj, env, facts: contra(conj) or (sb, d) in srch.exhausted)
                if not reached:
                    raise Undecided('call not reached')
            return reached
        def same(e, f, facts):
            e = unbool(e)
            return e == f or e[0] in ('c', 'null') and facts.get(('cmp', 'eq', f, e)) is True
        for k, (pn, pt) in enumerate(hp):
            if pn in ('children', 'nchildren', 'range'):
                continue
            p = s['params'].get(pn)
            if p is None:                     # length of a string
                continue
            wp = '%s argument `%s` of %s %s' % (T, pn, ctor, fn.loc(ci))
            x = pl.get(pn)
            if not isinstance(x, Place):
                c.undecided('argument', wp, 'place of `%s` is not known' % pn)
                continue
            field = ('ld', mkaddr(('arg', 0), x.off, ()))
            key = '%s.%s' % (T, pn)
            if p['kind'] == 'nodes':
                c.attempt('list', wp, lambda: list_arg(m, fn, srch, ci, k, p, pl, x, contra, base, s), key=key)
                continue
            def arg():
                out = [(fn.expr(ci['args'][k], env), facts, path, env) for env, facts, path in reaching()]
                for e, facts, path, env in out:
                    isnull = facts.get(('cmp', 'eq', field, ('null',)))
                    if p['kind'] == 'node' and not p['optional'] and isnull is True:
                        continue              # a required part is never missing: A02
                    if p['kind'] == 'node':
                        if e[0] == 'null':
                            if not p['optional']:
                                return ('the copy is built without its `%s`' % pn, pathlines(fn, path))
                            if isnull is not True:
                                return ('the copy is built without its `%s` although the original has one' % pn, pathlines(fn, path))
                            continue
                        if facts.get(('cmp', 'eq', nch, ('c', 0))) is True:
                            continue                      # a node with this part has children
                        idx = child_copy(e)
                        if idx is None:
                            if e == field:
                                return ('the copy refers to the `%s` of the original' % pn, pathlines(fn, path))
                            if e[0] in ('phi', 'select', 'deep', '?') or e[0] == 'call':
                                raise Undecided('`%s` is not understood' % pn)
                            return ('the `%s` of the copy is not the copy of that of the original' % pn, pathlines(fn, path))
                        y, why = srch.target(idx, blk)
                        if y is None:
                            return ('`%s`: %s' % (pn, why), pathlines(fn, path))
                        if y != field:
                            return ('the `%s` of the copy is the copy of another child (%s)' % (pn, other(pl, y)), pathlines(fn, path))
                        if p['optional'] and isnull is not False:
                            return ('looks for an absent `%s` among the children' % pn, pathlines(fn, path))
                    elif p['kind'] == 'string':
                        want = mkaddr(('arg', 0), x.off, ()) if x.kind == 'inline' else field
                        if e != want:
                            return ('the text of the copy is not that of the original', pathlines(fn, path))
                        ln = fn.expr(ci['args'][[n for n, t in hp].index(p['len'])], env)
                        if strlen_of(ln) != want:
                            if ln[0] == 'ld' and rooted(ln[1])[0] == ('arg', 0):
                                raise Undecided('length is kept in the node')
                            return ('the length of the text of the copy is not that of the original', pathlines(fn, path))
                    else:
                        if not same(e, field, facts):
                            if e[0] in ('phi', 'deep', '?'):
                                raise Undecided('`%s` is not understood' % pn)
                            return ('the `%s` of the copy is not that of the original' % pn, pathlines(fn, path))
            if p['kind'] == 'operators':
                def ops():
                    e = fn.expr(ci['args'][k])
                    want = field if x.kind == 'pointer' else mkaddr(('arg', 0), x.off, ())
                    if e != want:
                        if e[0] == 'call':
                            raise Undecided('`%s` is copied' % pn)
                        return ('the `%s` of the copy are not those of the original' % pn, None)
                c.attempt('argument', wp, ops, key=key)
                continue
            c.attempt('argument', wp, arg, key=key)
        # the frame
        idx = {n: k for k, (n, t) in enumerate(hp)}
        def frame():
            if 'children' in idx:
                if fn.expr(ci['args'][idx['children']]) != ('arg', 1):
                    return ('the copy does not get the copied children', None)
                for env, facts, path in reaching():
                    n = fn.expr(ci['args'][idx['nchildren']], env)
                    if not same(n, nch, facts):
                        if n[0] in ('phi', 'select', '?', 'deep'):
                            raise Undecided('number of children is not understood')
                        return ('the copy does not get as many children as the original', pathlines(fn, path))
            r = fn.expr(ci['args'][idx['range']])
            if not same_range(fn, r, base):
                if r[0] == 'alloca':
                    raise Undecided('range is not understood')
                return ('the copy does not get the range of the original', None)
        c.attempt('frame', '%s frame %s' % (T, fn.loc(ci)), frame, key=T)

def other(pl, y):
    for n, x in pl.items():
        if isinstance(x, Place) and x.kind == 'scalar' and y == ('ld', mkaddr(('arg', 0), x.off, ())):
            return 'its `%s`' % n
    return 'not one of its parts' if y[0] != 'ld' else 'another part'

def resolve_same(fn, e, seen=None):
    """a phi whose sources are all the same load"""
    if e[0] != 'phi':
        return e
    seen = seen or set()
    if e in seen:
        return None
    seen.add(e)
    vals = set()
    for v, b in fn.ins[e[1]]['in']:
        r = resolve_same(fn, fn.expr(v), seen)
        if r is not None:
            vals.add(r)
    return vals.pop() if len(vals) == 1 else e

def same_range(fn, r, base, depth=0):
    if r == mkaddr(('arg', 0), base['range'], ()):
        return True
    if r[0] == 'alloca' and depth < 5:
        src = [fn.expr(i['args'][1]) for i in fn.all('call') if i.get('callee') in MEMCPY and fn.expr(i['args'][0]) == r]
        return len(src) == 1 and same_range(fn, src[0], base, depth + 1)
    return False

def list_arg(m, fn, srch, ci, k, p, pl, x, contra, base, s):
    """the array handed over holds the copies of all elements"""
    arr = fn.expr(ci['args'][k])
    cp = pl.get(p['count'])
    if not isinstance(cp, Place):
        raise Undecided('place of the count is not known')
    cnt = Lin(p.get('plus', 0), {('ld', mkaddr(('arg', 0), cp.off, ())): p.get('mult', 1)})
    zero = zero_exprs(cnt)
    arrs = leaves(fn, arr)
    arrs = {a for a in arrs if a[0] != 'null'}
    if len(arrs) != 1:
        raise Undecided('array is not understood')
    arr = arrs.pop()
    blk = fn.blk[ci['id']]
    if arr[0] == 'call' and arr[1] not in ALLOC:
        raise Undecided('array is made elsewhere')
    if arr == ('ld', mkaddr(('arg', 0), x.off, ())) or arr == mkaddr(('arg', 0), x.off, ()):
        return 'the list of the copy refers to the elements of the original', None
    srcfield = 'inline' if x.kind == 'inline' else 'pointer'
    good, reason = set(), None
    und = None
    for i in fn.all('store'):
        st = affine(fn, i['scev']) if i.get('scev') else None
        r, off, var = rooted(fn.expr(i['args'][1]))
        if r != arr and not (st and st[1].t.get(arr) == 1):
            continue
        v = fn.expr(i['args'][0])
        idx = child_copy(v)
        if idx is None:
            for lf in leaves(fn, v):
                if lf[0] == 'ld' and child_copy(lf) is not None:
                    und = 'element is not understood'
            reason = 'an element of the list is not the copy of a child'
            continue
        if not st or st[0] is None or st[2].const() != 8 or st[1].t != {arr: 1}:
            k = [strides(fn, y) for y, sz in var if sz == 8] if r == arr else []
            if len(var) == 1 and k and k[0] not in (None, 1) or st and st[0] is not None and (st[2].const() or 0) > 8 and st[1].t == {arr: 1} and st[1].c == 0 and \
                    1 == sum(1 for j in fn.all('store') if rooted(fn.expr(j['args'][1]))[0] == arr or j.get('scev') and (affine(fn, j['scev']) or [0, Lin(0)])[1].t.get(arr) == 1):
                reason = 'elements of the list are left out'
                continue
            und = 'store is not understood'
            continue
        y, why = srch.target(idx, fn.blk[i['id']])
        if y is None:
            reason = why
            continue
        start = st[1].c
        # y: element of the original's list at the same position
        ok = False
        for l in fn.all('load'):
            if fn.expr(['i', l['id']]) != y:
                continue
            la = affine(fn, l['scev']) if l.get('scev') else None
            if not la or la[0] != st[0]:
                continue
            want = Lin(x.off + start, {('arg', 0): 1}) if x.kind == 'inline' else Lin(start, {('ld', mkaddr(('arg', 0), x.off, ())): 1})
            if la[1] == want and la[2].const() == 8:
                ok = True
        if not ok:
            reason = 'an element of the list is the copy of something else than the element at the same position'
            continue
        L = fn.loops[st[0]]
        for xb, sc in L['exits']:
            for xs in fn.succ[xb]:
                if xs in L['bset']:
                    continue
                n = exec_count(fn, L, fn.blk[i['id']], xb)
                if n is None:
                    continue
                if start == 0 and n == cnt:
                    good.add((xb, xs))
                else:
                    reason = '%r elements are copied, %r expected' % (n, cnt)
    found = []
    def cut(sb, d, conj, env, facts):
        if contra(conj) or (sb, d) in good:
            return True
        return says_zero(cnt, list(conj) + list(facts.items()))
    def visit(b, env, facts, path):
        if b == blk:
            found.append(path)
            return True
        return bool(found)
    Paths(fn).explore(visit=visit, cut=cut)
    if found:
        if reason:
            return reason, pathlines(fn, found[0])
        if und or good:
            raise Undecided(und or 'path around the loop')
        return 'the list of the copy is not filled', pathlines(fn, found[0])
    return None

def strides(fn, e):
    """the step of a counter that starts at 0"""
    while e[0] in ('zext', 'sext'):
        e = e[1]
    if e[0] != 'phi' or not any(l['header'] == fn.blk[e[1]] for l in fn.loops.values()):
        return None
    L = [l for l in fn.loops.values() if l['header'] == fn.blk[e[1]]][0]
    k = None
    for v, b in fn.ins[e[1]]['in']:
        x = fn.expr(v)
        if b not in L['bset']:
            if x != ('c', 0):
                return None
        elif x[0] == 'add' and len(x) == 3 and e in x[1:]:
            y = x[1] if x[2] == e else x[2]
            if y[0] != 'c':
                return None
            k = y[1]
        else:
            return None
    return k

def leaves(fn, e, seen=None):
    seen = seen if seen is not None else set()
    if e in seen:
        return set()
    seen.add(e)
    if e[0] == 'phi':
        out = set()
        for v, b in fn.ins[e[1]]['in']:
            out |= leaves(fn, fn.expr(v), seen)
        return out
    if e[0] == 'select':
        return leaves(fn, e[2], seen) | leaves(fn, e[3], seen)
    return {e}

def deep(c, m, tt, base):
    vc, cl = m.fn('cypher_ast_vclone'), m.fn('cypher_ast_clone')
    c.anchor(cl is not None, 'cypher_ast_clone')
    w = 'cypher_ast_clone ' + cl.loc()
    st = m.structs.get('cypher_astnode_vt')
    slot = next((x['o'] for x in st['m'] if x['n'] == 'clone'), None) if st else None
    nch = ('ld', mkaddr(('arg', 0), base['nchildren'], ()))
    kids = ('ld', mkaddr(('arg', 0), base['children'], ()))
    def dispatch():
        """the call through the type's table, with self and the copies"""
        hits = []
        for i in cl.all('call'):
            if 'fp' not in i:
                continue
            f = cl.expr(i['fp'])
            if f[0] == 'ld' and f[1][0] == 'addr' and f[1][2] == slot and f[1][1][0] == 'ld':
                hits.append((i, f[1][1][1]))
        if len(hits) != 1:
            raise Undecided('%d dispatches' % len(hits))
        i, tab = hits[0]
        r, off, var = rooted(tab)
        ty = ('ld', mkaddr(('arg', 0), base['type'], ()))
        if r != ('g', tt.table['name']) or off != 0 or len(var) != 1 or var[0] != (ty, 8):
            return ('does not use the clone function of the node\'s own type', [cl.loc(i)])
        if cl.expr(i['args'][0]) != ('arg', 0):
            return ('does not hand over the node', [cl.loc(i)])
        a = leaves(cl, cl.expr(i['args'][1]))
        vcs = [x for x in a if x[0] == 'call' and x[1] == 'cypher_ast_vclone']
        rest = [x for x in a if x not in vcs and x[0] != 'null']
        if rest or not vcs:
            raise Undecided('copies of the children are made elsewhere')
        for x in vcs:
            if x[3] != kids or x[4] != nch:
                return ('does not copy all children', [cl.loc(x[2])])
        # null only when there are no children
        blk = cl.blk[i['id']]
        bad = []
        def cut(sb, d, conj, env, facts):
            return any(v and x == ('cmp', 'eq', nch, ('c', 0)) for x, v in list(conj) + list(facts.items()))
        def visit(b, env, facts, path):
            if b == blk:
                if cl.expr(i['args'][1], env)[0] == 'null':
                    bad.append(path)
                return True
            return False
        Paths(cl).explore(visit=visit, cut=cut)
        if bad:
            return ('copies a node with children without copying the children', pathlines(cl, bad[0]))
        return None
    c.attempt('deep', w, dispatch, key='dispatch')
    def result():
        for e, path in returns(cl, lambda *a: False):
            if e[0] == 'null':
                continue
            if not (e[0] == 'call' and 'fp' in cl.ins.get(e[2], {})):
                raise Undecided('result is not understood')
    c.attempt('deep', w + ' result', result, key='result')
    if vc is not None:
        def vclone():
            good = set()
            arr = {e for e, p in returns(vc, lambda *a: False) if e[0] != 'null'}
            if len(arr) != 1:
                raise Undecided('result of cypher_ast_vclone')
            arr = arr.pop()
            reason = None
            for i in vc.all('store'):
                st = affine(vc, i['scev']) if i.get('scev') else None
                v = vc.expr(i['args'][0])
                if not st or st[0] is None or st[1] != Lin(0, {arr: 1}) or st[2].const() != 8:
                    continue
                if not (v[0] == 'call' and v[1] == 'cypher_ast_clone'):
                    continue
                ok = False
                for l in vc.all('load'):
                    if vc.expr(['i', l['id']]) == v[3]:
                        la = affine(vc, l['scev']) if l.get('scev') else None
                        if la and la[0] == st[0] and la[1] == Lin(0, {('arg', 0): 1}) and la[2].const() == 8:
                            ok = True
                if not ok:
                    reason = 'the copies are not in the order of the originals'
                    continue
                L = vc.loops[st[0]]
                for xb, sc in L['exits']:
                    for xs in vc.succ[xb]:
                        if xs not in L['bset'] and exec_count(vc, L, vc.blk[i['id']], xb) == Lin(0, {('arg', 1): 1}):
                            good.add((xb, xs))
            bad = []
            def cut(sb, d, conj, env, facts):
                return (sb, d) in good
            def visit(b, env, facts, path):
                t = vc.blocks[b][-1]
                if t['op'] == 'ret' and vc.expr(t['args'][0], env)[0] != 'null':
                    bad.append(path)
                return False
            Paths(vc).explore(visit=visit, cut=cut)
            if bad:
                if not good and not reason:
                    raise Undecided('loop of cypher_ast_vclone')
                return (reason or 'not every element is copied', pathlines(vc, bad[0]))
        c.attempt('deep', 'cypher_ast_vclone ' + vc.loc(), vclone, key='vclone')
        def vfail():
            """a failed copy of an element makes the whole fail"""
            bad = []
            def cut(sb, d, conj, env, facts):
                return any((not v) and a[0] == 'cmp' and a[1] == 'eq' and a[3][0] == 'null' and a[2][0] == 'call' and a[2][1] == 'cypher_ast_clone' for a, v in conj)
            return None
        c.attempt('deep', 'cypher_ast_vclone failure ' + vc.loc(), lambda: failed_element(vc), key='vclone-fail')

def failed_element(vc):
    bad = []
    state = {}
    # after the edge "copy of an element is null", a non-null result must not be reachable
    edges = []
    for b, blk in enumerate(vc.blocks):
        t = blk[-1]
        if t['op'] == 'br' and t['args']:
            for tr, s in ((True, t['succ'][0]), (False, t['succ'][1])):
                for conj in vc.atoms(t['args'][0], None, tr):
                    for a, v in conj:
                        if v and a[0] == 'cmp' and a[1] == 'eq' and a[3][0] == 'null' and a[2][0] == 'call' and a[2][1] == 'cypher_ast_clone':
                            edges.append((b, s))
    if not edges:
        return ('a failure to copy an element is not noticed', None)
    for b, s in edges:
        def visit(bb, env, facts, path):
            t = vc.blocks[bb][-1]
            if t['op'] == 'ret' and vc.expr(t['args'][0], env)[0] not in ('null', 'phi'):
                bad.append(path)
            return False
        # resolve phis of s from b
        env = {}
        for i in vc.blocks[s]:
            if i['op'] == 'phi':
                for v, pb in i['in']:
                    if pb == b:
                        env[i['id']] = v
        Paths(vc).explore(visit=visit, start=s, env0=env)
    if bad:
        return ('a failure to copy an element is ignored', pathlines(vc, bad[0]))

PROPS = {'A05': A05}
