"""The type table: which node type is which, and what it is an instance of."""
import os
from fields import *
from memo import spec
from ast_get import returns

def A01(c):
    m = lib_module()
    tt = TypeTable(m)
    sp, ty = spec(), spec('types')
    c.rule('number', 'every declared node type has a number of its own that selects an entry of the type table', 110)
    c.rule('name', 'the entry that a type selects carries the name of that type', 90)
    c.rule('instance', 'a type is an instance of exactly itself and the types it is documented to be an instance of', 110)
    c.rule('lookup', 'type, name and instance queries read the entry of the node\'s own type and search all parents', 6)
    c.rule('operations', 'every type of which nodes can be built can be described, copied and released', 290)
    c.rule('build', 'a constructor makes nodes of a type that can be built', 90)
    c.anchor(tt.table is not None, 'the table of node types')
    hd = open(os.path.join(front.REPO, 'lib/src/cypher-parser.h.in')).read()
    decl = re.findall(r'extern\s+const\s+cypher_astnode_type_t\s+(CYPHER_AST_\w+)\s*;', hd)
    c.anchor(decl, 'declared node types')
    seen = {}
    for T in decl:
        n = tt.types.get(T)
        if n is None:
            c.ob('number', T, False, key=T, msg='%s is declared but has no constant value' % T)
            continue
        if n in seen:
            c.ob('number', T, False, key=T, msg='%s has the number of %s' % (T, seen[n]))
            continue
        seen[n] = T
        c.ob('number', T, tt.vt.get(T) is not None, key=T, msg='%s selects no entry of the type table' % T)
    for T, s in sorted(ty.items()):
        vt = tt.vt.get(T)
        d = tt.desc(vt) if vt else None
        if T not in decl:
            c.ob('number', T, False, key=T, msg='%s is no longer declared' % T)
            continue
        if d is None:
            continue
        if not s['abstract']:
            c.ob('name', T, m.gstr(d['name']) == s['typestr'], key=T, msg='%s has the name %r' % (T, m.gstr(d['name'])))
        got = tt.ancestors(T) - {T}
        want = set(s['isa'])
        c.ob('instance', T, got == want, key=T, msg='%s %s' % (T, '; '.join((['is not an instance of ' + ', '.join(sorted(want - got))] if want - got else [])
             + (['is an instance of ' + ', '.join(sorted(got - want))] if got - want else []))) if got != want else 'instance of %s' % (sorted(got) or 'itself only'))
        g = m.globals.get(d['parents'][1]) if d['parents'][0] == 'g' else None
        np = d['nparents'][1] if d['nparents'][0] == 'c' else 0
        have = len(tt.parents(vt))
        if np > have:
            c.ob('instance', T + ' parents', False, key=T + ':parents', msg='%s: %d parents are read, %d are there' % (T, np, have))
    # types not in the specification: only structural obligations
    built = {s['type'] for s in sp['ctors'].values()}
    for T in sorted(tt.types):
        d = tt.desc(tt.vt[T]) if tt.vt.get(T) else None
        if d is None or (T not in built):
            continue
        for k, what in (('detailstr', 'described'), ('clone', 'copied'), ('release', 'released')):
            c.ob('operations', '%s %s' % (T, k), d[k][0] == 'g', key='%s.%s' % (T, k), msg='nodes of type %s cannot be %s' % (T, what) if d[k][0] != 'g' else k)
    for n, s in sorted(sp['ctors'].items()):
        T = s['type']
        vt = tt.vt.get(T)
        c.ob('build', n, vt is not None, key=n, msg='%s builds nodes of type %s' % (n, T))
    lookup(c, m, tt)

def lookup(c, m, tt):
    st = {x['n']: x['o'] for x in m.structs['cypher_astnode']['m']}
    vs = {x['n']: x['o'] for x in m.structs['cypher_astnode_vt']['m']}
    tab = ('g', tt.table['name'])
    def slot(tx):
        return ('ld', mkaddr(tab, 0, ((tx, 8),)))
    ntype = ('ld', mkaddr(('arg', 0), st['type'], ()))
    def fn(n):
        f = m.fn(n)
        c.anchor(f is not None, n)
        return f
    ft = fn('cypher_astnode_type')
    def type_():
        r = set()
        for e, path in returns(ft, lambda *a: False):
            r.add(e)
        if ntype not in r:
            return ('cypher_astnode_type does not return the type of the node', [ft.loc()])
        if any(e[0] == 'ld' and e != ntype for e in r):
            return ('cypher_astnode_type returns something else than the type of the node', [ft.loc()])
    c.attempt('lookup', 'cypher_astnode_type ' + ft.loc(), type_, key='type')
    fs = fn('cypher_astnode_typestr')
    def typestr():
        want = ('ld', mkaddr(slot(('arg', 0)), vs['name'], ()))
        bad = []
        n = 0
        for e, path in returns(fs, lambda *a: False):
            if e[0] == 'null':
                continue
            if e == want:
                n += 1
            elif e[0] in ('phi', 'select', 'call', 'deep', '?'):
                raise Undecided('result is not understood')
            else:
                bad.append(path)
        if bad:
            return ('the name is not that of the type', pathlines(fs, bad[0]))
        if not n:
            return ('never returns a name', [fs.loc()])
    c.attempt('lookup', 'cypher_astnode_typestr ' + fs.loc(), typestr, key='typestr')
    # every number is accepted
    def accepted(f, arg):
        nslots = len(tt.slots)
        for b, blk in enumerate(f.blocks):
            t = blk[-1]
            if t['op'] != 'br' or not t['args']:
                continue
            for conj in f.atoms(t['args'][0], None, True):
                for a, v in conj:
                    if a[0] == 'cmp' and a[1] in ('ult', 'slt') and (a[2] == arg and a[3][0] == 'c' or a[3] == arg and a[2][0] == 'c'):
                        k = a[3][1] if a[2] == arg else a[2][1] + 1
                        k &= 0xff if k < 0 else 0xffff
                        if k != nslots:
                            return ('types from number %d on are %s, the table has %d' % (k, 'refused' if k < nslots else 'accepted', nslots), [f.loc(t)])
                    if a[0] == 'bool':
                        pass
    c.attempt('lookup', 'cypher_astnode_typestr range ' + fs.loc(), lambda: accepted(fs, ('arg', 0)), key='typestr-range')
    fi = fn('cypher_astnode_instanceof')
    c.attempt('lookup', 'cypher_astnode_instanceof range ' + fi.loc(), lambda: accepted(fi, ('arg', 1)) or accepted(fi, ntype), key='instanceof-range')
    rec = [n for n in m.raw if m.raw[n]['internal'] and any(i.get('callee') == n for b in m.raw[n]['blocks'] for i in b) and len(m.raw[n]['params']) == 2
           and any(i.get('callee') == n for i in fi.all('call'))]
    def inst():
        if len(rec) != 1:
            raise Undecided('search is not understood')
        calls = [i for i in fi.all('call') if i.get('callee') == rec[0]]
        ok = 0
        for i in calls:
            a = [fi.expr(x) for x in i['args']]
            if a == [slot(ntype), slot(('arg', 1))]:
                ok += 1
            elif all(x[0] == 'ld' and rooted(x[1])[0] == tab for x in a):
                return ('the entries compared are not those of the node and of the type asked for', [fi.loc(i)])
            else:
                raise Undecided('search is not understood')
        for e, path in returns(fi, lambda *a: False):
            x = unbool(e)
            if x[0] == 'call' and x[1] == rec[0]:
                continue
            if x == ('c', 0):
                continue
            if x[0] == 'c':
                return ('a node is an instance of a type without being compared with it', pathlines(fi, path))
            raise Undecided('result is not understood')
    c.attempt('lookup', 'cypher_astnode_instanceof ' + fi.loc(), inst, key='instanceof')
    def inst_null():
        """only a missing node, or a number out of range, is refused without a search"""
        bad = []
        calls = {fi.blk[i['id']] for i in fi.all('call') if i.get('callee') in rec}
        def cut(sb, d, conj, env, facts):
            for a, v in conj:
                if a == ('cmp', 'eq', ('arg', 0), ('null',)) and v:
                    return True
                if a[0] == 'cmp' and a[1] in ('ult', 'slt', 'uge') and any(x in (ntype, ('arg', 1)) for x in a[2:4]):
                    # refusals
                    if (a[2] in (ntype, ('arg', 1)) and not v) or (a[3] in (ntype, ('arg', 1)) and v):
                        return True
            return False
        def visit(b, env, facts, path):
            if b in calls:
                return True
            if fi.blocks[b][-1]['op'] == 'ret':
                bad.append(path)
            return False
        if not calls:
            raise Undecided('search is not understood')
        Paths(fi).explore(visit=visit, cut=cut)
        if bad:
            return ('a node is said not to be an instance without looking', pathlines(fi, bad[0]))
    c.attempt('lookup', 'cypher_astnode_instanceof refusals ' + fi.loc(), inst_null, key='instanceof-null')
    if len(rec) == 1:
        fr = m.fn(rec[0])
        same = ('cmp', 'eq', ('arg', 0), ('arg', 1))
        pa, np = ('ld', mkaddr(('arg', 0), vs['parents'], ())), ('ld', mkaddr(('arg', 0), vs['nparents'], ()))
        def search():
            good = set()
            reason = None
            rcalls = [i for i in fr.all('call') if i.get('callee') == rec[0]]
            for i in rcalls:
                if fr.expr(i['args'][1]) != ('arg', 1):
                    return ('the search goes on for another type', [fr.loc(i)])
                a = i['args'][0]
                ld = fr.ins.get(a[1]) if a[0] == 'i' else None
                st_ = affine(fr, ld['scev']) if ld and ld.get('scev') else None
                if not st_ or st_[0] is None:
                    raise Undecided('search is not understood')
                if st_[2].const() != 8 or st_[1] != Lin(0, {pa: 1}):
                    reason = 'not every parent is searched'
                    continue
                L = fr.loops[st_[0]]
                for xb, s in L['exits']:
                    for xs in fr.succ[xb]:
                        if xs not in L['bset']:
                            n = exec_count(fr, L, fr.blk[i['id']], xb)
                            if n == Lin(0, {np: 1}):
                                good.add((xb, xs))
                            elif n is not None:
                                reason = '%r parents are searched' % n
            bad = []
            def edge_true(conj):
                for a, v in conj:
                    if a[0] == 'bool' and a[1][0] == 'call' and a[1][1] == rec[0] and v:
                        return True
                    if a == same and v:
                        return True
                return False
            def cut(sb, d, conj, env, facts):
                if edge_true(conj):
                    return True
                if (sb, d) in good:
                    return True
                return any(v and a == ('cmp', 'eq', np, ('c', 0)) for a, v in conj)
            def visit(b, env, facts, path):
                if fr.blocks[b][-1]['op'] == 'ret':
                    bad.append(path)
                return False
            Paths(fr).explore(visit=visit, cut=cut)
            if bad:
                if not good and reason is None:
                    raise Undecided('search is not understood')
                return (reason or 'the search ends without looking at every parent', pathlines(fr, bad[0]))
            # a match is reported
            for b, blk in enumerate(fr.blocks):
                t = blk[-1]
                if t['op'] != 'br' or not t['args']:
                    continue
                for tr, s in ((True, t['succ'][0]), (False, t['succ'][1])):
                    for conj in fr.atoms(t['args'][0], None, tr):
                        if edge_true(conj):
                            env = {}
                            for i in fr.blocks[s]:
                                if i['op'] == 'phi':
                                    for v, pb in i['in']:
                                        if pb == b:
                                            env[i['id']] = v
                            out = []
                            def visit3(bb, en, facts, path):
                                tt_ = fr.blocks[bb][-1]
                                if tt_['op'] == 'ret':
                                    out.append((unbool(fr.expr(tt_['args'][0], en)), path))
                                return False
                            Paths(fr).explore(visit=visit3, start=s, env0=env)
                            for e, path in out:
                                if e == ('c', 0):
                                    return ('a match is not reported', pathlines(fr, path))
        c.attempt('lookup', '%s %s' % (fr.src, fr.loc()), search, key='search')

PROPS = {'A01': A01}
