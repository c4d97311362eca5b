"""Constructors: what a caller has to supply, and what happens otherwise."""
import json, os
import front, header
from astmodel import *
from memo import spec

def load():
    m = lib_module()
    return m, TypeTable(m), spec()

def count_lin(fn, sp, p):
    c = fn_param(fn, p['count'], sp)
    l = Lin(p.get('plus', 0), {('arg', c): p.get('mult', 1)})
    return l

def fn_param(fn, name, sp=None):
    """Position of the parameter: by the header's name."""
    h = header.cached()
    for k, (n, t) in enumerate(h[fn.name]['params']):
        if n == name:
            return k
    return None

def A02(c):
    m, tt, sp = load()
    c.rule('arg-type', 'on every path on which the constructor returns a node, each node argument has been tested to be an instance '
           'of the documented type (or is null where null is allowed)', 120)
    c.rule('arg-child', 'on every path on which the constructor returns a node, each node argument has been compared equal to an element '
           'of the children array (or is null where null is allowed)', 120)
    c.rule('null-allowed', 'an argument documented as optional may be null', 20)
    c.rule('list-type', 'on success every element of a list argument has been tested to be an instance of the documented type', 30)
    c.rule('list-child', 'on success every element of a list argument has been compared equal to an element of the children array', 30)
    c.rule('count', 'a list documented to be non-empty (or odd, or present) is checked on every successful path', 18)
    c.rule('reject-errno', 'a path that returns null without a failed allocation has stored EINVAL in errno', 80)
    c.rule('accept', 'an argument list within the documented requirements is not rejected by a test on anything else: every test that leads '
           'to rejection is one of the documented requirements', 80)
    fns = {f.name: f for f in ctors(m)}
    for name, s in sp['ctors'].items():
        f = fns.get(name)
        if f is None:
            c.violation('arg-type', name, name, 'the documented constructor is not defined')
            continue
        c.cover['constructors'] += 1
        V = Validation(m, f, tt)
        if V.kids is None and len(f.params) >= 3:
            V.kids, V.nkids = len(f.params) - 3, len(f.params) - 2
        hp = header.cached()[name]['params']
        V.kids = [k for k, (n, t) in enumerate(hp) if n == 'children'][0] if any(n == 'children' for n, t in hp) else V.kids
        for pn, p in s['params'].items():
            k = fn_param(f, pn)
            w = '%s(%s) %s' % (name, pn, f.loc())
            if p['kind'] == 'node':
                def ty():
                    r = V.check_scalar_type(k, p['types'], p['optional'])
                    return r and ('accepts a `%s` that has not been tested to be %s' % (pn, ' or '.join(p['types'])), pathlines(f, r[0]))
                def mem():
                    if V.kids is None:
                        raise Undecided('no children parameter')
                    r = V.check_scalar_member(k, p['optional'])
                    return r and ('accepts a `%s` that is not one of the children' % pn, pathlines(f, r[0]))
                if unseen(f, ('arg', k)):
                    c.undecided('arg-type', w, 'argument is handed to a function that is not analysed in place')
                    continue
                c.attempt('arg-type', w, ty, key='%s.%s' % (name, pn))
                c.attempt('arg-child', w, mem, key='%s.%s' % (name, pn))
                if p['optional']:
                    c.attempt('null-allowed', w, lambda: None if V.null_accepted(k) else ('rejects a null `%s`' % pn, None), key='%s.%s' % (name, pn))
            elif p['kind'] == 'nodes':
                cl = count_lin(f, s, p)
                nres = len(p['types'])
                array_rules(c, V, f, name, pn, k, p, cl, s)
            if p['kind'] in ('node', 'nodes'):
                c.cover['node arguments'] += 1
        for pn in s.get('nonzero', []):
            k = fn_param(f, pn)
            c.attempt('count', '%s(%s) %s' % (name, pn, f.loc()), lambda: nonzero(V, f, k, pn), key='%s.%s' % (name, pn))
        for pn in s.get('odd', []):
            k = fn_param(f, pn)
            c.attempt('count', '%s(%s) %s' % (name, pn, f.loc()), lambda: odd(V, f, k, pn), key='%s.%s' % (name, pn))
        for pn in s.get('nonnull', []):
            k = fn_param(f, pn)
            c.attempt('count', '%s(%s) %s' % (name, pn, f.loc()), lambda: nonnull(V, f, k, pn), key='%s.%s.null' % (name, pn))
        if s.get('either'):
            a, b = [fn_param(f, x) for x in s['either']]
            c.attempt('count', '%s(%s) %s' % (name, s['either'], f.loc()), lambda: either(V, f, a, b, s['either']), key='%s.either' % name)
        c.attempt('reject-errno', '%s %s' % (name, f.loc()), lambda: reject_errno(f), key=name)
        c.attempt('accept', '%s %s' % (name, f.loc()), lambda: accept(c, m, V, f, s), key=name)

def unseen(f, v):
    """v is handed to a call that is neither analysed nor known."""
    for i in f.all('call'):
        if (i.get('callee') or '').startswith(('llvm.', 'cypher_astnode_')):
            continue
        for a in i['args']:
            if f.expr(a) == v:
                return True
    return False

def elems_unseen(V, f, k):
    """elements (or the array itself) are handed to something not analysed"""
    for i in f.all('call'):
        cal = i.get('callee') or ''
        if cal.startswith(('llvm.', 'cypher_astnode_')) or cal in ('mdup', 'memcpy', 'memmove', 'cypher_ast_pair_map', 'cypher_ast_map'):
            continue
        for a in i['args']:
            e = f.expr(a)
            if any(x == ('arg', k) for x in walk(e)):
                return True
    return False

def array_rules(c, V, f, name, pn, k, p, cl, s):
    w = '%s(%s) %s' % (name, pn, f.loc())
    nres = len(p['types'])
    # a constructor that delegates the whole work
    if elems_unseen(V, f, k):
        c.undecided('list-type', w, 'list handed to a function that is not analysed in place')
        return
    def understood():
        """every loop that looks at elements of the list has been understood"""
        for e, ins in V.loads.items():
            for i in ins:
                if not any(x == ('arg', k) for x in walk(e)) and not scev_mentions(f, i, k):
                    continue
                if not V.elem_of(e, k):
                    L = f.innermost_loop(f.blk[i['id']])
                    it = f.iteration(i)
                    if L is not None and (it is None or it[0] is None):
                        return False
        return True
    def chk(kind):
        def run():
            def members():
                m = lambda a, e: V.member_atom(a, e)
                r, pr = V.check_array(k, cl, m)
                return r and 'accepts a `%s` whose elements have not all been found among the children' % pn, r, pr
            if kind == 'child':
                msg, r, pr = members()
            else:
                r = None
                if nres == 1:
                    ts = p['types'][0]
                    m = lambda a, e: typed(V, a, e, ts)
                    r, pr = V.check_array(k, cl, m)
                    msg = 'accepts a `%s` whose elements have not all been tested to be %s' % (pn, ' or '.join(ts))
                else:
                    # alternating types: a test against a selection that follows the parity,
                    # or one test per residue
                    m = lambda a, e: alternating(V, f, a, e, k, p['types'])
                    r, pr = V.check_array(k, cl, m)
                    msg = 'accepts a `%s` whose elements have not all been tested to be alternately %s' % (pn, ' and '.join('/'.join(t) for t in p['types']))
                    if r:
                        ok = True
                        for off, ts in enumerate(p['types']):
                            n = Lin(0, {('arg', fn_param(f, p['count'], s)): 1}) if p.get('mult') == nres else None
                            if n is None:
                                ok = False
                                break
                            m2 = lambda a, e: typed(V, a, e, ts)
                            r2, pr2 = V.check_array(k, n, m2, off, nres)
                            pr = pr + pr2
                            if r2:
                                ok = False
                                r = r2
                                break
                        if ok:
                            r = None
                        elif not p.get('mult') and not any(True for _ in pr):
                            pass
            if r:
                if not understood():
                    raise Undecided('a loop over the list is not understood')
                return msg, pathlines(f, r[0])
            return None
        return run
    def child2():
        try:
            return chk('child')()
        except Undecided:
            raise
    def childres():
        r = chk('child')()
        if r is None or nres == 1 or not p.get('mult'):
            return r
        n = Lin(0, {('arg', fn_param(f, p['count'], s)): 1})
        for off in range(nres):
            r2, _ = V.check_array(k, n, lambda a, e: V.member_atom(a, e), off, nres)
            if r2:
                return r
        return None
    c.attempt('list-type', w, chk('type'), key='%s.%s' % (name, pn))
    c.attempt('list-child', w, childres, key='%s.%s' % (name, pn))

def scev_mentions(f, i, k):
    s = i.get('scev')
    def has(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == 'a' and x[1] == k:
                return True
            return any(has(y) for y in x)
        return False
    return has(s) if s else False

def typed(V, a, e, ts):
    if a[0] == 'bool':
        t = V.type_atom(a, e)
        return bool(t) and 'select' not in t and all(V.below(x, ts) for x in t)
    return False

def alternating(V, f, a, e, k, types):
    """instanceof(e, select(parity of the index, ...)) with the right polarity, or a test on
    a value that is phi-selected by parity"""
    x = instof(a[1]) if a[0] == 'bool' else None
    if not x or x[0] != e:
        return False
    t = x[1]
    if t[0] != 'select':
        return False
    want = [types[0], types[1]]
    cond, tv, fv = t[1], t[2], t[3]
    if tv[0] != 'c' or fv[0] != 'c':
        return False
    par = parity(V, f, cond, e, k)
    if par is None:
        raise Undecided('selection of the element type is not understood')
    tn, fnn = V.tt.names.get(tv[1] & 0xff), V.tt.names.get(fv[1] & 0xff)
    even, oddt = (tn, fnn) if par == 'even' else (fnn, tn)
    return V.below(even, want[0]) and V.below(oddt, want[1])

def parity(V, f, cond, e, k):
    """'even'/'odd' if cond says that the index of element e is even/odd."""
    pol = True
    if cond[0] == 'xor':
        for a, b in ((cond[1], cond[2]), (cond[2], cond[1])):
            if b[0] == 'c' and b[1] in (1, -1):
                cond = a
                pol = not pol
                break
    if cond[0] == 'cmp' and cond[1] in ('eq', 'ne') and cond[3] == ('c', 0):
        x = cond[2]
        if cond[1] == 'ne':
            pol = not pol
    else:
        x = cond
        pol = not pol                # "x & 1" itself: true when odd
    idx = None
    if x[0] == 'and' and ('c', 1) in x[1:]:
        idx = x[1] if x[2] == ('c', 1) else x[2]
    elif x[0] == 'urem' and x[2] == ('c', 2):
        idx = x[1]
    elif x[0] not in ('and', 'urem'):
        idx = x          # trunc of the index to one bit
    if idx is None:
        return None
    # is idx the index used for e?
    if e[0] == 'ld':
        a = e[1]
        if a[0] == 'addr' and a[1] == ('arg', k) and a[2] == 0 and len(a[3]) == 1 and a[3][0][1] == 8 and a[3][0][0] == idx:
            return 'even' if pol else 'odd'
    return None

def nonzero(V, f, k, pn):
    def cut(s, d, conj, env, facts):
        return any((not v) and a == ('cmp', 'eq', ('arg', k), ('c', 0)) for a, v in list(conj) + list(facts.items()))
    r = V.succeeds(cut)
    return r and ('accepts `%s` equal to zero' % pn, pathlines(f, r[0]))

def odd(V, f, k, pn):
    def par(x):
        return (x[0] == 'and' and ('c', 1) in x[1:] and ('arg', k) in x[1:]) or (x[0] == 'urem' and x[1] == ('arg', k) and x[2] == ('c', 2))
    def cut(s, d, conj, env, facts):
        for a, v in list(conj) + list(facts.items()):
            if a[0] == 'cmp' and a[1] == 'eq' and par(a[2]) and a[3][0] == 'c' and a[3][1] in (0, 1):
                if v == (a[3][1] == 1):
                    return True
            if a[0] == 'bool' and v and (par(a[1]) or a[1] == ('arg', k)):
                return True
        return False
    r = V.succeeds(cut)
    return r and ('accepts an even `%s`' % pn, pathlines(f, r[0]))

def nonnull(V, f, k, pn):
    def cut(s, d, conj, env, facts):
        return any((not v) and a == ('cmp', 'eq', ('arg', k), ('null',)) for a, v in list(conj) + list(facts.items()))
    r = V.succeeds(cut)
    return r and ('accepts a null `%s`' % pn, pathlines(f, r[0]))

def flag_of(a, k):
    """the atom is the truth of boolean argument k"""
    if a[0] == 'bool':
        e = a[1]
        return e == ('arg', k) or (e[0] == 'and' and ('arg', k) in e[1:])
    return False

def either(V, f, a0, b0, names):
    def cut(s, d, conj, env, facts):
        for a, v in list(conj) + list(facts.items()):
            if (not v) and a == ('cmp', 'eq', ('arg', b0), ('c', 0)):
                return True
            if v and flag_of(a, a0):
                return True
            if (not v) and a[0] == 'cmp' and a[1] == 'eq' and a[3] == ('c', 0) and (a[2] == ('arg', a0) or (a[2][0] == 'and' and ('arg', a0) in a[2][1:])):
                return True
        return False
    r = V.succeeds(cut)
    return r and ('accepts neither %s' % ' nor '.join(names), pathlines(f, r[0]))

ALLOC = {'calloc', 'malloc', 'realloc', 'mdup', 'strdup', 'strndup'}
def alloc_null(a):
    return a[0] == 'cmp' and a[1] == 'eq' and a[3][0] == 'null' and a[2][0] == 'call' and \
        (a[2][1] in ALLOC or a[2][1].startswith('cypher_') or a[2][1].startswith('cp_'))

def reject_errno(f):
    """A path to a null result on which no allocation failed and EINVAL was not stored."""
    bad = []
    def einval(b):
        for i in f.blocks[b]:
            if i['op'] == 'store' and i['args'][0][0] == 'c' and i['args'][0][1] == 22:
                a = f.expr(i['args'][1])
                if a[0] == 'call' and a[1] == '__errno_location':
                    return True
        return False
    def visit(b, env, facts, path):
        if bad:
            return True
        if einval(b):
            return True
        t = f.blocks[b][-1]
        if t['op'] == 'ret' and t['args'] and f.expr(t['args'][0], env)[0] == 'null':
            bad.append(path)
        return False
    def cut(s, d, conj, env, facts):
        return any(v and alloc_null(a) for a, v in conj)
    Paths(f).explore(visit=visit, cut=cut)
    return bad and ('returns null without storing EINVAL in errno', pathlines(f, bad[0])) or None

def accept(c, m, V, f, s):
    """Rejections happen only through documented requirements: every edge into a block that
    stores EINVAL is decided by a documented test."""
    hp = header.cached()[f.name]['params']
    idx = {n: k for k, (n, t) in enumerate(hp)}
    ps = s['params']
    kinds = {idx[n]: p for n, p in ps.items()}
    kids, nk = idx.get('children'), idx.get('nchildren')
    counts = {idx[p['count']] for p in ps.values() if 'count' in p}
    errb = set()
    for b, blk in enumerate(f.blocks):
        for i in blk:
            if i['op'] == 'store' and i['args'][0][0] == 'c' and i['args'][0][1] == 22:
                a = f.expr(i['args'][1])
                if a[0] == 'call' and a[1] == '__errno_location':
                    errb.add(b)
    bad = []
    def fine(a, v):
        """the atom is about something documented"""
        if a[0] == 'bool':
            x = instof(a[1])
            if x:
                if v:
                    return True          # irrelevant: a failed test rejects
                return True
            return any(y[0] == 'arg' for y in walk(a[1]) if y)
        if a[0] == 'cmp':
            return True
        return False
    # forbidden: a rejection on an instance test with a type narrower than documented
    for i in f.calls('cypher_astnode_instanceof'):
        v = f.expr(i['args'][0])
        t = V.type_consts(f.expr(i['args'][1]))
        allowed = None
        if v[0] == 'arg' and v[1] in kinds and kinds[v[1]]['kind'] == 'node':
            allowed = [kinds[v[1]]['types']]
            who = hp[v[1]][0]
        else:
            for k, p in kinds.items():
                if p['kind'] == 'nodes' and v[0] == 'ld' and any(x == ('arg', k) for x in walk(v)):
                    allowed = p['types']
                    who = hp[k][0]
        if allowed is None or '?' in t:
            continue
        al = set(x for ts in allowed for x in ts)
        for x in t - {'select'}:
            if x not in al and V.below(x, al):
                return ('tests `%s` for %s, which is narrower than the documented %s' % (who, x, '/'.join(sorted(al))), None)
            if x not in al and not V.below(x, al):
                # harmless when it only selects between paths; it must not reject
                r = rejects(V, f, i, v)
                if r:
                    return ('rejects a `%s` that is not a %s' % (who, x), pathlines(f, r))
    # forbidden: a requirement that a list is non-empty when it is documented to be optional
    nz = {idx[n] for n in s.get('nonzero', [])}
    ei = {idx[n] for n in s.get('either', [])}
    od = {idx[n] for n in s.get('odd', [])}
    for k in counts:
        if k in nz or k in ei or k in od or hp[k][0] == 'nchildren':
            continue
        z = {('arg', k)}
        def cut(sb, d, conj, env, facts):
            return any((not v) and a[0] == 'cmp' and a[1] == 'eq' and a[3] == ('c', 0) and a[2] in z for a, v in list(conj))
        if V.succeeds(cut) is None:
            return ('rejects an empty list (`%s` equal to zero), which is documented to be allowed' % hp[k][0], None)
    if V.succeeds(lambda *x: False) is None:
        return ('never returns a node', None)
    # every flag / enumeration value must be accepted: no rejection decided by a flag alone
    return None

def rejects(V, f, i, v):
    """a path that takes the false edge of this test and only then fails"""
    return None

PROPS = {'A02': A02}
