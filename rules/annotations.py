"""Annotations: lookup, lists, and the release handler."""
from astmodel import *
from effects import effects, F, mkaddr
import effects as EF

def ld(a):
    return ('ld', a)

class Fields:
    def __init__(self, m):
        o = lambda s, f: (m.field(s, f) or {}).get('o')
        an, nd, cx = 'cypher_astnode_annotation', 'cypher_astnode', 'cypher_ast_annotation_context'
        self.ok = all(x in m.structs for x in (an, nd, cx))
        if not self.ok:
            return
        self.size = m.structs[an].get('s')
        self.ctx, self.node, self.data = o(an, 'context'), o(an, 'astnode'), o(an, 'data')
        self.nprev, self.nnext, self.cprev, self.cnext = (o(an, x) for x in ('node_prev', 'node_next', 'ctx_prev', 'ctx_next'))
        self.nhead, self.chead = o(nd, 'annotations'), o(cx, 'annotations')
        self.cb, self.ud = o(cx, 'release_cb'), o(cx, 'release_cb_userdata')
        self.ok = None not in (self.ctx, self.node, self.data, self.nprev, self.nnext, self.cprev, self.cnext, self.nhead, self.chead, self.cb, self.ud)

def at(b, off):
    return mkaddr(b, off, ())

def A08(c):
    m = lib_module()
    f = Fields(m)
    c.anchor(f.ok, 'fields of annotations')
    c.rule('lookup', 'a lookup visits every annotation of the node and finds exactly the one whose context is the given one', 3)
    c.rule('attach', 'attaching a new annotation records data, node and context and puts it at the head of both lists, with all links set', 2)
    c.rule('replace', 'attaching where the context already has an annotation replaces the data, reports the previous data, and changes nothing else', 1)
    c.rule('previous', 'the previous annotation (or NULL) is reported whenever it is asked for', 2)
    c.rule('unlink', 'removing or releasing an annotation takes it out of the list of its node and the list of its context, leaving the other elements linked', 2)
    c.rule('result', 'the data returned is that of the annotation found, NULL when there is none', 2)
    c.rule('handler', 'releasing an annotation calls the handler of its context exactly once, with its userdata, the node and the data, if there is one; removing does not', 2)
    c.rule('freed', 'an annotation that was unlinked is freed, exactly once', 2)
    c.rule('drain', 'freeing a context releases every annotation of it and then the context', 1)
    c.rule('register', 'the handler and its userdata are stored together; without a handler there is no userdata', 1)
    c.rule('arguments', 'a NULL context, node or annotation is refused with EINVAL and without an effect', 3)
    c.rule('unchanged', 'when memory runs out nothing has changed', 1)
    rem, att, get, rel = (m.fn(x) for x in ('cypher_astnode_remove_annotation', 'cypher_astnode_attach_annotation', 'cypher_astnode_get_annotation', 'cp_release_annotation'))
    c.anchor(rem and att and get, 'annotation functions')
    for fn, args in ((att, (0, 1, 2)), (rem, (0, 1)), (get, (0, 1))):
        lookup(c, f, fn, args)
    attach(c, f, att)
    remove(c, f, rem)
    getter(c, f, get)
    c.anchor(rel, 'cp_release_annotation')
    release(c, f, rel)
    ctxfree(c, f, m)
    register(c, f, m)

def paths(c, fn, rules):
    try:
        ps = effects(fn)
        c.cover['paths'] += len(ps)
        return ps
    except Undecided as e:
        for r in rules:
            c.undecided(r, fn.where(), e)
        return None

def rejecting(p, args):
    return any(p.null(('arg', k)) is True for k in args)

def found(f, p):
    """the annotation whose context was compared equal, or None"""
    for a, v in p.facts.items():
        if v and a[0] == 'cmp' and a[1] == 'eq':
            for x, y in ((a[2], a[3]), (a[3], a[2])):
                if x == ('arg', 0) and y[0] == 'ld' and len(y) == 2:
                    b, off = (y[1][1], y[1][2]) if y[1][0] == 'addr' else (y[1], 0)
                    if off == f.ctx:
                        return b
                if x == ('arg', 1) and y[0] == 'ld' and len(y) == 2:
                    b, off = (y[1][1], y[1][2]) if y[1][0] == 'addr' else (y[1], 0)
                    if off == f.node and b != ('arg', 0):
                        return b
    return None

def lookup(c, f, fn, args):
    def run():
        ps = effects(fn)
        head = {'n': ld(at(('arg', 1), f.nhead)), 'c': ld(at(('arg', 0), f.chead))}
        nxt = {'n': f.nnext, 'c': f.cnext}
        for p in ps:
            if rejecting(p, args):
                continue
            loops = [e for e in p.events if e[0] == 'loop']
            walker = None
            for e in loops:
                for ph, init in e[2].items():
                    for k in ('n', 'c'):
                        if init == head[k]:
                            walker = (k, ('phi', ph))
            E = found(f, p)
            if p.end[0] == 'back':
                if walker is None:
                    return ('the search does not start at the first annotation', p.lines())
                k, ph = walker
                if p.back.get(ph[1]) != ld(at(ph, nxt[k])):
                    return ('the search does not go on to the next annotation', p.lines())
                if E is not None:
                    return ('the search goes on past the annotation of the context', p.lines())
                continue
            if E is not None:
                if walker is None and E not in head.values():
                    return ('the annotation compared is not one of the list', p.lines())
                continue
            # not found: the end of the list must have been reached
            ends = [head['n'], head['c']] + ([ld(at(walker[1], nxt[walker[0]])), walker[1]] if walker else [])
            if not any(p.null(x) is True for x in ends):
                return ('gives up before the end of the list', p.lines())
        if not any(found(f, p) is not None for p in ps):
            return ('no annotation is ever found', None)
        return None
    c.attempt('lookup', fn.where(), run, key=fn.name)
    def rej():
        for p in effects(fn):
            if rejecting(p, args):
                st = p.stores()
                if st != {('errno',): ('c', 22)}:
                    return ('a NULL argument is not refused with EINVAL alone', p.lines())
                v = p.end[1]
                want = ('c', -1) if fn.f['ret'] != 'ptr' else ('null',)
                if v not in (want, ('c', 0xffffffff) if want[0] == 'c' else want):
                    return ('a NULL argument does not give the failure value', p.lines())
            else:
                for k in args:
                    if p.null(('arg', k)) is None:
                        return ('a NULL argument is not refused', p.lines())
        return None
    c.attempt('arguments', fn.where(), rej, key=fn.name)

def attach(c, f, fn):
    ps = paths(c, fn, ('attach', 'replace', 'previous', 'unchanged'))
    if ps is None:
        return
    bad = {}
    n = {'attach': 0, 'replace': 0, 'unchanged': 0}
    for p in ps:
        if rejecting(p, (0, 1, 2)) or p.end[0] == 'back':
            continue
        E = found(f, p)
        st = p.stores()
        ret = p.end[1]
        if any(not isinstance(e[1], str) for e in p.calls()):
            bad.setdefault('replace', ('the handler is called although nothing is released', p))
        prev = {k: v for k, v in st.items() if k == ('arg', 3)}
        want_prev = p.null(('arg', 3))
        allocs = [e for e in p.calls('malloc', 'calloc')]
        failed = any(p.null(e[3]) for e in allocs)
        rest = {k: v for k, v in st.items() if k != ('arg', 3)}
        if E is not None:
            n['replace'] += 1
            if rest != {at(E, f.data): ('arg', 2)} or ret != ('c', 0):
                bad.setdefault('replace', ('replacing does not exactly store the new data', p))
            if want_prev is None:
                bad.setdefault('previous', ('the place for the previous data is not tested for NULL', p))
            elif want_prev is False and prev != {('arg', 3): ld(at(E, f.data))}:
                bad.setdefault('previous', ('the previous data is not reported', p))
            elif want_prev and prev:
                bad.setdefault('previous', ('stores through a NULL pointer', p))
            continue
        if failed:
            n['unchanged'] += 1
            if st or ret == ('c', 0):
                bad.setdefault('unchanged', ('fails for lack of memory after a change, or reports success', p))
            continue
        n['attach'] += 1
        if want_prev is None or want_prev is False and prev != {('arg', 3): ('null',)} or want_prev and prev:
            bad.setdefault('previous', ('NULL is not reported for the previous data', p))
        if len(allocs) != 1:
            bad.setdefault('attach', ('no single annotation is made', p))
            continue
        N = allocs[0][3]
        size = allocs[0][2][0] if allocs[0][1] == 'malloc' else None
        msg = attached(f, p, N, rest)
        if ret != ('c', 0):
            msg = msg or 'attaching does not report success'
        if msg:
            bad.setdefault('attach', (msg, p))
    if not n['attach']:
        bad.setdefault('attach', ('no annotation is ever attached', ps[0]))
    if not n['replace']:
        bad.setdefault('replace', ('no annotation is ever replaced', ps[0]))
    for r in ('attach', 'replace', 'previous', 'unchanged'):
        x = bad.get(r)
        c.ob(r, fn.where(), x is None, key=fn.name, msg=x and x[0], path=x and x[1].lines())
    c.ob('attach', fn.where() + ' paths', 'attach' not in bad, key=fn.name, msg='')
    c.ob('previous', fn.where() + ' paths', 'previous' not in bad, key=fn.name, msg='')

def attached(f, p, N, st):
    node, ctx = ('arg', 1), ('arg', 0)
    want = {f.data: ('arg', 2), f.node: node, f.ctx: ctx}
    for off, v in want.items():
        if p.load(at(N, off)) != v:
            return 'the new annotation does not record its data, node and context'
    exp = {}
    for head, nx, pv, what in ((at(node, f.nhead), f.nnext, f.nprev, 'node'), (at(ctx, f.chead), f.cnext, f.cprev, 'context')):
        first = ld(head)
        if p.load(head) != N:
            # inserted elsewhere: not modelled
            return 'the new annotation is not the first of its %s' % what
        if p.load(at(N, nx)) not in (first,) and not (p.null(first) and p.load(at(N, nx)) == ('null',)):
            return 'the new annotation is not followed by the earlier ones of its %s' % what
        if p.load(at(N, pv)) != ('null',):
            return 'the new annotation has something before it in the list of its %s' % what
        k = p.null(first)
        if k is None:
            if at(first, pv) in st:
                return 'stores through the head of an empty list of the %s' % what
            return 'the earlier first annotation of the %s is not linked back' % what
        if k is False and p.load(at(first, pv)) != N:
            return 'the earlier first annotation of the %s is not linked back' % what
        exp[head] = 1
        exp[at(first, pv)] = 1
    for a in st:
        b = a[1] if a[0] == 'addr' else a
        if a not in exp and b != N:
            return 'something else is changed'
    return None

def unlinked(f, p, E, st):
    """E has been taken out of both lists"""
    N, C = ld(at(E, f.node)), ld(at(E, f.ctx))
    alt = {'n': [N, ('arg', 1)] if E != ('arg', 0) else [N], 'c': [C, ('arg', 0)] if E != ('arg', 0) else [C]}
    ok = set()
    for nx, pv, owners, hd, what in ((f.nnext, f.nprev, alt['n'], f.nhead, 'node'), (f.cnext, f.cprev, alt['c'], f.chead, 'context')):
        nxt, prv = ld(at(E, nx)), ld(at(E, pv))
        kn, kp = p.null(nxt), p.null(prv)
        if kn is None:
            return 'whether there is a next annotation of the %s is not tested' % what
        if kn is False:
            a = at(nxt, pv)
            ok.add(a)
            if st.get(a) != prv:
                return 'the next annotation of the %s is not linked to the previous one' % what
        heads = [at(o, hd) for o in owners]
        if kp is None:
            if any(h in st for h in heads) or at(prv, nx) in st:
                # decided by the head itself
                if any(p.eq(ld(h), E) is not None for h in heads):
                    kp = any(p.eq(ld(h), E) for h in heads)
                else:
                    return 'whether the annotation is the first of its %s is not tested' % what
            else:
                return 'the annotation is not unlinked from its %s' % what
        if kp:
            h = [x for x in heads if x in st]
            ok.update(h)
            if not h or st[h[0]] != nxt and not (kn and st[h[0]] == ('null',)):
                return 'the list of the %s does not start with the next annotation' % what
        else:
            a = at(prv, nx)
            ok.add(a)
            if st.get(a) != nxt and not (kn and st.get(a) == ('null',)):
                return 'the previous annotation of the %s is not linked to the next one' % what
    for a in st:
        b = a[1] if a[0] == 'addr' else a
        if a not in ok and b != E and a != ('errno',):
            return 'something else is changed'
    return None

def remove(c, f, fn):
    ps = paths(c, fn, ('unlink', 'result', 'handler', 'freed'))
    if ps is None:
        return
    bad = {}
    for p in ps:
        if rejecting(p, (0, 1)) or p.end[0] == 'back':
            continue
        E = found(f, p)
        st = p.stores()
        calls = [e for e in p.calls() if e[1] not in ('free',)]
        frees = p.calls('free')
        if calls:
            bad.setdefault('handler', ('removing an annotation calls something', p))
        if E is None:
            if st or frees:
                bad.setdefault('unlink', ('something is changed although there is no annotation', p))
            if p.end[1] != ('null',):
                bad.setdefault('result', ('does not return NULL when there is no annotation', p))
            continue
        msg = unlinked(f, p, E, st)
        if msg:
            bad.setdefault('unlink', (msg, p))
        if p.end[1] != ld(at(E, f.data)):
            bad.setdefault('result', ('does not return the data of the annotation removed', p))
        if [x[2][0] for x in frees] != [E]:
            bad.setdefault('freed', ('the annotation removed is not freed exactly once', p))
    for r in ('unlink', 'result', 'handler', 'freed'):
        x = bad.get(r)
        c.ob(r, fn.where(), x is None, key=fn.name, msg=x and x[0], path=x and x[1].lines())

def getter(c, f, fn):
    ps = paths(c, fn, ('result',))
    if ps is None:
        return
    bad = None
    for p in ps:
        if rejecting(p, (0, 1)) or p.end[0] == 'back':
            continue
        E = found(f, p)
        if E is None:
            if p.end[1] != ('null',):
                bad = bad or ('does not return NULL when there is no annotation', p)
        elif p.end[1] != ld(at(E, f.data)):
            bad = bad or ('does not return the data of the annotation found', p)
        if p.stores() or p.calls():
            bad = bad or ('a lookup has an effect', p)
    c.ob('result', fn.where(), bad is None, key=fn.name, msg=bad and bad[0], path=bad and bad[1].lines())

def release(c, f, fn):
    ps = paths(c, fn, ('unlink', 'handler', 'freed'))
    if ps is None:
        return
    bad = {}
    E = ('arg', 0)
    C, N = ld(at(E, f.ctx)), ld(at(E, f.node))
    cb = ld(at(C, f.cb))
    for p in ps:
        st = p.stores()
        msg = unlinked(f, p, E, st)
        if msg:
            bad.setdefault('unlink', (msg, p))
        ind = [e for e in p.calls() if not isinstance(e[1], str)]
        other = [e for e in p.calls() if isinstance(e[1], str) and e[1] != 'free']
        k = p.null(cb)
        if k is None:
            bad.setdefault('handler', ('whether there is a handler is not tested', p))
        elif k and ind:
            bad.setdefault('handler', ('a handler is called although there is none', p))
        elif k is False:
            if len(ind) != 1 or ind[0][1] != cb:
                bad.setdefault('handler', ('the handler is called %d times' % len(ind), p))
            elif ind[0][2] != (ld(at(C, f.ud)), N, ld(at(E, f.data))):
                bad.setdefault('handler', ('the handler is not given its userdata, the node and the data', p))
        if other:
            bad.setdefault('handler', ('calls something else', p))
        if [x[2][0] for x in p.calls('free')] != [E]:
            bad.setdefault('freed', ('the annotation released is not freed exactly once', p))
    for r in ('unlink', 'handler', 'freed'):
        x = bad.get(r)
        c.ob(r, fn.where(), x is None, key=fn.name, msg=x and x[0], path=x and x[1].lines())

def ctxfree(c, f, m):
    fn = m.fn('cypher_ast_annotation_context_free')
    c.anchor(fn, 'cypher_ast_annotation_context_free')
    def run():
        head = at(('arg', 0), f.chead)
        for p in effects(fn):
            if p.null(('arg', 0)):
                if p.events:
                    return ('does something to a NULL context', p.lines())
                continue
            for e in p.calls('cp_release_annotation'):
                a = e[2][0]
                if not (a[0] == 'ld' and a[1] == head or a[0] == 'phi'):
                    return ('releases something other than the first annotation', p.lines())
            fr = [x[2][0] for x in p.calls('free')]
            if p.end[0] == 'back':
                if fr:
                    return ('frees inside the loop', p.lines())
                continue
            if fr != [('arg', 0)]:
                return ('the context is not freed exactly once', p.lines())
            last = p.load(head, upto=len(p.mem))
            done = [a for a, v in p.facts.items() if v and a[0] == 'cmp' and a[1] == 'eq' and a[3] == ('null',) and a[2][0] == 'ld' and a[2][1] == head]
            rel = p.calls('cp_release_annotation')
            if rel:
                # the test that ended the loop looked at the list after the last release
                if not any(len(a[2]) == 3 and a[2][2] == ('after', rel[-1][3][2]) for a in done):
                    return ('frees the context without having seen that no annotation is left', p.lines())
            elif not done:
                return ('frees the context without having seen that no annotation is left', p.lines())
        return None
    c.attempt('drain', fn.where(), run, key=fn.name)

def register(c, f, m):
    fn = m.fn('cypher_ast_annotation_context_set_release_handler')
    c.anchor(fn, 'cypher_ast_annotation_context_set_release_handler')
    def run():
        for p in effects(fn):
            st = p.stores()
            h = st.get(at(('arg', 0), f.cb))
            u = st.get(at(('arg', 0), f.ud))
            if h != ('arg', 1) and not (p.null(('arg', 1)) and h == ('null',)):
                return ('the handler is not stored', p.lines())
            k = p.null(('arg', 1))
            if k is False and u != ('arg', 2):
                return ('the userdata of the handler is not stored', p.lines())
            if k and u not in (('null',), ('arg', 2)):
                return ('other userdata is stored', p.lines())
            if k is None and u != ('arg', 2):
                return ('the userdata of the handler is not stored', p.lines())
            if set(st) - {at(('arg', 0), f.cb), at(('arg', 0), f.ud)}:
                return ('something else is changed', p.lines())
        return None
    c.attempt('register', fn.where(), run, key=fn.name)

PROPS = {'A08': A08}
