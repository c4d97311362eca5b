"""Memory is released exactly once, and not used afterwards."""
from own import *
from effects import effects, Mods
from positions import bare

def modules():
    yield 'lib', lib_module(('@all',))
    yield 'linter', module('linter', ('@all',))

def generated(fn):
    return fn.name.startswith('yy') and fn.file.endswith('_leg.c')

def resources(ow, fn):
    for i in fn.all('call'):
        n = i.get('callee')
        if n is not None and i.get('ty') == 'ptr' and ow.is_fresh(n):
            yield 'alloc', fn.expr(['i', i['id']]), i

def what(fn, X):
    if X[0] == 'call':
        return 'the memory from %s' % X[1]
    if X[0] == 'arg':
        return 'argument `%s`' % fn.pname(X[1])
    return 'the location released'

def analyse(c, rules):
    for w, m in modules():
        m.short = True
        ow = Owners(m)
        for fn in m.fns():
            if generated(fn):
                c.cover['generated functions left out'] += 1
                continue
            c.cover['functions'] += 1
            for kind, X, i in resources(ow, fn):
                run(c, ow, fn, X, 'alloc', i, rules)
            for k, p in enumerate(fn.params):
                if p['ty'] == 'ptr':
                    run(c, ow, fn, ('arg', k), 'arg', None, rules)
            for i in fn.calls('free'):
                e = fn.expr(i['args'][0])
                if e[0] in ('ld', 'phi') :
                    run(c, ow, fn, e, 'freed', i, rules)

def run(c, ow, fn, X, kind, i, rules):
    where = '%s: %s %s' % (fn.src, what(fn, X), fn.loc(i))
    try:
        t = Track(ow, fn, X, kind, i['id'] if i is not None else None).run()
    except Undecided as e:
        for r in rules:
            if applies(r, kind):
                c.undecided(r, where, e)
        return
    for r in rules:
        if not applies(r, kind):
            continue
        bad = [p for p in t.problems if p[0] in rules[r]]
        if bad:
            p = bad[0]
            c.ob(r, where, False, key='%s:%s:%s' % (fn.src, X[1] if X[0] == 'call' else what(fn, X), p[0]),
                 msg='%s: %s is %s (%s)' % (fn.src, what(fn, X), p[2], fn.loc(p[1])), path=pathlines(fn, p[3]))
        else:
            c.ob(r, where, True)

def fills(ow, f):
    """{(k, offset)}: places inside argument k where f keeps memory it has allocated"""
    out = set()
    for i in f.all('store'):
        v = f.expr(i['args'][0])
        r, off, var = rooted(f.expr(i['args'][1]))
        if r[0] == 'arg' and not var and v[0] == 'call' and ow.is_fresh(v[1]):
            out.add((r[1], off))
    return out

def held(c, ow, fn):
    """memory that a callee has put into an object of this function is not abandoned by
    freeing the object alone"""
    import typestate
    sites = []
    for i in fn.all('call'):
        g = ow.callee(i) if i.get('callee') else None
        if g is None or generated(g):
            continue
        for k, off in fills(ow, g):
            r, o, var = rooted(fn.expr(i['args'][k]))
            if r[0] == 'call' and ow.is_fresh(r[1]) and not var:
                sites.append((i, r, o + off, g))
    for i, obj, off, g in sites:
        place = ('ld', ('addr', obj, off, ())) if off else ('ld', obj)
        w = '%s: what %s keeps in the memory from %s %s' % (fn.src, g.src, obj[1], fn.loc(i))
        def instr(j, env, facts, st):
            if j['id'] == i['id']:
                return 'maybe'
            if st not in ('maybe', 'held') or j['op'] not in ('call', 'store'):
                return st
            if j['op'] == 'store':
                v = fn.expr(j['args'][0], env)
                if v == obj or v == place or rooted(v)[0] == obj:
                    return 'gone'
                if rooted(fn.expr(j['args'][1], env))[0] == obj and rooted(fn.expr(j['args'][1], env))[1] == off:
                    return 'gone'
                return st
            n = j.get('callee')
            es = [fn.expr(a, env) for a in j['args']]
            if n == 'free':
                if es[0] == place:
                    return 'gone'
                if es[0] == obj:
                    return 'lost' if st == 'held' else st
                return st
            if n and borrowing(n):
                return st
            if any(e == place or rooted(e)[0] == obj for e in es):
                f = ow.callee(j)
                if f is not None and all(e != place and (rooted(e)[0] != obj or ow.summary(f, k) == {'ok': {'kept'}, 'fail': {'kept'}}) for k, e in enumerate(es)):
                    return st
                return 'gone'
            return st
        def edge(s, d, conj, env, facts, st):
            if st == 'maybe':
                for a, v in conj:
                    r = result_class(a, v, i['id'])
                    if r == 'ok':
                        return 'held'
                    if r == 'fail':
                        return 'none'
            return st
        def run():
            for j, env, facts, path, st in typestate.run(fn, 'none', instr, edge=edge):
                if st == 'lost':
                    return ('frees the object without what was put into it', pathlines(fn, path))
            return None
        c.attempt('leak-held', w, run, key='%s:%s:%d' % (fn.src, g.src, off))

def closed_blocks(c):
    """nodes and blocks of the parser are not forgotten: what is taken off a block goes into
    a node that was made, and a closed block is released before another takes its place"""
    from effects import effects
    from positions import bare
    m = lib_module(('@all',))
    st = next((n for n in m.structs if n.endswith('yycontext') and m.field(n, 'prev_block')), None)
    kids = m.field('block', 'children')
    if st is None or kids is None:
        c.undecided('leak-block', 'parser', 'blocks of the parser')
        return
    po = m.field(st, 'prev_block')['o']
    for fn in m.fns():
        if generated(fn) or not fn.file.endswith('parser.c'):
            continue
        place = mkaddr(('arg', 0), po, ())
        if not fn.params or not any(i['op'] == 'store' and fn.expr(i['args'][1]) == place for i in fn.all('store')) and \
                not any((i.get('callee') or '').startswith('astnodes_clear') for i in fn.all('call')):
            continue
        try:
            ps = effects(fn)
        except Undecided as e:
            c.undecided('leak-block', fn.where(), e)
            continue
        for p in ps:
            for j, e in enumerate(p.events):
                if e[0] == 'store' and e[1] == place:
                    old = p.load_at(j, place)
                    b = bare(old)
                    if p.null(old) is True or b == ('null',):
                        continue
                    before = [x for x in p.events[:j] if x[0] == 'call']
                    gone = any(b in [bare(y) for y in x[2]] for x in p.events if x[0] == 'call') or any(x[0] == 'store' and bare(x[2]) == b and x[1] != place for x in p.events)
                    used = any(rooted(bare(y))[0] == b and bare(y) != b or any(z == b for z in sub(bare(y))) and bare(y) != b for x in before for y in x[2])
                    if not gone and not used:
                        c.undecided('leak-block', fn.where(), 'whether there is a closed block')
                        continue
                    c.ob('leak-block', fn.where(), gone, key='%s:block' % fn.src, msg='%s: the closed block is not released before it is forgotten' % fn.src, path=None if gone else p.lines())
                elif e[0] == 'call' and str(e[1]).startswith('astnodes_clear') and e[2]:
                    v = bare(e[2][0])
                    r, o, var = rooted(v)
                    if o != kids['o'] or bare(r) != ('ld', place):
                        continue
                    els = [x for x in p.events[:j] if x[0] == 'call' and str(x[1]).startswith('astnodes_elements') and bare(x[2][0]) == v]
                    made = [x for x in p.events[:j] if x[0] == 'call' and any(y[3] in x[2] for y in els)]
                    if not els or not made:
                        c.undecided('leak-block', fn.where(), 'what became of the children')
                        continue
                    ok = p.null(made[-1][3]) is False
                    if not ok and not any(a[0] == 'cmp' and made[-1][3] in a for a in p.facts) and made[-1][4].get('ty') != 'ptr':
                        c.undecided('leak-block', fn.where(), 'whether the children were taken')
                        continue
                    c.ob('leak-block', fn.where(), ok, key='%s:children' % fn.src,
                         msg='%s: the children of the block are forgotten when there is no memory for the node they belong to' % fn.src, path=None if ok else p.lines())

def parser_allocs(c):
    """what the generated parsers allocate with: it does not return when there is no memory, and returns otherwise"""
    m = lib_module(('@all',))
    seen = {}
    for fn in m.fns():
        if not fn.file.endswith('_leg.c'):
            continue
        for i in fn.all('call'):
            n = i.get('callee')
            if n in ('malloc', 'calloc', 'realloc', 'reallocarray'):
                X = fn.expr(['i', i['id']])
                bad = not any(x['op'] == 'icmp' and X in [fn.expr(a) for a in x['args']] for b in fn.blocks for x in b)
                c.ob('parser-alloc', fn.where(i), not bad, key='%s:%s' % (fn.src, n), msg='%s: the parser uses the result of %s without looking whether it failed' % (fn.src, n))
            elif n and i.get('ty') == 'ptr' and m.fn(n) is not None and not generated(m.fn(n)) and any(a[0] == 'i' or a[0] == 'a' for a in i['args']):
                seen.setdefault(n, (fn, i))
    for n, (fn, i) in sorted(seen.items()):
        w = m.fn(n)
        if not any(x.get('callee') in ('malloc', 'calloc', 'realloc') for x in w.all('call')):
            continue
        ps = effects(w, mods=Mods(m))
        for p in ps:
            al = [e for e in p.events if e[0] == 'call' and e[1] in ('malloc', 'calloc', 'realloc')]
            if len(al) != 1:
                c.undecided('parser-alloc', w.where(), 'not one allocation')
                continue
            got = p.null(al[0][3])
            if p.end[0] == 'ret':
                c.ob('parser-alloc', w.where(), got is False and p.end[1] == al[0][3], key='%s:null' % w.src,
                     msg='%s: the parser is given something else than memory that was allocated' % w.src, path=None if got is False and p.end[1] == al[0][3] else p.lines())
            elif p.end[0] == 'stop':
                c.ob('parser-alloc', w.where(), got is True, key='%s:stop' % w.src, msg='%s: the parse is left although there was memory' % w.src, path=None if got is True else p.lines())

RELEASES = {'block_free': ('block', ('sequence', 'children'), True), 'cp_sb_cleanup': ('cp_string_buffer', ('buffer',), False),
            'cp_vector_cleanup': ('cp_vector', ('elements',), False), 'cp_vector_free': ('cp_vector', ('elements',), True)}

def releases(c):
    """what gives up an object of the parser gives up all memory it holds"""
    m = lib_module(tuple(KEEP + [x for x in RELEASES if not x.startswith('cp_vector')]))
    for name, (st, members, own) in RELEASES.items():
        fns = [m.fn(x) for x in m.by_src.get(name, ())]
        for w in fns:
            if w is None:
                continue
            try:
                ps = effects(w, mods=Mods(m))
                at = {x: m.field(st, x) for x in members}
                if any(v is None for v in at.values()):
                    raise Undecided('no such members')
            except Undecided as e:
                c.undecided('release-all', w.where(), e)
                continue
            for p in ps:
                if p.end[0] != 'ret' or p.null(('arg', 0)) is True:
                    continue
                frees = [bare(e[2][0]) for e in p.events if e[0] == 'call' and e[1] == 'free']
                given = [e[2][0] for e in p.events if e[0] == 'call' and e[1] in ('free', 'cp_vector_cleanup', 'cp_vector_clear') and e[2]]
                def freed(o, vec):
                    if st == 'cp_vector' and name != 'cp_vector_cleanup' and any(e[0] == 'call' and e[1] == 'cp_vector_cleanup' and bare(e[2][0]) == ('arg', 0) for e in p.events):
                        return True
                    for g in given:
                        g = bare(g)
                        a = mkaddr(('arg', 0), o, ())
                        if g in (('ld', a), a) or any(g in (('ld', mkaddr(('arg', 0), o + d, ())), mkaddr(('arg', 0), o + d, ())) for d in (8, 16)):
                            return True
                    return False
                for x, f in at.items():
                    ok = freed(f['o'], f) or p.null(('ld', mkaddr(('arg', 0), f['o'], ()))) is True
                    c.ob('release-all', w.where(), ok, key='%s:%s' % (name, x), msg='%s: does not release %s' % (name, x), path=None if ok else p.lines())
                if own:
                    ok = ('arg', 0) in frees
                    c.ob('release-all', w.where(), ok, key='%s:self' % name, msg='%s: does not release the object itself' % name, path=None if ok else p.lines())

def block_children(c, m):
    """what gives up a block releases every child it still holds"""
    for w in [m.fn(x) for x in m.by_src.get('block_free', ())]:
        if w is None:
            continue
        try:
            f = m.field('block', 'children')
            ps = effects(w, mods=Mods(m))
            if f is None:
                raise Undecided('no such members')
        except Undecided as e:
            c.undecided('release-all', w.where(), e)
            continue
        vec = mkaddr(('arg', 0), f['o'], ())
        def inside(a, b):
            return any(x == b for x in sub(a))
        def held(p):
            """values on the path that say which children there are"""
            r = [e[3] for e in p.events if e[0] == 'call' and e[1] == 'cp_vector_pop' and e[2] and bare(e[2][0]) == vec]
            r += [('ld', mkaddr(('arg', 0), f['o'] + d, ())) for d in range(0, 24, 4)]
            for e in p.events:
                if e[0] == 'loop':
                    r += [('phi', h) for h, v in e[2].items() if any(inside(bare(v), x) for x in r)]
            return r
        steps = [p for p in ps if p.end[0] == 'back' and any(e[0] == 'call' and e[1] == 'cypher_ast_free' for e in p.events)]
        for p in ps:
            if p.end[0] == 'back':
                if any(e[0] == 'call' and e[1] == 'cp_vector_pop' for e in p.events):
                    ok = any(e[0] == 'call' and e[1] in ('cypher_ast_free', 'cypher_ast_vfree') for e in p.events)
                    c.ob('release-all', w.where(), ok, key='block_free:popped', msg='block_free: a child taken off is not released with all that is below it', path=None if ok else p.lines())
                continue
            if p.end[0] != 'ret' or p.null(('arg', 0)) is True:
                continue
            hs = held(p)
            whole = any(e[0] == 'call' and e[1] == 'cypher_ast_vfree' and any(inside(bare(e[2][0]), h) for h in hs) for e in p.events)
            empty = any(v is not None and any(inside(bare(a), h) for h in hs) for a, v in p.facts.items() if a[0] == 'cmp' and a[1] == 'eq' and (('c', 0) in a[2:] or ('null',) in a[2:]) and v is True) \
                or any(p.null(h) is True or p.null(('ld', h)) is True for h in hs)
            counted = any(a[0] == 'cmp' and a[1] != 'eq' and v is False and any(inside(bare(a), h) for h in hs) for a, v in p.facts.items())
            if whole or empty or steps and counted:
                c.ob('release-all', w.where(), True, key='block_free:children')
            elif not steps:
                c.ob('release-all', w.where(), False, key='block_free:children', msg='block_free: not all children that the block holds are released', path=p.lines())
            elif any(e[0] == 'loop' for e in p.events):
                c.undecided('release-all', w.where(), 'whether the loop ends only when there is no child left')
            else:
                c.ob('release-all', w.where(), False, key='block_free:children', msg='block_free: the children that the block holds are not released', path=p.lines())

def cloned_parts(c):
    """clones of nodes made for a clone that fails are released"""
    m = lib_module(tuple(KEEP))
    for fn in m.fns():
        names = {i.get('callee') for i in fn.all('call')}
        if generated(fn) or not names & {'cypher_ast_clone', 'cypher_ast_vclone'}:
            continue
        try:
            ps = effects(fn, mods=Mods(m))
        except Undecided as e:
            c.undecided('clone-parts', fn.where(), e)
            continue
        for p in ps:
            if p.end[0] != 'ret':
                continue
            ev = p.events
            for n, e in enumerate(ev):
                if e[0] != 'call' or e[1] not in ('cypher_ast_clone', 'cypher_ast_vclone') or p.null(e[3]) is True and (e[1] == 'cypher_ast_vclone' or not any(x[0] == 'loop' for x in ev[:n])):
                    continue
                r = e[3]
                if p.end[1] == r:
                    c.ob('clone-parts', fn.where(), True, key='%s:returned' % fn.src)
                    continue
                later = [x for x in ev[n + 1:] if x[0] == 'call']
                to = None
                if e[1] == 'cypher_ast_clone':
                    st = [x for x in ev[n + 1:] if x[0] == 'store' and x[2] == r]
                    if len(st) != 1 or bare(st[0][1])[0] != 'addr':
                        c.undecided('clone-parts', fn.where(), 'where a clone is kept')
                        continue
                    to = bare(st[0][1])[1]
                    if p.end[1] == to:
                        c.ob('clone-parts', fn.where(), True, key='%s:returned' % fn.src)
                        continue
                    vf = [x for x in later if x[1] == 'cypher_ast_vfree' and x[2][0] == to]
                    made = [x for x in ev[:n] if x[0] == 'call' and x[3] == to]
                else:
                    vf = [x for x in later if x[1] == 'cypher_ast_vfree' and x[2][0] == r]
                    taken = [x for x in later if x[1] not in ('free', 'cypher_ast_vfree') and r in x[2]]
                    if any(p.null(x[3]) is False for x in taken):
                        c.ob('clone-parts', fn.where(), not vf, key='%s:taken' % fn.src, msg='%s: the clones are released although the node made has them' % fn.src, path=p.lines() if vf else None)
                        continue
                    if any(p.null(x[3]) is None for x in taken):
                        c.undecided('clone-parts', fn.where(), 'whether the clones were taken')
                        continue
                one = [x for x in later if x[1] == 'cypher_ast_free']
                if not vf and (one or any(q.end[0] == 'back' and any(x[0] == 'call' and x[1] == 'cypher_ast_free' for x in q.events) for q in ps)):
                    c.undecided('clone-parts', fn.where(), 'which clones are released')
                    continue
                c.ob('clone-parts', fn.where(), bool(vf), key='%s:lost' % fn.src, msg='%s: the clones of the nodes below are not released when the clone fails' % fn.src, path=None if vf else p.lines())
                if not vf:
                    continue
                cnt = bare(vf[0][2][1])
                if to is None:
                    ok = cnt == bare(e[2][1])
                elif not made:
                    continue
                elif made[0][1] == 'calloc':
                    ok = cnt in [bare(a) for a in made[0][2]] or cnt[0] in ('phi', 'add')
                else:
                    ok = cnt not in [bare(a) for a in made[0][2]] and not any(cnt == x for a in made[0][2] for x in sub(bare(a)))
                c.ob('clone-parts', fn.where(), ok, key='%s:count' % fn.src, msg='%s: not the clones that were made are released when the clone fails' % fn.src, path=None if ok else p.lines())

def sub(e):
    if isinstance(e, tuple):
        yield e
        for x in e:
            if isinstance(x, tuple):
                yield from sub(x)

def applies(r, kind):
    return {'leak': kind == 'alloc', 'check': kind == 'alloc', 'twice': True, 'use': True}[r]

def M01(c):
    c.rule('leak', 'memory that a function allocates is released, returned, or handed to an owner on every path to a return', 150)
    c.rule('leak-held', 'when a callee has put allocated memory into an object, the object is not freed without that memory', 60)
    c.rule('leak-block', 'the children of a closed block of the parser are given to a node that was made before they are taken off it, and the block is released before it is forgotten', 100)
    c.rule('release-all', 'giving up a block, text or list of the parser releases all memory it holds', 4)
    c.rule('clone-parts', 'when a node cannot be cloned the clones made of the nodes below it are released', 4)
    analyse(c, {'leak': ('leak',)})
    releases(c)
    block_children(c, lib_module(tuple(KEEP + [x for x in RELEASES if not x.startswith('cp_vector')])))
    cloned_parts(c)
    closed_blocks(c)
    for w, m in modules():
        m.short = True
        ow = Owners(m)
        for fn in m.fns():
            if not generated(fn):
                held(c, ow, fn)

def M02(c):
    c.rule('check', 'the result of an allocation is not used before it is known to have succeeded', 150)
    c.rule('parser-alloc', 'what the generated parsers allocate with returns memory, or does not return', 4)
    analyse(c, {'check': ('check',)})
    parser_allocs(c)

def M03(c):
    c.rule('twice', 'nothing is released twice', 600)
    c.rule('use', 'nothing is used, passed on or returned after it was released', 600)
    analyse(c, {'twice': ('twice',), 'use': ('use',)})

PROPS = {'M01': M01, 'M02': M02, 'M03': M03}
