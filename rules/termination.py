"""Parsing ends on every input: G05.  The grammars (no repetition of something that matches without
consuming, no rule that enters itself before anything is consumed, a parse that consumes or notes the
end of the input), the rounds of a parse, and loops that go round without changing what they test."""
import leg
from ir import *
from astmodel import lib_module, KEEP
from effects import effects, Mods, PURE_CALLS, PURE_LIB
from pathkit import *
import segments, quick
from quick import subs

# ---------------------------------------------------------------- grammars

class Progress:
    """What an expression may do at a place of the input: succeed there without consuming (s),
    consume (c) or fail (f); told apart for places before the end of the input (ctx 0) and at the
    end (ctx 1).  Predicates and actions on failure count as anything; over-approximates."""
    def __init__(self, g, eofacts, mark=False):
        self.g, self.eofacts = g, eofacts
        self.mark = mark            # matching the end of the input with its action counts as no match
        self.t = {(n, x): (False, False, False) for n in g.rules for x in (0, 1)}
        ch = True
        while ch:
            ch = False
            for n in g.rules:
                for x in (0, 1):
                    self.rule = n
                    r = tuple(a or b for a, b in zip(self.t[n, x], self.ev(g.rules[n], x)))
                    if r != self.t[n, x]:
                        self.t[n, x] = r
                        ch = True

    def ev(self, e, x, see=None, quiet=False):
        """(s, c, f); see(kind, e, x) is called for what is reached at a place"""
        k = e[0]
        if see:
            see(e, x, self)
        if k in ('any', 'cls', 'str'):
            if k == 'str' and not e[1]:
                return True, False, False
            return (False, False, True) if x else (False, k != 'cls' or bool(e[1]), k != 'any' and not (k == 'cls' and len(e[1]) == 256))
        if k == 'rule':
            if e[1] not in self.g.rules:
                return True, True, True
            return self.t[e[1], x]
        if k == 'act':
            if self.mark and not quiet and (self.rule, e[1]) in self.eofacts:
                return False, False, False
            return True, False, False
        if k in ('begin', 'end'):
            return True, False, False
        if k == 'pred':
            return True, False, True
        if k in ('not', 'and'):
            m = self if not self.mark else self.plain
            s, c, f = m.ev(e[1], x, see, True)
            return (f, False, s or c) if k == 'not' else (s or c, False, f)
        if k == 'opt':
            s, c, f = self.ev(e[1], x, see, quiet)
            return s or f, c, False
        if k in ('star', 'plus'):
            s, c, f = self.ev(e[1], x, see, quiet)
            if c and see:
                for y in (0, 1):
                    self.ev(e[1], y, see, quiet)
            return (s or f if k == 'star' else s), c, k == 'plus' and f
        if k == 'err':
            return self.ev(e[1], x, see, quiet)
        if k == 'alt':
            s = c = False
            for y in e[1]:
                a, b, f = self.ev(y, x, see, quiet)
                s, c = s or a, c or b
                if not f:
                    return s, c, False
            return s, c, True
        if k == 'seq':
            here, later, fail = True, False, False
            for y in e[1]:
                h2 = l2 = False
                if here:
                    a, b, f = self.ev(y, x, see, quiet)
                    h2, l2, fail = a, b, fail or f
                if later:
                    for z in (0, 1):
                        a, b, f = self.ev(y, z, see if z != x or not here else None, quiet)
                        l2, fail = l2 or a or b, fail or f
                here, later = h2, l2
                if not here and not later:
                    break
            return here, later, fail
        return True, True, True

    def at_once(self, e, x):
        """rules entered at the very place"""
        out = set()
        k = e[0]
        if k == 'rule':
            return {e[1]}
        if k == 'alt':
            for y in e[1]:
                out |= self.at_once(y, x)
                if not self.ev(y, x)[2]:
                    break
        elif k == 'seq':
            for y in e[1]:
                out |= self.at_once(y, x)
                if not self.ev(y, x)[0]:
                    break
        elif k in ('not', 'and', 'opt', 'star', 'plus', 'err'):
            out = self.at_once(e[1], x)
        return out

    def reached(self, entries):
        """(rule, ctx) pairs that a parse may get to, and the expressions evaluated there"""
        seen, todo, rep = set(), [(n, x) for n in entries for x in (0, 1)], {}
        while todo:
            n, x = todo.pop()
            if (n, x) in seen or n not in self.g.rules:
                continue
            seen.add((n, x))
            self.rule = n
            def see(e, y, who, n=n):
                if e[0] == 'rule' and (e[1], y) not in seen:
                    todo.append((e[1], y))
                elif e[0] in ('star', 'plus'):
                    rep.setdefault((n, id(e)), (e, set()))[1].add(y)
                    s, c, f = who.ev(e[1], y)
                    if c:
                        rep[n, id(e)][1].update((0, 1))
            self.ev(self.g.rules[n], x, see)
        return seen, rep

def progress(C, name, g, eofacts, entries):
    P = Progress(g, eofacts)
    seen, rep = P.reached(entries)
    C.cover['grammar rules'] += len({n for n, _ in seen})
    for (n, _), (e, xs) in sorted(rep.items(), key=lambda z: (g.line[z[0][0]], leg.show(z[1][0]))):
        P.rule = n
        bad = [x for x in xs if P.ev(e[1], x)[0]]
        C.ob('repeat', '%s (%s:%d): %s' % (n, g.name, g.line[n], leg.show(e)[:80]), not bad, key='%s:%s:%s' % (name, n, leg.show(e)[:60]),
             msg='%s repeats something that may match without consuming input%s: %s' % (n, ' at the end of the input' if bad == [1] else '', leg.show(e)[:80]))
    # rules that enter themselves at the same place
    for x in (0, 1):
        edges = {}
        for n, y in seen:
            if y == x:
                P.rule = n
                edges[n] = {r for r in P.at_once(g.rules[n], x) if r in g.rules}
        for n in sorted(edges, key=lambda r: g.line[r]):
            back, todo = {}, [n]
            while todo and n not in back:
                a = todo.pop()
                for b in edges.get(a, ()):
                    if b not in back:
                        back[b] = a
                        todo.append(b)
            path = None
            if n in back:
                path, a = [n], back[n]
                while a != n:
                    path.append(a)
                    a = back[a]
                path = ' -> '.join(reversed(path + [n]))
            C.ob('reenter', '%s (%s:%d)%s' % (n, g.name, g.line[n], ' at the end of the input' if x else ''), n not in back, key='%s:%s' % (name, n),
                 msg='%s enters itself before anything is consumed%s: %s' % (n, ' at the end of the input' if x else '', path))
    M = Progress.__new__(Progress)
    M.plain = P
    Progress.__init__(M, g, eofacts, mark=True)
    for n in entries:
        C.ob('entry', '%s (%s:%d)' % (n, g.name, g.line[n]), not P.t[n, 0][0], key='%s:%s:consume' % (name, n),
             msg='%s may match without consuming anything although there is more input' % n)
        C.ob('entry', '%s (%s:%d) at the end of the input' % (n, g.name, g.line[n]), not M.t[n, 1][0], key='%s:%s:eof' % (name, n),
             msg='%s may match at the end of the input without noting that it is the end' % n)

def eof_actions(m, g, files):
    """actions that note the end of the input, from their IR"""
    offs = {}
    for k, s in m.structs.items():
        if k.startswith('_yycontext@'):
            isq = any(x['n'] == 'callback' for x in s['m'])
            offs[isq] = next((x['o'] for x in s['m'] if x['n'] == 'eof'), None)
    isq = 'quick' in g.name
    off = offs.get(isq)
    if off is None:
        raise Undecided('where the end of the input is noted')
    out = set()
    names = {m.raw[n]['src']: n for n in m.raw if any(f in m.raw[n]['file'] for f in files)}
    for r, acts in g.acts.items():
        for k, t in enumerate(acts):
            fn = m.fn(names.get('yy_%d_%s' % (k + 1, r), '?'))
            if fn is None:
                raise Undecided('no action yy_%d_%s' % (k + 1, r))
            w = [i for b in fn.blocks for i in b if i['op'] == 'store' and fn.expr(i['args'][1]) == mkaddr(('arg', 0), off, ())]
            if not w:
                continue
            try:
                ps = effects(fn, mods=Mods(m))
            except Undecided:
                continue
            if ps and all(p.end[0] == 'ret' and p.load(mkaddr(('arg', 0), off, ()), 'i8') == ('c', 1) for p in ps):
                out.add((r, k + 1))
    return out

# ---------------------------------------------------------------- rounds

def rounds(C, m, name, stream, each, qk):
    P = segments.Parse(m, name, each) if not qk else quick.Parse(m, name, 1)
    cons, eof = (None if qk else P.at('consumed')), P.at('eof')
    n = 0
    for p in P.paths:
        ev = p.events
        pc = [k for k, e in enumerate(ev) if e[0] == 'call' and isinstance(e[1], str) and
              src(m, e[1]) in ('safe_yyparsefrom', 'yyparsefrom', 'parse_one') and e[2] and e[2][0] == P.yy]
        if not pc or p.end[0] != 'back':
            continue
        L = [k for k, e in enumerate(ev) if e[0] == 'loop' and e[1] == p.end[1]]
        if not L or not any(k > L[-1] for k in pc):
            continue
        n += 1
        more = segments.boolfact_after(p, eof, pc[-1]) is False
        used = not qk and any(v is False for a, v in p.facts.items() if a[0] == 'cmp' and a[1] == 'eq' and a[3] == ('c', 0) and segments.is_load(a[2], cons))
        C.ob('round', '%s (%s)' % (name, P.fn.where()), more or used, key=name + ':round',
             msg='%s parses again after the end of the input' % name, path=p.lines())
    if not n:
        raise Undecided('how %s goes on from one segment to the next' % name)

def src(m, n):
    return m.raw[n]['src'] if n in m.raw else n

# ---------------------------------------------------------------- loops

class Inert:
    """functions that neither write memory nor depend on anything but it"""
    OK = {'strlen', 'strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'memcmp', 'memchr', 'strchr', 'isspace', 'isalpha', '__ctype_b_loc', 'tolower', 'toupper', '__ctype_tolower_loc'}
    def __init__(self, m):
        self.m, self.memo = m, {}
    def __call__(self, n):
        if not isinstance(n, str):
            return False
        if n in self.memo:
            return self.memo[n]
        if n not in self.m.raw:
            return n in self.OK or n in PURE_CALLS or n in PURE_LIB or n.startswith(('llvm.dbg', 'llvm.lifetime'))
        self.memo[n] = True
        fn = self.m.fn(n)
        r = True
        for b in fn.blocks:
            for i in b:
                if i['op'] == 'store' and root(fn.expr(i['args'][1]))[0] != 'alloca':
                    r = False
                elif i['op'] == 'call':
                    c = i.get('callee')
                    if c is None:
                        r = False
                    elif not self(c) and not c.startswith('llvm.'):
                        r = False
                    elif c.startswith(('llvm.mem', 'llvm.va')):
                        r = False
                elif i['op'] in ('atomicrmw', 'cmpxchg', 'fence'):
                    r = False
        self.memo[n] = r
        return r

def changes(p, k, inert):
    """does the round that starts behind event k change something its tests depend on?"""
    back = p.back or {}
    conds = [a for a, v, at in p.order if at > k]
    ev = p.events[k + 1:]
    work = [e for e in ev if e[0] == 'call' and not inert(e[1])]
    if not conds:
        return bool(work) or any(e[0] == 'loop' for e in ev)
    seen = set()
    for a in conds:
        for x in subs(a):
            if x in seen or not x:
                continue
            seen.add(x)
            if x[0] == 'phi':
                if back.get(x[1]) is None or back[x[1]] != x:
                    return True
            elif x[0] == 'ld':
                if not same_load(p, x, k):
                    return True
            elif x[0] == 'call' and len(x) == 3 and isinstance(x[2], int):
                if not inert(x[1]):
                    return True
                # the same question of an object that was changed in between
                if work or any(e[0] in ('store', 'copy', 'zero') and root(e[1])[0] != 'alloca' for e in ev):
                    return True
            elif x[0] == 'call':
                if work or any(e[0] in ('store', 'copy', 'zero') for e in ev):
                    return True
            elif x[0] in ('errno', '?w', 'part'):
                return True
    return False

def same_load(p, x, k):
    """is there at the end of the round what was there when it started?"""
    return k + 1 >= len(p.events) or all(p.load_at(k + 1, x[1], ty) == p.load(x[1], ty) for ty in ('ptr', 'i64', 'i32', 'i16', 'i8'))

def loops(C, m):
    inert, mods = Inert(m), Mods(m)
    for n in sorted(m.raw):
        fn = m.fn(n)
        if fn is None or not fn.loops or m.raw[n]['src'].startswith('yy') or m.raw[n]['src'] in ('yyrefill',):
            continue
        C.cover['functions with loops'] += 1
        try:
            ps = effects(fn, mods=mods, limit=1500)
        except Undecided as x:
            C.undecided('loop', n, x)
            continue
        done = {}
        for p in ps:
            if p.end[0] != 'back':
                continue
            at = [k for k, e in enumerate(p.events) if e[0] == 'loop' and e[1] == p.end[1]]
            if not at:
                continue
            C.cover['rounds'] += 1
            ok = changes(p, at[-1], inert)
            d = done.setdefault(p.end[1], [True, None])
            if not ok and d[0]:
                d[0], d[1] = False, p
        for l, (ok, p) in sorted(done.items()):
            line = fn.loopline(l) if hasattr(fn, 'loopline') else ''
            C.ob('loop', '%s%s' % (fn.where(), line), ok, key='%s:%s' % (src(m, n), l), msg='%s: a round of a loop changes nothing that is tested, so that it goes on forever' % src(m, n),
                 path=p.lines() if p else None)

def g05(C):
    C.rule('repeat', 'what is repeated consumes input each time', 60)
    C.rule('reenter', 'a rule is entered again only after something was consumed', 150)
    C.rule('entry', 'a parse consumes input or notes its end', 8)
    C.rule('round', 'a further segment is parsed only if something was consumed and more may follow', 6)
    C.rule('loop', 'every round of a loop changes what decides whether it goes on', 150)
    m = lib_module(quick.KEEP_Q)
    for f, files in (('parser.leg', ('/parser.c', '/parser_leg.c')), ('quick_parser.leg', ('/quick_parser.c', '/quick_parser_leg.c'))):
        g = leg.load(f)
        for n in ('directive', 'statement'):
            C.anchor(n in g.rules, '%s in %s' % (n, f))
        try:
            acts = eof_actions(m, g, files)
            progress(C, f, g, acts, ('directive', 'statement'))
        except Undecided as x:
            C.undecided('entry', f, x)
    for names, mod, qk in (((('cypher_uparse_each', 0, 1), ('cypher_fparse_each', 1, 1), ('cypher_uparse', 0, 0), ('cypher_fparse', 1, 0)), lib_module(segments.KEEP_S), 0),
                           ((('cypher_quick_uparse', 0, 1), ('cypher_quick_fparse', 1, 1)), m, 1)):
        for name, stream, each in names:
            C.anchor(mod.fn(name) is not None, name)
            try:
                rounds(C, mod, name, stream, each, qk)
            except Undecided as x:
                C.undecided('round', name, x)
    loops(C, lib_module(('@all',)))

PROPS = {'G05': g05}
