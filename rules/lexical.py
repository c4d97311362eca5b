"""The terminals of the grammar: what text they match, what text they yield, and which
newlines they report (L01-L03), decided as equality of parsing expressions."""
import multiprocessing, os, re, time
import front, gact, leg, lex, peg
from effects import *
from ir import *
import grammar

class ParserActs:
    """what the actions of parser.leg do with text, read from their IR"""
    def __init__(self, R):
        self.R, self.M, self.g = R, R.M, R.g
        self.memo = {}
        self.pmemo = {}
        self.calls = {}

    def state(self):
        S = gact.State()
        S.heap = {0: gact.Block(), 1: gact.Block(), 2: gact.Block()}
        S.frames = (0, 1)
        S.prev = 2
        S.sb = 'R'
        return S

    def run(self, fname, rule):
        M = self.M
        ev = []
        def hook(what, S, d):
            ev.append((what, d))
        old = M.events, M.report if hasattr(M, 'report') else None
        M.events = [hook]
        try:
            n = M.resolve(fname)
            S = self.state()
            M.cur = (rule, fname)
            outs = M.run(n, [('yyp',), ('?',), ('?',)], S)
        finally:
            M.events = old[0]
        return ev, outs

    def acts(self, rule, idx, text):
        k = (rule, idx)
        if k in self.memo:
            return self.memo[k]
        f = 'yy_%d_%s' % (idx, rule)
        out = []
        try:
            n = self.M.resolve(f)
            if not self.M.opaque(n):
                ev, outs = self.run(f, rule)
                src = {}
                for w, d in ev:
                    if w == 'text':
                        src[d[1]] = d[0]
                for w, d in ev:
                    if w == 'sb' and d[0] == 'reset':
                        out.append(('reset',))
                    elif w == 'sb':
                        p, ln = d[1], d[2]
                        if p == ('bufp', 2):
                            if ln == ('bufn', 2):
                                out.append(('copy',))
                            elif ln[0] == '?' :
                                raise peg.PegError('how much of the region is collected')
                            else:
                                out.append(('out', 'part of the region'))
                        elif p[0] == 'bufpart':
                            out.append(('out', 'part of the region'))
                        elif p[0] == 'g' and ln[0] == 'c':
                            s = self.const(p[1], ln[1])
                            if s is None:
                                raise peg.PegError('unknown constant text')
                            out.append(('append', s))
                        else:
                            raise peg.PegError('collected text %s' % (p[0],))
                    elif w == 'build':
                        c = d[0]
                        out.append(('node', re.sub(r'^cypher_ast_', '', c), src.get(c, 'sb')))
            eof = self.eof(n)
            if eof:
                out.append(('out', 'eof'))
        except gact.NeedInline:
            raise peg.PegError('action of rule %s uses its caller' % rule)
        except Undecided as e:
            raise peg.PegError(str(e))
        self.memo[k] = out
        return out

    def const(self, g, n):
        x = self.M.m.globals.get(g)
        if x is None or not x.get('init'):
            return None
        i = x['init']
        s = self.M.m.gstr(('g', g))
        if s is None:
            return None
        b = s.encode('latin1') if isinstance(s, str) else bytes(s)
        b += b'\0'
        return b[:n] if n <= len(b) else None

    def eof(self, n):
        fn = self.M.cfn(n)
        off = self.M.yyoff('eof')
        for p in effects(fn):
            for e in p.events:
                if e[0] == 'store' and e[1][0] == 'addr' and e[1][2] == off and e[2] == ('c', 1):
                    return True
        return False

    def preds(self, text):
        if text in self.pmemo:
            return self.pmemo[text]
        out = []
        for f in self.M.thunks(text):
            n = self.M.resolve(f)
            S = self.state()
            self.M.cur = ('?', text)
            res = self.M.run(n, [('yyp',), ('?',), ('?',)], S)
            ds = {len(s.frames) - 2 for s, _ in res}
            if ds == {1}:
                out.append(('open',))
            elif ds == {-1}:
                out.append(('close',))
            else:
                raise peg.PegError('block action ' + f)
        if not out:
            t = self.calls_of(text)
            if 'line_start' in t:
                out.append(('event', 'line'))
            elif re.fullmatch(r'\s*0\s*', text):
                raise peg.PegError('predicate')
        self.pmemo[text] = out
        return out

    def calls_of(self, text):
        return set(re.findall(r'\b([A-Za-z_]\w*)\s*\(', self.M.expandmacros(text)))

def reference(name):
    p = os.path.join(front.VERIF, 'spec', name + '.leg')
    return leg.Grammar(open(p).read(), 'spec/%s.leg' % name)

def show(w):
    return peg.word(w)

def compare(c, rule, g, conv, ref, n, what):
    if n not in g.rules:
        c.undecided(rule, what, 'no rule of that name')
        return
    try:
        e = conv.peg(n)
        r = ref.peg(n)
        w, states = peg.equivalent(e, r)
    except peg.PegError as x:
        c.undecided(rule, what, x)
        return
    c.cover['automaton states explored'] += states
    c.ob(rule, what, w is None, key=n, msg='differs from its definition on this input (\u2023 marks the end of the match, \u27e8\u27e9 what is collected): %s' % repr(show(w)) if w is not None else None)

def L01(c):
    R = grammar.machine()
    A = ParserActs(R)
    conv = lex.Conv(R.g, A.acts, A.preds)
    ref = lex.Conv(reference('lexical'), lex.ref_acts, lex.ref_preds)
    c.rule('terminal', 'a terminal matches the text, collects the characters and covers the range that spec/lexical.leg says', floor=10)
    for n in ('identifier', 'label', 'rel_type', 'rel_type_name', 'prop_name', 'index_name', 'function_name', 'proc_name', 'parameter',
              'string_literal', 'integer_literal', 'float_literal', 'true_literal', 'false_literal', 'null_literal', 'client_arg_string',
              '_', '__', 'line_end', 'comment'):
        compare(c, 'terminal', R.g, conv, ref, n, 'lib/src/parser.leg:%s rule %s' % (R.g.line.get(n, '?'), n))

def kwref(text):
    """the parsing expression of a keyword or sign, in the reference notation"""
    out = []
    for k, w in enumerate(text.split(' ')):
        if k:
            out.append(('rule', '_', None))
        if w.isalpha():
            for ch in w:
                out.append(('cls', frozenset([ord(ch.lower()), ord(ch.upper())])))
            out.append(('rule', 'wb', None))
        else:
            out.append(('str', w.encode()))
    return ('seq', out)

def keywords():
    out = {}
    for l in open(os.path.join(front.VERIF, 'spec/keywords.txt')):
        if l.strip() and l[0] != '#':
            n, t = l.rstrip('\n').split(': ', 1)
            out[n] = t
    return out

def L02(c):
    R = grammar.machine()
    g = R.g
    A = ParserActs(R)
    conv = lex.Conv(g, A.acts, A.preds)
    rg = reference('lexical')
    ref = lex.Conv(rg, lex.ref_acts, lex.ref_preds)
    kw = keywords()
    c.rule('word', 'a keyword matches exactly its letters in either case up to a word boundary, a sign exactly its characters, with white space and comments allowed between words', floor=60)
    texts = {t: n for n, t in kw.items()}
    used = set()
    for n in g.rules:
        for e in g.walk(g.rules[n]):
            if e[0] == 'rule':
                used.add(e[1])
    for n in sorted(set(kw) & set(g.rules) | set(R.tokens)):
        t = kw.get(n)
        what = 'lib/src/parser.leg:%s rule %s' % (g.line.get(n, '?'), n)
        if t is None:
            t = R.tokens[n]
            if t not in texts:
                # a sign or word used inside other terminals only
                continue
        try:
            ws = ref.flat(('rule', '_', None), '?')
            e = conv.lower(('seq', [conv.rule(n), ws]), set())
            r = ref.lower(('seq', [ref.flat(kwref(t), '?'), ws]), set())
            w, states = peg.equivalent(e, r)
        except peg.PegError as x:
            c.undecided('word', what, x)
            continue
        c.cover['automaton states explored'] += states
        c.ob('word', what, w is None, key=n, msg='is not "%s": they differ on the input %r' % (t, show(w)) if w is not None else None)

def lastset(e, before=None):
    """characters that may be the last one matched by a flat expression; None: nothing matched"""
    k = e[0]
    if k == 'chr':
        return set(e[1])
    if k == 'seq':
        out = {None}
        for x in e[1]:
            l = lastset(x)
            out = (l - {None}) | (out if None in l else set())
        return out
    if k == 'alt':
        return set().union(*[lastset(x) for x in e[1]]) if e[1] else {None}
    if k in ('star', 'opt'):
        return lastset(e[1]) | {None}
    if k == 'plus':
        return lastset(e[1])
    return {None}

def walkflat(e):
    yield e
    if e[0] in ('seq', 'alt'):
        for x in e[1]:
            yield from walkflat(x)
    elif e[0] in ('star', 'plus', 'opt', 'not', 'and'):
        yield from walkflat(e[1])

def spurious(e, before):
    """is the event executed where the last character read need not be a newline?
    returns (bad, last characters after e)"""
    k = e[0]
    if k == 'eff':
        bad = any(x == ('event', 'line') for x in e[1]) and before != {10}
        return bad, before
    if k == 'chr':
        return False, set(e[1])
    if k == 'seq':
        for x in e[1]:
            bad, before = spurious(x, before)
            if bad:
                return True, before
        return False, before
    if k == 'alt':
        out, b = set(), False
        for x in e[1]:
            bad, l = spurious(x, before)
            b |= bad
            out |= l
        return b, out
    if k in ('star', 'plus', 'opt'):
        bad, l = spurious(e[1], before)
        if k != 'opt':
            bad2, l2 = spurious(e[1], before | l)
            bad |= bad2
            l |= l2
        return bad, (l if k == 'plus' else l | before)
    if k in ('not', 'and'):
        return spurious(e[1], before)[0], before
    return False, before

def newline_word(e):
    """an input on which a newline is matched but not reported, or None"""
    m = peg.Machine()
    alpha, outs = peg.alphabet(e, ('chr', frozenset([10])), ('out', ('line',)))
    L = ('out', ('line',))
    f = m.expand('m', (e,))
    from collections import deque
    start = (f, 0)
    seen = {(peg.key((f,)), 0): None}
    q = deque([start])
    n, t0 = 0, time.time()
    while q:
        st, mon = q.popleft()
        n += 1
        if n > 100000 or n % 50 == 0 and time.time() - t0 > 100 or len(m.b.tab) + len(m.b.memo) > 4000000:
            raise peg.PegError('too many states')
        k = (peg.key((st,)), mon)
        if mon == 2 and m.accepts(st):
            path = []
            while seen[k] is not None:
                path.append(seen[k][1])
                k = seen[k][0]
            return path[::-1], n
        for s in alpha + ['#'] + outs:
            nx = m.delta(st, s)
            if nx is False:
                continue
            nm = mon
            if s == '#' and mon == 0:
                continue
            if mon == 1:
                nm = 0 if s == L else 2
            if nm == 0 and s == 10:
                nm = 1
            kk = (peg.key((nx,)), nm)
            if kk not in seen:
                seen[kk] = (k, s)
                q.append((nx, nm))
    return None, n

class Lines:
    """conversion that keeps nothing but the reports of line starts"""
    def __init__(self, g, preds):
        self.conv = lex.Conv(g, lambda *a: [], lambda t: [x for x in preds(t) if x[0] == 'event'], events=('line',))

def noregion(e):
    k = e[0]
    if k in ('seq', 'alt'):
        return (k, [noregion(x) for x in e[1]])
    if k in ('star', 'plus', 'opt', 'not', 'and'):
        return (k, noregion(e[1]))
    if k == 'eff':
        return ('eff', [x for x in e[1] if x[0] == 'event'])
    return e

def looked(e, conv):
    """`!X .` where trying X at a newline reports the line start in any case: the newline
    that is then skipped has been reported"""
    k = e[0]
    if k in ('alt',):
        return (k, [looked(x, conv) for x in e[1]])
    if k in ('star', 'plus', 'opt', 'not', 'and'):
        return (k, looked(e[1], conv))
    if k == 'seq':
        out = []
        for x in e[1]:
            y = looked(x, conv)
            if x[0] in ('chr', 'alt') and out and out[-1][0] == 'not' and leads(y) and reports(out[-1][1], conv):
                y = reported(y)
            out.append(y)
        return (k, out)
    return e

def leads(e):
    """may the first character be a newline?"""
    k = e[0]
    if k == 'chr':
        return 10 in e[1]
    if k == 'alt':
        return any(leads(x) for x in e[1])
    if k == 'seq':
        for x in e[1]:
            if x[0] == 'eff':
                continue
            return leads(x)
    return False

def reported(e):
    """the same, with a newline as its first character reported"""
    k = e[0]
    if k == 'chr' and 10 in e[1]:
        return ('alt', [('seq', [('chr', frozenset([10])), ('eff', [('event', 'line')])]), ('chr', e[1] - {10})])
    if k == 'alt':
        return (k, [reported(x) for x in e[1]])
    if k == 'seq':
        for i, x in enumerate(e[1]):
            if x[0] != 'eff':
                return (k, e[1][:i] + [reported(x)] + e[1][i + 1:])
    return e

def takes(e):
    """does it match whenever the next character is a newline?"""
    k = e[0]
    if k == 'chr':
        return 10 in e[1]
    if k == 'alt':
        return any(takes(x) for x in e[1])
    if k == 'seq':
        es = [x for x in e[1] if x[0] != 'eff']
        return bool(es) and takes(es[0]) and all(x[0] in ('star', 'opt') for x in es[1:])
    return False

def without(e):
    """the same where the next character is not a newline"""
    k = e[0]
    if k == 'chr':
        return ('chr', e[1] - {10})
    if k == 'alt':
        return (k, [without(x) for x in e[1]])
    if k == 'seq':
        for i, x in enumerate(e[1]):
            if x[0] not in ('eff', 'not', 'and'):
                return (k, e[1][:i] + [without(x)] + e[1][i + 1:])
    return e

def ordered(e):
    """alternatives behind one that matches every newline do not see any"""
    k = e[0]
    if k == 'seq':
        return (k, [ordered(x) for x in e[1]])
    if k in ('star', 'plus', 'opt', 'not', 'and'):
        return (k, ordered(e[1]))
    if k == 'alt':
        out, taken = [], False
        for x in e[1]:
            x = ordered(x)
            out.append(without(x) if taken else x)
            taken = taken or takes(x)
        return (k, out)
    return e

def plain(e, pend=False):
    """may a newline be matched that is not reported right away? None: one may; else, is one that
    was just matched still to be reported?"""
    k = e[0]
    if k == 'chr':
        return None if pend else 10 in e[1]
    if k == 'eff':
        return pend and ('event', 'line') not in e[1]
    if k == 'seq':
        for x in e[1]:
            pend = plain(x, pend)
            if pend is None:
                return None
        return pend
    if k == 'alt':
        r = [plain(x, pend) for x in e[1]]
        return None if None in r else any(r)
    if k in ('star', 'plus', 'opt'):
        a = plain(e[1], pend)
        if a is None:
            return None
        if k != 'opt' and (a or pend):
            a = plain(e[1], True)
        return None if a is None else a or (pend and k != 'plus')
    return pend

def reports(x, conv):
    m = peg.Machine()
    f = m.expand('t', (conv.lower(marked(x), set()),))
    f = m.delta(m.delta(f, 10), '#')
    return f is True

def marked(e):
    """the events as events, not outputs"""
    k = e[0]
    if k in ('seq', 'alt'):
        return (k, [marked(x) for x in e[1]])
    if k in ('star', 'plus', 'opt', 'not', 'and'):
        return (k, marked(e[1]))
    if k == 'eff':
        return ('peg', ('event',)) if e[1] else ('seq', [])
    return e

def recovery(g):
    """rules that skip what could not be parsed: entered right after an error was recorded"""
    err = {n for n in g.rules if any(e[0] == 'pred' and 'record_error' in e[1] for e in g.walk(g.rules[n]))}
    out, other = set(), set()
    def visit(e, after):
        k = e[0]
        if k == 'seq':
            for x in e[1]:
                visit(x, after)
                after = x[0] == 'rule' and x[1] in err or x[0] == 'pred' and 'record_error' in x[1]
        elif k == 'alt':
            for x in e[1]:
                visit(x, after)
        elif k in ('star', 'plus', 'opt', 'not', 'and', 'err'):
            visit(e[1], after and k != 'star')
        elif k == 'rule':
            (out if after else other).add(e[1])
    for n in g.rules:
        visit(g.rules[n], False)
    return out - other

def first_dropped(e):
    """the expression with its first character unable to be a newline"""
    if e[0] == 'seq':
        for k, x in enumerate(e[1]):
            if x[0] == 'eff':
                continue
            if x[0] == 'chr':
                return ('seq', e[1][:k] + [('chr', x[1] - {10})] + e[1][k + 1:])
            break
    return e

_job = None
def job(n):
    """(exception or None, spurious report?, word, states) of one rule"""
    conv, skips = _job
    try:
        f = noregion(conv.rule(n))
        bad = False
        if any(x[0] == 'chr' for x in walkflat(f)):
            bad, _ = spurious(f, {None})
        f = looked(f, conv)
        if n in skips:
            f = first_dropped(f)
        if plain(ordered(f)) is False:
            return None, bad, None, 1
        w, states = newline_word(conv.lower(f, set()))
        return None, bad, w, states
    except peg.PegError as x:
        return str(x), False, None, 0

def lines(c, g, preds, starts, name):
    skips = recovery(g)
    conv = Lines(g, preds).conv
    calls = {n: {e[1] for e in g.walk(g.rules[n]) if e[0] == 'rule'} for n in g.rules}
    reach, work = set(), [s for s in starts if s in g.rules]
    while work:
        n = work.pop()
        if n not in reach and n in g.rules:
            reach.add(n)
            work.extend(calls[n])
    rec = set()
    for n in reach:
        try:
            conv.rule(n)
        except peg.PegError as e:
            rec.add(n)
    global _job
    _job = conv, skips
    todo = sorted((n for n in reach if n not in rec), key=lambda n: (n not in skips, n))
    with multiprocessing.get_context('fork').Pool(8) as pool:
        res = dict(zip(todo, pool.map(job, todo, chunksize=1)))
    users = {n: {k for k in reach if n in calls[k]} for n in reach}
    def within(n, good, seen=()):
        # a part of other rules is fine where it is fine in each of them: they were judged as a whole
        if good(res[n]):
            return True
        if n in starts or not users[n] or n in seen:
            return False
        return all(k in res and within(k, good, seen + (n,)) for k in users[n])
    for n in sorted(reach):
        what = 'lib/src/%s.leg:%s rule %s' % (name, g.line.get(n, '?'), n)
        if n in rec:
            # its own terminals
            bad = [e for e in g.walk(g.rules[n]) if e[0] == 'str' and b'\n' in e[1] or e[0] == 'cls' and 10 in e[1] or e[0] == 'any']
            c.ob('newline', what, not bad, key=n, msg='a newline may be matched by %s without being reported' % (leg.show(bad[0]) if bad else ''))
            continue
        err, bad, w, states = res[n]
        if err:
            c.undecided('newline', what, err)
            continue
        bad = not within(n, lambda r: not r[0] and not r[1])
        if not within(n, lambda r: not r[0] and r[2] is None):
            w = w if w is not None else ()
        else:
            w = None
        c.ob('spurious', what, not bad, key=n, msg='a line start is reported where the last character read need not be a newline')
        c.cover['automaton states explored'] += states
        c.ob('newline', what, w is None, key=n, msg='a newline is matched without the start of a line being reported: %r' % show([x for x in w if not isinstance(x, tuple)]) if w is not None else None)

def L03(c):
    R = grammar.machine()
    A = ParserActs(R)
    c.rule('newline', 'every newline that is matched is reported as the start of a line', floor=40)
    c.rule('spurious', 'the start of a line is reported only directly behind a newline', floor=40)
    lines(c, R.g, A.preds, R.starts, 'parser')
    c.assume.append('error recovery starts behind white space, or at white space that was looked at before')

PROPS = {'L01': L01, 'L02': L02, 'L03': L03}
