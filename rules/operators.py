"""Operators, their binding strength and grouping (G04): the predicates of the grammar that
steer precedence climbing are compiled and their IR is evaluated for every operator and every
minimum strength; the grammar is followed on all paths with the operator last recognised and
the stack of minimum strengths."""
import os, re
import front, gact, leg, ir
from effects import *
from ir import *
import grammar

def table():
    """NAME -> (level, assoc, form, text); higher level binds tighter"""
    out = {}
    ls = [l.split() for l in open(os.path.join(front.VERIF, 'spec/operators.txt')) if l.strip() and l[0] != '#']
    for k, l in enumerate(reversed(ls)):
        for w in l[1:]:
            n, f, t = w.split(':', 2)
            out[n] = (k, l[0], f, t.replace('_', ' '))
    return out

class Need(Exception):
    pass

class Preds:
    """the predicates and error actions of the grammar, as IR"""
    def __init__(self, g):
        self.g = g
        self.ids = {}
        txt = []
        for n in g.rules:
            for e in g.walk(g.rules[n]):
                if e[0] == 'pred':
                    self.add(('pred', e[1]), txt)
                elif e[0] == 'err':
                    self.add(('err', e[2]), txt)
        raw = front.load('lib', keep=('@all',), append={'lib/src/parser.c': '\n'.join(txt) + '\n'})
        self.m = Module(raw)
        self.fx = {}
        self.ops = {}
        for n, v in grammar.opstrings(self.m).items():
            self.ops[n[len('CYPHER_OP_'):]] = v
        x = self.m.field('_yycontext', 'op')
        self.opoff = x['o'] if x else None

    def add(self, k, txt):
        if k in self.ids:
            return
        self.ids[k] = '__verif_%s_%d' % (k[0], len(self.ids))
        if k[0] == 'pred':
            txt.append('__attribute__((used)) int %s(yycontext *yy) { return (%s) ? 1 : 0; }' % (self.ids[k], k[1]))
        else:
            txt.append('__attribute__((used)) void %s(yycontext *yy) { %s; }' % (self.ids[k], k[1]))

    def src(self, f):
        if f in self.m.raw and self.m.fn(f):
            return f
        return None

    def touches(self, k):
        """does the predicate use operators or strengths at all?"""
        seen, work = set(), [self.ids[k]]
        while work:
            f = work.pop()
            if f in seen or f not in self.m.raw:
                continue
            seen.add(f)
            if f.startswith('precedences_'):
                return True
            fn = self.m.fn(f)
            if fn is None:
                continue
            for b in fn.blocks:
                for i in b:
                    if i['op'] == 'call' and i.get('callee'):
                        work.append(i['callee'])
                    for a in i.get('args', []):
                        if a[0] == 'g' and re.match(r'CYPHER_OP_\w+$', str(a[1])):
                            return True
        return False

    def paths(self, f):
        if f not in self.fx:
            fn = self.m.fn(f)
            if fn is None:
                raise Undecided('no body for ' + f)
            self.fx[f] = effects(fn)
        return self.fx[f]

    def run(self, k, op, stk, last=None):
        """[(truth, op, stk, asked)]: op a name or None, stk a tuple of numbers; asked: the
        strength of the caller was looked at; `last` is that strength"""
        self.last = last
        return self.call(self.ids[k], [('yy',)], dict(op=op, stk=stk, asked=False), 0)

    def call(self, f, args, st, depth):
        if depth > 6:
            raise Undecided('depth')
        out = []
        for p in self.paths(f):
            if p.end[0] == 'stop':
                continue
            if p.end[0] != 'ret':
                raise Undecided('loop in ' + f)
            s = dict(st)
            vals = {}
            mem = {}
            def ev(e, at=None):
                k = e[0]
                if k == 'c':
                    return e[1]
                if k == 'null':
                    return 0
                if k == 'arg':
                    return args[e[1]]
                if k in vals or e in vals:
                    return vals[e]
                if k == 'g':
                    return ('g', e[1])
                if k == 'addr':
                    b = ev(e[1])
                    if e[3] or not isinstance(b, tuple):
                        raise Undecided('address')
                    return ('at', b, e[2])
                if k == 'ld':
                    a = ev(e[1])
                    if a in mem:
                        return mem[a]
                    if a[0] == 'g' and a[1].startswith('CYPHER_OP_'):
                        return ('op', a[1][len('CYPHER_OP_'):])
                    if a == ('at', ('yy',), self.opoff):
                        if s['op'] is None:
                            raise Need()
                        return ('op', s['op'])
                    base, off = (a[1], a[2]) if a[0] == 'at' else (a, 0)
                    if base[0] == 'op' and base[1] in self.ops:
                        nums = self.ops[base[1]][1]
                        if off // 4 < len(nums) and off < 8:
                            return nums[off // 4]
                    raise Undecided('load in predicate')
                if k == 'add':
                    return ev(e[1]) + ev(e[2])
                if k == 'sub':
                    return ev(e[1]) - ev(e[2])
                if k == 'cmp':
                    return cmpv(e, ev)
                if k == 'bool':
                    return bool(ev(e[1]))
                if k == 'select':
                    return ev(e[2]) if ev(e[1]) else ev(e[3])
                if k in ('and', 'or', 'xor', 'mul'):
                    x, y = int(ev(e[1])), int(ev(e[2]))
                    return {'and': x & y, 'or': x | y, 'xor': x ^ y, 'mul': x * y}[k]
                if k == 'usub.sat':
                    return max(0, ev(e[1]) - ev(e[2]))
                if k in ('umax', 'smax', 'umin', 'smin'):
                    return (max if 'max' in k else min)(ev(e[1]), ev(e[2]))
                if k == 'ptradd':
                    raise Undecided('pointer')
                raise Undecided('value %s in predicate' % k)
            states = [(s, vals, mem)]
            ok = True
            # effects first (their arguments may need earlier results), conditions afterwards
            try:
                subs = [None]
                for e in p.events:
                    if e[0] == 'store':
                        a = ev(e[1])
                        v = ev(e[2])
                        if a == ('at', ('yy',), self.opoff):
                            if not (isinstance(v, tuple) and v[0] == 'op'):
                                raise Undecided('operator set to something else')
                            s['op'] = v[1]
                        elif a[0] == 'at' and a[1] == ('yy',):
                            pass
                        mem[a] = v
                    elif e[0] == 'call':
                        n = e[1]
                        if n == 'precedences_push':
                            s['stk'] = s['stk'] + (ev(e[2][1]),)
                            vals[e[3]] = 0
                        elif n == 'precedences_pop':
                            if not s['stk']:
                                s['stk'] = ('under',)
                                vals[e[3]] = 0
                            else:
                                vals[e[3]] = s['stk'][-1]
                                s['stk'] = s['stk'][:-1]
                        elif n == 'precedences_last':
                            if s['stk']:
                                vals[e[3]] = s['stk'][-1]
                            else:
                                s['asked'] = True
                                if self.last is None:
                                    raise Undecided('asks for the strength of its caller')
                                vals[e[3]] = self.last
                        elif n == 'precedences_size':
                            raise Undecided('size')
                        elif isinstance(n, str) and self.src(n):
                            r = self.call(n, [ev(a) for a in e[2]], s, depth + 1)
                            if len(r) != 1:
                                raise Undecided('several outcomes of ' + n)
                            t, o, k2, asked = r[0]
                            s['op'], s['stk'], s['asked'] = o, k2, asked
                            vals[e[3]] = t
                            mem.clear()
                        else:
                            raise Undecided('call of %s in a predicate' % (n,))
                for a, v in p.facts.items():
                    if bool(ev(a)) != v:
                        ok = False
                        break
                if not ok:
                    continue
                r = ev(p.end[1]) if p.end[1] is not None else 0
            except Need:
                raise
            out.append((r, s['op'], s['stk'], s['asked']))
        return out

def cmpv(e, ev):
    a, b = ev(e[2]), ev(e[3])
    p = e[1]
    if p == 'eq':
        return a == b
    if p == 'ne':
        return a != b
    if isinstance(a, tuple) or isinstance(b, tuple):
        raise Undecided('comparison of pointers')
    p = p[1:]
    return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p]

class Walk:
    """every path through the rules, with the operator last recognised and the pushed strengths"""
    def __init__(self, c, g, P, T, tokens, starts):
        self.c, self.g, self.P, self.T, self.tokens = c, g, P, T, tokens
        self.needs, self.reads, self.done = set(), set(), {}
        self.seen = set()
        self.bads = {}
        self.touch = {}
        self.obs = {}
        reach = {n: self.callees(g.rules[n]) for n in g.rules}
        clo = {}
        for n in g.rules:
            seen, work = set(), list(reach[n])
            while work:
                x = work.pop()
                if x not in seen and x in reach:
                    seen.add(x)
                    work.extend(reach[x])
            clo[n] = seen
        self.rec = {n for n in g.rules if n in clo[n]}
        direct = {n for n in g.rules if any(e[0] in ('pred', 'err') and self.pk(e) is not None for e in g.walk(g.rules[n]))}
        self.touching = {n for n in g.rules if n in direct or clo[n] & direct}
        todo = [s for s in starts if s in g.rules]
        self.reachable = set(todo)
        for s in todo:
            self.reachable |= clo[s]

    def callees(self, e):
        return {x[1] for x in self.g.walk(e) if x[0] == 'rule'}

    def pk(self, e):
        k = ('pred', e[1]) if e[0] == 'pred' else ('err', e[2])
        if k not in self.touch:
            self.touch[k] = self.P.touches(k)
        return k if self.touch[k] else None

    # state: (op, chk, stk, tok, pend, used, ck)
    def solve(self):
        for _ in range(12):
            n0 = (len(self.needs), len(self.reads))
            self.bads, self.obs, self.done = {}, {}, {}
            self.chked, self.later = set(), []
            for r in sorted(self.reachable & self.touching):
                if r in self.rec or not any(r in self.callees(self.g.rules[q]) for q in self.reachable):
                    self.rule(r, None, False)
            if (len(self.needs), len(self.reads)) == n0:
                # a prefix operator whose strength is never compared is admitted everywhere
                ops = [Y for Y in sorted(self.T) if Y in self.P.ops and (self.T[Y][2] != 'prefix' or Y in self.chked)]
                for r, op, v in self.later:
                    if op is not None:
                        bad = [Y for Y in ops if self.admits(v, Y) != self.should(op, Y)]
                        self.ob('operand', r, not bad, 'the operand of %s %s %s' % (op, 'may not contain' if bad and self.should(op, bad[0]) else 'may contain', bad[0] if bad else ''), 'next:' + str(op))
                    else:
                        bad = [Y for Y in ops if not self.admits(v, Y)]
                        self.ob('operand', r, not bad, 'rule %s: a delimited expression may not contain %s' % (r, bad[0] if bad else ''), 'top')
                return
        raise Undecided('no fixpoint')

    def rule(self, r, op, chk):
        k = (r, op, chk)
        if k in self.done:
            return
        self.done[k] = True
        if r in self.needs and op is None:
            return
        self.cur, old = r, getattr(self, 'cur', None)
        try:
            S = self.ex(self.g.rules[r], {(op, chk, (), '', None, False, False)}, r, ())
            for s in S:
                self.ob('balance', r, s[2] == (), 'rule %s succeeds with %d minimum strengths left on the stack' % (r, len(s[2])), 'left')
        except Need:
            self.needs.add(r)
        finally:
            self.cur = old

    def ob(self, rule, r, ok, msg, key=None):
        self.obs[rule] = self.obs.get(rule, 0) + 1
        if not ok:
            self.bads[(rule, r, key or msg)] = msg

    def tokened(self, s, text, r):
        if s[4] is not None:
            t = self.P.ops.get(s[4], (None,))[0]
            self.ob('token', r, text is None or t == text, 'rule %s: operator %s (%s) is set where "%s" is read' % (r, s[4], t, text), 'tok:' + s[4])
        return s[:3] + (text or '', None, True, s[6])

    def firsttext(self, e):
        k = e[0]
        if k == 'seq':
            for x in e[1]:
                if x[0] in ('pred', 'act', 'begin', 'end'):
                    continue
                t = self.firsttext(x)
                if t == '':
                    continue
                return t
            return ''
        if k == 'err' or k == 'plus':
            return self.firsttext(e[1])
        if k == 'rule':
            if e[1] in self.tokens:
                return self.tokens[e[1]]
            if e[1] in self.rec or e[1] not in self.g.rules:
                return None
            return self.firsttext(self.g.rules[e[1]])
        if k == 'str':
            return e[1].decode('latin1')
        if k == 'alt':
            ts = {self.firsttext(x) for x in e[1]}
            return ts.pop() if len(ts) == 1 else None
        if k in ('not', 'and'):
            return ''
        return None

    def infallible(self, e):
        k = e[0]
        if k in ('act', 'begin', 'end', 'star', 'opt'):
            return True
        if k == 'pred':
            pk = self.pk(e)
            if pk is None:
                return False
            return True if self.always(pk) else False
        if k == 'err':
            return self.infallible(e[1])
        if k == 'seq':
            return all(self.infallible(x) for x in e[1])
        if k == 'alt':
            return any(self.infallible(x) for x in e[1])
        if k == 'rule':
            return e[1] not in self.rec and e[1] in self.g.rules and self.infallible(self.g.rules[e[1]])
        if k == 'str':
            return e[1] == b''
        return False

    def always(self, pk):
        try:
            ok = True
            for X in sorted(self.P.ops):
                for last in (0, 1000):
                    for t, *_ in self.P.run(pk, X, (), last) if pk[0] == 'pred' else ():
                        ok &= bool(t)
            return ok
        except (Need, Undecided):
            return False

    def sets(self, e):
        """may the element set the operator?"""
        for x in self.g.walk(e):
            if x[0] == 'pred' and self.pk(x) is not None:
                return True
            if x[0] == 'rule' and x[1] in self.touching:
                return True
        return False

    def ex(self, e, S, r, base):
        k = e[0]
        if not S:
            return S
        if k == 'seq':
            for x in e[1]:
                if any(s[2] != base for s in S) and x[0] not in ('err', 'pred') and not self.infallible(x):
                    self.ob('balance', r, False, 'rule %s: %s may fail while a minimum strength is on the stack' % (r, leg.show(x)), 'fail')
                S = self.ex(x, S, r, base)
            return S
        if k == 'alt':
            out, dirty = set(), False
            for x in e[1]:
                out |= self.ex(x, {(None, False) + s[2:] for s in S} if dirty else S, r, base)
                dirty = dirty or self.sets(x)
            return out
        if k in ('star', 'plus', 'opt'):
            out = set() if k == 'plus' else set(S)
            work = set(S)
            seen = set()
            chks = []
            while work:
                seen |= work
                got = self.ex(e[1], {s[:6] + (False,) for s in work}, r, base)
                chks.extend(got)
                for s in got:
                    self.ob('balance', r, s[2] in {w[2] for w in work}, 'rule %s: a round of %s changes the stack of minimum strengths' % (r, leg.show(e)[:40]), 'round')
                nxt = set()
                for s in got:
                    for ck in {w[6] for w in work}:
                        nxt.add(s[:6] + (s[6] or ck,))
                out |= nxt
                work = nxt - seen if k != 'opt' else set()
            if self.sets(e[1]):
                out = {(None, False) + s[2:] for s in out}
            if k != 'opt' and any(s[6] for s in chks):
                self.ob('checked', r, all(s[6] for s in chks), 'rule %s: an operator can be applied without its strength having been compared with the minimum' % r, 'loop')
            return out
        if k in ('not', 'and'):
            self.ex(e[1], set(S), r, base)
            return S
        if k == 'err':
            T = self.ex(e[1], S, r, base)
            pk = self.pk(e)
            if pk is not None or any(s[2] != base for s in S):
                for s in S:
                    if pk is None:
                        stk = s[2]
                    else:
                        res = self.run(pk, s, r)
                        stk = res[0][2] if len(res) == 1 else None
                    self.ob('balance', r, stk == base, 'rule %s: when %s fails the stack of minimum strengths is not as it was before' % (r, leg.show(e[1])), 'err')
            return T
        if k == 'pred':
            pk = self.pk(e)
            if pk is None:
                return S
            out = set()
            for s in S:
                for t, op, stk, asked in self.run(pk, s, r):
                    if not t and t is not None:
                        continue
                    s2 = s
                    if stk != s[2]:
                        s2 = s2[:2] + (stk,) + s2[3:]
                    if op != s[0]:
                        s2 = (op, False) + s2[2:]
                    if (op != s[0] or self.setter(pk)) and not (asked or t is None):
                        if stk == s[2]:
                            txt = self.P.ops.get(op, (None,))[0]
                            s2 = (op, False) + s2[2:]
                            if s2[3] == txt:
                                self.ob('token', r, True, '')
                                s2 = s2[:3] + ('',) + s2[4:]
                            elif s2[3] and s2[5] and s2[3] in {o[0] for o in self.P.ops.values()}:
                                self.ob('token', r, False, 'rule %s: operator %s (%s) is set where "%s" was read' % (r, op, txt, s2[3]), 'tok:%s:%s' % (op, s2[3]))
                            else:
                                s2 = s2[:4] + (op,) + s2[5:]
                    if t is None:
                        # a comparison
                        if not s[2]:
                            self.reads.add(r)
                            if self.cur != r:
                                self.reads.add(self.cur)
                        f = self.T.get(op, (0, '', '?'))[2]
                        self.ob('checked', r, f != 'prefix' or op == 'NOT', 'rule %s: the strength of the prefix operator %s is compared with the minimum' % (r, op), 'prefix')
                        s2 = (op, True) + s2[2:6] + (True,)
                    out.add(s2)
            return out
        if k == 'str':
            return {self.tokened(s, e[1].decode('latin1'), r) for s in S} if e[1] else S
        if k in ('cls', 'any'):
            return {self.tokened(s, None, r) for s in S}
        if k in ('act', 'begin', 'end'):
            if k == 'act':
                for s in S:
                    self.act(e, s, r)
            return S
        if k == 'rule':
            return self.callrule(e, S, r, base)
        raise Undecided('element ' + k)

    def act(self, e, s, r):
        pass

    def setter(self, pk):
        if pk not in self.seen:
            self.seen.add(pk)
        try:
            res = self.P.run(pk, None, (), None)
            return len(res) == 1 and res[0][1] is not None
        except (Need, Undecided):
            return False

    def run(self, pk, s, r):
        """outcomes of a predicate; truth None when it is the comparison with the minimum"""
        op = s[0]
        try:
            return [x for x in self.P.run(pk, op, s[2], None)]
        except Need:
            if op is None:
                raise
            raise
        except Undecided:
            pass
        # it looks at the strength of the caller
        X = op
        if X is None:
            raise Need()
        res = [self.P.run(pk, X, (), last) for last in (0,)]
        if any(x[1] != X or x[2] != () for y in res for x in y):
            raise Undecided('a predicate that compares and does something else')
        self.chked.add(X)
        return [(None, X, s[2], True)]

    def callrule(self, e, S, r, base):
        n = e[1]
        if n in self.tokens:
            return {self.tokened(s, self.tokens[n], r) for s in S}
        if n not in self.g.rules:
            return S
        if n not in self.touching:
            if self.g.nullable(self.g.rules[n]):
                return S
            t = self.firsttext(self.g.rules[n])
            out = set()
            for s in S:
                s = self.tokened(s, t, r)
                out.add(s[:3] + ('',) + s[4:])
            return out
        if n not in self.rec:
            out = set()
            for s in S:
                for t in self.ex(self.g.rules[n], {s}, n, s[2]):
                    self.ob('balance', n, t[2] == s[2], 'rule %s succeeds with %d minimum strengths left on the stack' % (n, len(t[2]) - len(s[2])), 'left')
                    out.add(t)
            return out
        out = set()
        for s in S:
            op, chk, stk, tok, pend, used, ck = s
            if pend is not None:
                self.ob('token', r, True, '')
            form = self.T.get(op, (0, '', None))[2]
            if n in self.needs:
                if op is None:
                    if used:
                        self.ob('operand', r, False, 'rule %s: an operand is parsed with the strength of whichever operator was recognised last' % r, 'stale')
                        out.add((None, False) + s[2:4] + (None, True, ck))
                        continue
                    raise Need()
                if form in ('infix', 'chain'):
                    self.ob('checked', r, chk, 'rule %s: the operand after %s is parsed although its strength was not compared with the minimum' % (r, op), 'operand:' + op)
                self.rule(n, op, chk)
            else:
                if form in ('infix', 'chain', 'prefix') and stk == ():
                    self.ob('operand', r, False, 'rule %s: the operand of %s is parsed regardless of its strength' % (r, op), 'strength:' + op)
                self.rule(n, None, False)
            if n in self.reads:
                if stk == ():
                    if used:
                        self.ob('operand', r, False, 'rule %s: %s is parsed with the minimum strength of the enclosing expression' % (r, n), 'caller:' + n)
                    else:
                        self.reads.add(r)
                else:
                    v = stk[-1]
                    self.later.append((r, op if form in ('infix', 'chain', 'prefix') else None, v))
            out.add((None, False) + stk_clean(s) + ('', None, True, ck))
        return out

    def should(self, X, Y):
        lx, ax, fx, _ = self.T[X]
        ly = self.T[Y][0]
        return ly > lx or ly == lx and (ax == 'right' or fx == 'prefix')

    def admits(self, v, Y):
        """may an operator Y be applied where the minimum is v (by the comparison found)"""
        if v == 'under':
            return False
        return bool(self.cmpf(Y, v))

def stk_clean(s):
    return (s[2],)

def G04(c):
    g = leg.load('parser.leg')
    T = table()
    P = Preds(g)
    c.rule('table', 'the operators bind in the order of spec/operators.txt, and those of one level have its associativity', floor=100)
    c.rule('comparison', 'the predicate that decides whether an operator may be applied compares its strength with the minimum', floor=100)
    c.rule('token', 'an operator is set exactly where its own text is read, and the operator recorded is that one', floor=20)
    c.rule('checked', 'an operator is applied only after its strength was compared with the minimum', floor=10)
    c.rule('operand', 'an operand admits exactly the operators that bind tighter (or as tight, for right-grouping and prefix ones); a delimited expression admits all', floor=4)
    c.rule('balance', 'each minimum strength pushed is popped again when the operand matched and when it did not', floor=5)
    c.rule('node', 'an operator node is built of an operator of its arity; a comparison chain contains comparisons of one level only', floor=3)
    # the table itself
    names = sorted(set(T) & set(P.ops))
    for X in sorted(T):
        c.ob('table', 'CYPHER_OP_' + X, X in P.ops, msg='there is no such operator')
    for X in names:
        c.ob('table', 'CYPHER_OP_%s text' % X, P.ops[X][0] == T[X][3], msg='its text is %r' % P.ops[X][0])
        for Y in names:
            if X < Y:
                a, b = P.ops[X][1][0], P.ops[Y][1][0]
                want = (T[X][0] > T[Y][0]) - (T[X][0] < T[Y][0])
                c.ob('table', '%s against %s' % (X, Y), (a > b) - (a < b) == want, key='%s/%s' % (X, Y),
                     msg='%s binds %s %s' % (X, 'tighter than' if a > b else 'looser than' if a < b else 'as tight as', Y))
    R = grammar.analyse()
    starts = R.starts
    W = Walk(c, g, P, T, R.tokens, starts)
    # the comparison
    cmps = []
    for k in sorted(P.ids):
        if k[0] == 'pred' and P.touches(k):
            try:
                P.run(k, names[0], (), None)
            except Need:
                pass
            except Undecided:
                cmps.append(k)
    c.anchor(cmps, 'a predicate comparing the strength of the operator with the minimum')
    vals = sorted({P.ops[X][1][0] for X in names})
    pts = [0] + vals + [v + 1 for v in vals]
    for k in cmps:
        try:
            for X in names:
                for v in sorted(set(pts)):
                    res = P.run(k, X, (), v)
                    ok = len(res) == 1 and bool(res[0][0]) == (P.ops[X][1][0] >= v)
                    c.ob('comparison', '&{%s} for %s and minimum %d' % (k[1].strip(), X, v), ok, key='%s:%s' % (k[1].strip(), X),
                         msg='the predicate is %s although the strength is %d' % (bool(res[0][0]) if res else '?', P.ops[X][1][0]))
        except (Need, Undecided) as e:
            c.undecided('comparison', k[1], e)
    def cmpf(Y, v):
        r = P.run(cmps[0], Y, (), v)
        return len(r) == 1 and r[0][0]
    W.cmpf = cmpf
    try:
        W.solve()
        for rule, n in W.obs.items():
            bad = [(k, m) for k, m in W.bads.items() if k[0] == rule]
            for k, m in bad:
                c.ob(rule, 'lib/src/parser.leg:%s rule %s' % (g.line.get(k[1], '?'), k[1]), False, key='%s:%s' % (k[1], k[2]), msg=m)
            for _ in range(n - len(bad)):
                c.ob(rule, 'paths of the grammar', True)
        c.cover['rules with precedence predicates'] = len(W.touching)
        c.cover['rule contexts'] = len(W.done)
    except Undecided as e:
        for r in ('checked', 'operand', 'balance', 'token'):
            c.undecided(r, 'grammar walk', e)
    # the operator recorded is the one that was read
    for (rule, act), ps in sorted(R.pushes.items()):
        for op, last in sorted(ps, key=str):
            X = (op or '')[len('CYPHER_OP_'):]
            txt = P.ops.get(X, (None,))[0]
            ok = last == txt
            c.ob('token', 'rule %s %s' % (rule, act), ok, key='push:%s:%s' % (rule, X), msg='operator %s is recorded where "%s" was read' % (op, last))
    nodes(c, R, P, T)

def nodes(c, R, P, T):
    for (cur, ctor), ops in sorted(R.opsof.items(), key=str):
        for o in sorted(ops):
            X = o[len('CYPHER_OP_'):]
            f = T.get(X, (0, '', '?'))[2]
            if ctor.endswith('unary_operator'):
                c.ob('node', '%s of %s in rule %s' % (ctor, X, cur[0]), f in ('prefix', 'postfix'), key='%s:%s' % (ctor, X), msg='%s is not a unary operator' % X)
            elif ctor.endswith('binary_operator'):
                c.ob('node', '%s of %s in rule %s' % (ctor, X, cur[0]), f in ('infix', 'chain') or X == 'NOT', key='%s:%s' % (ctor, X), msg='%s is not a binary operator' % X)
            elif ctor.endswith('comparison'):
                c.ob('node', '%s of %s in rule %s' % (ctor, X, cur[0]), f == 'chain', key='%s:%s' % (ctor, X), msg='%s does not form chains' % X)

PROPS = {'G04': G04}
