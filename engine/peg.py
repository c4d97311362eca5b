"""Decides whether two non-recursive parsing expressions are the same function: on every
input both succeed or both fail, consume the same text, and produce the same output
(characters collected by the grammar's string buffer and by its captured blocks).

A parsing expression is a deterministic recogniser with ordered choice, greedy repetition
and look-ahead.  `e matches a prefix u of the input uv` is a regular property of the pair
(u, v): the input is read with a mark # between u and v, the states of the automaton are
boolean formulas (kept as binary decision diagrams) over the parsing expressions that are
still to be matched, negation stands for the look-aheads and for the alternatives that were
tried in vain.  Two expressions are the same function iff their automata accept the same
marked inputs, which is decided by exploring pairs of states; a difference comes with the
shortest input that shows it."""
import time
from collections import deque

class PegError(Exception):
    pass

HASH = ('#',)

class BDD:
    def __init__(self):
        self.atoms, self.index = [], {}
        self.tab = {}
        self.memo = {}
    def var(self, atom):
        k = self.index.get(atom)
        if k is None:
            k = self.index[atom] = len(self.atoms)
            self.atoms.append(atom)
        return self.mk(k, False, True)
    def mk(self, v, lo, hi):
        if lo is hi or lo == hi:
            return lo
        k = (v, lo if isinstance(lo, bool) else id(lo), hi if isinstance(hi, bool) else id(hi))
        n = self.tab.get(k)
        if n is None:
            n = self.tab[k] = (v, lo, hi, len(self.tab))
        return n
    def ite(self, c, t, e):
        if c is True:
            return t
        if c is False:
            return e
        if t is e or (isinstance(t, bool) and isinstance(e, bool) and t == e):
            return t
        if t is True and e is False:
            return c
        k = (c[3],) + tuple(x if isinstance(x, bool) else (x[3],) for x in (t, e))
        r = self.memo.get(k)
        if r is None:
            v = min(x[0] for x in (c, t, e) if not isinstance(x, bool))
            f = lambda x, b: x if isinstance(x, bool) or x[0] != v else x[1 + b]
            r = self.memo[k] = self.mk(v, self.ite(f(c, 0), f(t, 0), f(e, 0)), self.ite(f(c, 1), f(t, 1), f(e, 1)))
        return r
    def AND(self, a, b): return self.ite(a, b, False)
    def OR(self, a, b): return self.ite(a, True, b)
    def NOT(self, a): return self.ite(a, False, True)

class Machine:
    """expressions: ('chr', frozenset) ('out', sym) ('seq', tuple) ('alt', tuple) ('star', e)
    ('not', e) ('event',) -- optional: the place whose execution is asked for by ('T', e)
    A state of the main line is a tuple of expressions, to be matched in turn; `look` lines
    ignore marks and outputs."""
    def __init__(self, outputs=True):
        self.b = BDD()
        self.memo = {}
        self.busy = set()
        self.dmemo = {}

    # mode: 'm' main line (then HASH), 'l' look-ahead, 't' place of the event
    def expand(self, mode, cont):
        k = (mode, cont)
        r = self.memo.get(k)
        if r is not None:
            return r
        if k in self.busy:
            raise PegError('a repetition that need not consume anything')
        self.busy.add(k)
        r = self._expand(mode, cont)
        self.busy.discard(k)
        self.memo[k] = r
        return r

    def _expand(self, mode, cont):
        b = self.b
        if not cont:
            if mode == 'l':
                return True
            if mode == 't':
                return False
            return b.var((mode, HASH))
        e, rest = cont[0], cont[1:]
        k = e[0]
        if k == 'chr' or k == 'cpy':
            if not e[1]:
                return False
            return b.var((mode, cont))
        if k == 'out':
            if mode != 'm':
                return self.expand(mode, rest)
            return b.var((mode, cont))
        if k == 'event':
            if mode == 't':
                return b.OR(b.var((mode, HASH)), self.expand(mode, rest))
            return self.expand(mode, rest)
        if k == 'seq':
            return self.expand(mode, tuple(e[1]) + rest)
        if k == 'alt':
            r = False
            fail = True
            for x in e[1]:
                r = b.OR(r, b.AND(fail, self.expand(mode, (x,) + rest)))
                fail = b.AND(fail, b.NOT(self.look(x)))
            if mode == 't':
                # an alternative that failed may have executed the event as well
                fail = True
                for x in e[1]:
                    r = b.OR(r, b.AND(fail, self.expand('t', (x,))))
                    fail = b.AND(fail, b.NOT(self.look(x)))
            return r
        if k == 'star':
            r = b.OR(self.expand(mode, (e[1], e) + rest), b.AND(b.NOT(self.look(e[1])), self.expand(mode, rest)))
            if mode == 't':
                r = b.OR(r, self.expand('t', (e[1],)))
            return r
        if k == 'not':
            r = b.AND(b.NOT(self.look(e[1])), self.expand(mode, rest))
            if mode == 't':
                r = b.OR(r, self.expand('t', (e[1],)))
            return r
        raise PegError('expression ' + k)

    def look(self, e):
        return self.expand('l', (e,))

    def delta(self, f, sym):
        if isinstance(f, bool):
            return f
        k = (f[3], sym)
        r = self.dmemo.get(k)
        if r is None:
            r = self.dmemo[k] = self.b.ite(self.datom(self.b.atoms[f[0]], sym), self.delta(f[2], sym), self.delta(f[1], sym))
        return r

    def datom(self, atom, sym):
        mode, cont = atom
        if sym == '#':
            if cont is HASH or cont == HASH:
                return True
            return self.b.var(atom) if mode == 'l' else False
        if cont == HASH:
            return False
        e = cont[0]
        if isinstance(sym, tuple):          # an output
            if mode == 'l':
                return self.b.var(atom)
            return self.expand(mode, cont[1:]) if e == sym else False
        if e[0] == 'out':
            return False
        if sym not in e[1]:
            return False
        if e[0] == 'cpy' and mode == 'm':
            return self.expand(mode, (('out', ('c', sym)),) * e[2] + cont[1:])
        return self.expand(mode, cont[1:])

    def accepts(self, f):
        while not isinstance(f, bool):
            f = f[1]
        return f

def sets(e, acc, outs):
    k = e[0]
    if k == 'chr':
        acc.add(e[1])
    elif k == 'cpy':
        acc.add(e[1])
        outs.add(('out', ('copy',)))
    elif k == 'out':
        outs.add(e)
        if isinstance(e[1], tuple) and e[1][0] == 'c':
            acc.add(frozenset([e[1][1]]))
    elif k in ('seq', 'alt'):
        for x in e[1]:
            sets(x, acc, outs)
    elif k in ('star', 'not'):
        sets(e[1], acc, outs)

def alphabet(*es):
    acc, outs = set(), set()
    for e in es:
        sets(e, acc, outs)
    cls = {}
    acc = sorted(acc, key=sorted)
    for c in range(256):
        cls.setdefault(tuple(c in s for s in acc), []).append(c)
    pref = lambda cs: next((c for c in cs if 97 <= c <= 122 or 65 <= c <= 90), next((c for c in cs if 33 <= c < 127), cs[0]))
    reps = sorted(pref(cs) for cs in cls.values())
    if ('out', ('copy',)) in outs:
        outs = (outs - {('out', ('copy',))}) | {('out', ('c', r)) for r in reps}
    return reps, sorted(outs, key=repr)

def word(path):
    s = ''
    for c in path:
        if c == '#':
            s += '\u2023'
        elif isinstance(c, tuple):
            x = c[1]
            if isinstance(x, tuple):
                x = chr(x[1]) if x[0] == 'c' else '=' if x[0] == 'copy' else ' '.join(map(str, x))
            s += '\u27e8%s\u27e9' % (chr(x) if isinstance(x, int) else x)
        else:
            s += chr(c)
    return s

def explore(m, starts, test, alpha, outs, limit=200000, seconds=300, same=False):
    """breadth first over tuples of states; returns the first word for which test(accepts..);
    same: nothing is to be found behind a tuple of equal states"""
    seen = {key(starts): None}
    q = deque([starts])
    n, t0 = 0, time.time()
    while q:
        st = q.popleft()
        n += 1
        if n > limit or n % 50 == 0 and time.time() - t0 > seconds or len(m.b.tab) + len(m.b.memo) > 12000000:
            raise PegError('too many states')
        if test(*[m.accepts(f) for f in st]):
            path, k = [], key(st)
            while seen[k] is not None:
                path.append(seen[k][1])
                k = seen[k][0]
            return path[::-1], n
        for s in alpha + ['#'] + outs:
            nx = tuple(m.delta(f, s) for f in st)
            kk = key(nx)
            if kk not in seen:
                seen[kk] = (key(st), s)
                if not (same and len(set(kk)) == 1):
                    q.append(nx)
    return None, n

def key(st):
    return tuple(x if isinstance(x, bool) else (x[3],) for x in st)

def simple(e):
    """without superfluous nesting"""
    k = e[0]
    if k in ('seq', 'alt'):
        out = []
        for x in e[1]:
            x = simple(x)
            out.extend(x[1] if x[0] == k else [x])
        return out[0] if len(out) == 1 else (k, tuple(out))
    if k in ('star', 'not'):
        return (k, simple(e[1]))
    return e

def equivalent(e1, e2, seconds=300):
    e1, e2 = simple(e1), simple(e2)
    """(None, states) or (word, states)"""
    m = Machine()
    a, o = alphabet(e1, e2)
    f = (m.expand('m', (e1,)), m.expand('m', (e2,)))
    return explore(m, f, lambda x, y: x != y, a, o, seconds=seconds, same=True)
