"""Turns the non-recursive rules of a .leg grammar into the parsing expressions of peg.py:
terminals, look-ahead, and as outputs what the actions do with the text (collected, made a
node of, reported as a segment) and the ends of the source ranges of the nodes."""
import re
import front, leg
from peg import PegError
from ir import Undecided

ANY = frozenset(range(256))

class Conv:
    """acts(rule, index, text) -> list of effects, preds(text) -> list of effects:
    ('open',) ('close',) ('append', bytes) ('copy',) ('node', kind, 'sb'|'block') ('out', x)
    ('reset',) ('event', name)"""
    def __init__(self, g, acts, preds, opens=True, events=()):
        self.g, self.acts, self.preds, self.opens = g, acts, preds, opens
        self.events = set(events)
        self.busy = []
        self.memo = {}

    def rule(self, n):
        if n not in self.g.rules:
            raise PegError('no rule ' + n)
        if n in self.busy:
            raise PegError('recursive rule ' + n)
        if n not in self.memo:
            self.busy.append(n)
            try:
                x = self.flat(self.g.rules[n], n)
            except PegError as e:
                x = e
            finally:
                self.busy.pop()
            self.memo[n] = x
        if isinstance(self.memo[n], PegError):
            raise self.memo[n]
        return self.memo[n]

    # an intermediate form: like peg, with ('eff', effects) leaves; groups are lists
    def flat(self, e, n):
        k = e[0]
        if k == 'seq':
            out = []
            for x in e[1]:
                y = self.flat(x, n)
                out.extend(y[1] if y[0] == 'seq' else [y])
            return ('seq', out)
        if k == 'alt':
            return ('alt', [self.flat(x, n) for x in e[1]])
        if k in ('star', 'plus', 'opt', 'not', 'and'):
            return (k, self.flat(e[1], n))
        if k == 'err':
            return self.flat(e[1], n)
        if k == 'str':
            return ('seq', [('chr', frozenset([b])) for b in e[1]])
        if k == 'cls':
            return ('chr', frozenset(e[1]))
        if k == 'any':
            return ('chr', ANY)
        if k == 'rule':
            return self.rule(e[1])
        if k == 'begin':
            return ('eff', [('open',)])
        if k == 'end':
            return ('eff', [('close',)])
        if k == 'pred':
            return ('eff', list(self.preds(e[1])))
        if k == 'act':
            return ('eff', list(self.acts(n, e[1], e[2])))
        raise PegError('element ' + k)

    # then regions are matched with what uses them
    def peg(self, n):
        return self.lower(self.rule(n), set())

    def top(self, e):
        return self.lower(self.flat(e, '?'), set())

    def lower(self, e, region):
        """region: what the characters matched do: 'copy' """
        k = e[0]
        if k == 'seq':
            return ('seq', tuple(self.seq(e[1], region)))
        if k == 'alt':
            return ('alt', tuple(self.lower(x, region) for x in e[1]))
        if k == 'star':
            return ('star', self.lower(e[1], region))
        if k == 'plus':
            x = self.lower(e[1], region)
            return ('seq', (x, ('star', x)))
        if k == 'opt':
            return ('alt', (self.lower(e[1], region), ('seq', ())))
        if k == 'not':
            return ('not', self.lower(strip(e[1]), set()))
        if k == 'and':
            return ('not', ('not', self.lower(strip(e[1]), set())))
        if k == 'chr':
            n = sum(1 for r in region if r == 'copy')
            if not n:
                return e
            return ('cpy', e[1], n)
        if k == 'peg':
            return e[1]
        if k == 'eff':
            return ('seq', tuple(self.seq([e], region)))
        raise PegError(k)

    def seq(self, es, region):
        flatl = []
        for x in es:
            if x[0] == 'seq':
                flatl.extend(x[1])
            else:
                flatl.append(x)
        # separate the effects
        items = []
        for x in flatl:
            if x[0] == 'eff':
                items.extend(('e', y) for y in x[1])
            else:
                items.append(('x', x))
        # regions
        stack, pair = [], {}
        for i, (t, x) in enumerate(items):
            if t == 'e' and x[0] == 'open':
                stack.append(i)
            elif t == 'e' and x[0] == 'close':
                if not stack:
                    raise PegError('a region is closed that was opened elsewhere')
                pair[stack.pop()] = i
        if stack:
            raise PegError('a region is opened that is closed elsewhere')
        use = {}
        for a, b in pair.items():
            for j in range(b + 1, len(items)):
                t, x = items[j]
                if t == 'e' and x[0] == 'close':
                    break
                if t == 'e' and x[0] == 'copy':
                    use.setdefault(a, set()).add('copy')
                if t == 'e' and x[0] == 'node':
                    use.setdefault(a, set()).add('node')
                    if x[2] == 'block':
                        use[a].add('copy')
                if t == 'e' and x[0] == 'span':
                    use.setdefault(a, set()).add('node')
        out = []
        act = []
        made = False
        closes = {b: a for a, b in pair.items()}
        for i, (t, x) in enumerate(items):
            if t == 'x':
                out.append(self.lower(x, set(region) | ({'copy'} if any('copy' in use.get(a, ()) for a in act) else set())))
                made = made or emits(x)
            elif x[0] == 'open':
                act.append(i)
                if 'node' in use.get(i, ()) and self.opens:
                    out.append(('out', ('[',)))
                if 'copy' in use.get(i, ()):
                    made = True
            elif x[0] == 'close':
                a = closes[i]
                act.remove(a)
                if 'node' in use.get(a, ()) and self.opens:
                    out.append(('out', (']',)))
            elif x[0] == 'append':
                made = True
                out.extend(('out', ('c', b)) for b in x[1])
            elif x[0] == 'node':
                out.append(('out', ('node', x[1])))
            elif x[0] == 'reset':
                if made:
                    out.append(('out', ('reset',)))
            elif x[0] == 'event':
                if x[1] in self.events:
                    out.append(('out', (x[1],)))
            elif x[0] == 'span':
                out.append(('out', ('span',) + tuple(x[1:])))
            elif x[0] == 'out':
                out.append(('out', tuple(x[1:])))
        return out

def strip(e):
    """the same without effects"""
    k = e[0]
    if k == 'seq' or k == 'alt':
        return (k, [strip(x) for x in e[1]])
    if k in ('star', 'plus', 'opt', 'not', 'and'):
        return (k, strip(e[1]))
    if k == 'eff':
        return ('seq', [])
    return e

def emits(e):
    k = e[0]
    if k in ('seq', 'alt'):
        return any(emits(x) for x in e[1])
    if k in ('star', 'plus', 'opt'):
        return emits(e[1])
    if k == 'eff':
        return any(x[0] in ('append', 'copy') for x in e[1])
    return False

# ---- the reference notation: acts are written {copy} {const "x"} {node x} {node x block} ...
def ref_acts(rule, idx, text):
    t = text.strip()
    out = []
    for part in t.split(','):
        w = part.split(None, 1)
        if not w:
            continue
        if w[0] == 'copy':
            out.append(('copy',))
        elif w[0] == 'code':
            out.append(('append', bytes(int(x) for x in w[1].split())))
        elif w[0] == 'node':
            x = w[1].split()
            out.append(('node', x[0], x[1] if len(x) > 1 else 'sb'))
        elif w[0] == 'segment':
            out.append(('span', 'segment', w[1].strip()))
        elif w[0] == 'eof':
            out.append(('out', 'eof'))
        else:
            raise PegError('reference action ' + t)
    return out

def ref_preds(text):
    return [('event', 'line')] if text.strip() == 'line' else []
