"""A reader for the .leg grammars (own implementation of the notation that the `leg` tool
accepts) and the basic facts about a grammar: which rules may succeed without consuming
input, which rules call which, left recursion."""
import os, re
import front

class LegError(Exception):
    pass

# node kinds (tuples):
#  ('alt', [e..]) ('seq', [e..]) ('not', e) ('and', e) ('opt', e) ('star', e) ('plus', e)
#  ('rule', name, var|None) ('str', bytes) ('cls', frozenset(int)) ('any',)
#  ('pred', text) ('act', index, text) ('err', e, text) ('begin',) ('end',)

class Reader:
    def __init__(self, text, name):
        self.s, self.p, self.name = text, 0, name

    def fail(self, msg):
        raise LegError('%s:%d: %s' % (self.name, self.s.count('\n', 0, self.p) + 1, msg))

    def ws(self):
        m = re.compile(r'(?:[ \t\r\n]|#[^\n]*)*').match(self.s, self.p)
        self.p = m.end()

    def tok(self, t):
        if self.s.startswith(t, self.p):
            self.p += len(t)
            self.ws()
            return True
        return False

    IDENT = re.compile(r'[-a-zA-Z_][-a-zA-Z_0-9]*')

    def ident(self):
        m = self.IDENT.match(self.s, self.p)
        if not m:
            return None
        self.p = m.end()
        self.ws()
        return m.group().replace('-', '_')

    def rules(self):
        out, lines = {}, {}
        self.ws()
        while self.p < len(self.s):
            at = self.p
            n = self.ident()
            if n is None:
                if self.s.startswith('%', self.p):
                    self.fail('directives are not supported')
                self.fail('expected a rule')
            if not self.tok('='):
                self.fail('expected = after ' + n)
            self.n, self.acts, self.vars = n, [], []
            line = self.s.count('\n', 0, at) + 1
            e = self.alt()
            self.tok(';')
            if n in out:
                self.fail('rule %s defined twice' % n)
            out[n] = e
            lines[n] = (line, list(self.acts), list(self.vars))
        return out, lines

    def alt(self):
        a = [self.seq()]
        while self.tok('|'):
            a.append(self.seq())
        return a[0] if len(a) == 1 else ('alt', a)

    def seq(self):
        a = []
        while True:
            e = self.error()
            if e is None:
                break
            a.append(e)
        return a[0] if len(a) == 1 else ('seq', a)

    def error(self):
        e = self.prefix()
        if e is None:
            return None
        if self.tok('~'):
            t = self.action()
            if t is None:
                self.fail('expected an action after ~')
            return ('err', e, t)
        return e

    def action(self):
        if not self.s.startswith('{', self.p):
            return None
        d, k = 0, self.p
        while k < len(self.s):
            if self.s[k] == '{':
                d += 1
            elif self.s[k] == '}':
                d -= 1
                if d == 0:
                    break
            k += 1
        if d:
            self.fail('unterminated action')
        t = self.s[self.p + 1:k]
        self.p = k + 1
        self.ws()
        return t

    def prefix(self):
        if self.tok('&'):
            t = self.action()
            if t is not None:
                return ('pred', t)
            return ('and', self.suffix())
        if self.tok('!'):
            return ('not', self.suffix())
        return self.suffix()

    def suffix(self):
        e = self.primary()
        if e is None:
            return None
        if self.tok('?'):
            return ('opt', e)
        if self.tok('*'):
            return ('star', e)
        if self.tok('+'):
            return ('plus', e)
        return e

    def primary(self):
        at = self.p
        n = self.ident()
        if n is not None:
            if self.tok(':'):
                r = self.ident()
                if r is None:
                    self.fail('expected a rule name')
                if n not in self.vars:
                    self.vars.append(n)
                return ('rule', r, n)
            if self.s.startswith('=', self.p):
                self.p = at
                return None
            return ('rule', n, None)
        if self.tok('('):
            e = self.alt()
            if not self.tok(')'):
                self.fail('expected )')
            return e
        for q in '\'"':
            if self.s.startswith(q, self.p):
                k = self.p + 1
                while k < len(self.s) and self.s[k] != q:
                    k += 2 if self.s[k] == '\\' else 1
                t = self.unescape(self.s[self.p + 1:k])
                self.p = k + 1
                self.ws()
                return ('str', t)
        if self.s.startswith('[', self.p):
            k = self.p + 1
            while k < len(self.s) and self.s[k] != ']':
                k += 2 if self.s[k] == '\\' else 1
            t = self.cls(self.s[self.p + 1:k])
            self.p = k + 1
            self.ws()
            return ('cls', t)
        if self.tok('.'):
            return ('any',)
        if self.s.startswith('{', self.p):
            t = self.action()
            self.acts.append(t)
            return ('act', len(self.acts), t)
        if self.tok('<'):
            return ('begin',)
        if self.tok('>'):
            return ('end',)
        return None

    ESC = {'a': 7, 'b': 8, 'e': 27, 'f': 12, 'n': 10, 'r': 13, 't': 9, 'v': 11}

    def chars(self, t):
        """[(byte, escaped)]"""
        out, k = [], 0
        b = t.encode()
        while k < len(b):
            if b[k] == 0x5c and k + 1 < len(b):
                c = chr(b[k + 1])
                m = re.match(rb'[0-3][0-7][0-7]|[0-7][0-7]?', b[k + 1:])
                if c in self.ESC:
                    out.append((self.ESC[c], True)); k += 2
                elif m:
                    out.append((int(m.group(), 8), True)); k += 1 + len(m.group())
                else:
                    out.append((b[k + 1], True)); k += 2
            else:
                out.append((b[k], False)); k += 1
        return out

    def unescape(self, t):
        return bytes(c for c, _ in self.chars(t))

    def cls(self, t):
        cs = self.chars(t)
        neg = bool(cs) and cs[0] == (0x5e, False)
        if neg:
            cs = cs[1:]
        out, k = set(), 0
        while k < len(cs):
            if k + 2 < len(cs) and cs[k + 1] == (0x2d, False):
                out |= set(range(cs[k][0], cs[k + 2][0] + 1)); k += 3
            else:
                out.add(cs[k][0]); k += 1
        return frozenset(set(range(256)) - out if neg else out)

class Grammar:
    def __init__(self, text, name):
        self.name, self.text = name, text
        r = Reader(text, name)
        self.rules, info = r.rules()
        self.line = {n: i[0] for n, i in info.items()}
        self.acts = {n: i[1] for n, i in info.items()}
        self.vars = {n: i[2] for n, i in info.items()}
        self._null = None

    def walk(self, e):
        yield e
        k = e[0]
        if k in ('alt', 'seq'):
            for x in e[1]:
                yield from self.walk(x)
        elif k in ('not', 'and', 'opt', 'star', 'plus', 'err'):
            yield from self.walk(e[1])

    def nullable(self, e=None):
        """may e succeed without consuming input (over-approximation)"""
        if self._null is None:
            self._null = {}
            ch = True
            self._null = {n: False for n in self.rules}
            while ch:
                ch = False
                for n, x in self.rules.items():
                    if not self._null[n] and self.nullable(x):
                        self._null[n] = ch = True
        k = e[0]
        if k == 'alt':
            return any(self.nullable(x) for x in e[1])
        if k == 'seq':
            return all(self.nullable(x) for x in e[1])
        if k in ('not', 'and', 'opt', 'star', 'pred', 'act', 'begin', 'end'):
            return True
        if k in ('plus', 'err'):
            return self.nullable(e[1])
        if k == 'rule':
            return self._null.get(e[1], True)
        if k == 'str':
            return len(e[1]) == 0
        return False

    def first_rules(self, e):
        """(rules entered before any input is consumed, may go on without consuming)"""
        k = e[0]
        if k == 'alt':
            out = set()
            for x in e[1]:
                out |= self.first_rules(x)
            return out
        if k == 'seq':
            out = set()
            for x in e[1]:
                out |= self.first_rules(x)
                if not self.nullable(x):
                    break
            return out
        if k in ('not', 'and', 'opt', 'star', 'plus', 'err'):
            return self.first_rules(e[1])
        if k == 'rule':
            return {e[1]}
        return set()

def load(name):
    p = os.path.join(front.REPO, 'lib/src', name)
    if not os.path.exists(p):
        raise front.FrontError('anchor missing: lib/src/' + name)
    return Grammar(open(p).read(), 'lib/src/' + name)

def show(e):
    k = e[0]
    if k == 'alt':
        return '(' + ' | '.join(show(x) for x in e[1]) + ')'
    if k == 'seq':
        return ' '.join(show(x) for x in e[1]) or '()'
    if k == 'err':
        return show(e[1])
    if k in ('not', 'and'):
        return {'not': '!', 'and': '&'}[k] + show(e[1])
    if k in ('opt', 'star', 'plus'):
        x = show(e[1])
        return ('(%s)' % x if ' ' in x and x[0] != '(' else x) + {'opt': '?', 'star': '*', 'plus': '+'}[k]
    if k == 'rule':
        return (e[2] + ':' if e[2] else '') + e[1]
    if k == 'str':
        return repr(e[1])[1:]
    if k == 'cls':
        return '[%d chars]' % len(e[1]) if len(e[1]) > 4 else '[' + ''.join(chr(c) for c in sorted(e[1])) + ']'
    if k == 'pred':
        return '&{%s}' % e[1].strip()
    if k == 'act':
        return '{%s}' % re.sub(r'\s+', ' ', e[2].strip())
    return {'any': '.', 'begin': '<', 'end': '>'}[k]
