"""Printing ASTs: F01."""
import re
from ir import *
from astmodel import lib_module, KEEP
from pathkit import *
from result import bare, struct_size

PURE = {'strlen', 'cypher_astnode_type', 'cypher_astnode_typestr', 'cypher_astnode_nchildren', 'cypher_astnode_get_child', 'cypher_astnode_range'}
ESC = {7: 'a', 8: 'b', 9: 't', 10: 'n', 11: 'v', 12: 'f', 13: 'r'}

def machine():
    """the library, with the functions that print kept apart: (module, printer, widths, detail, decimal)"""
    a = lib_module(('@all',))
    top = 'cypher_ast_fprintv'
    callees = lambda n: {i['callee'] for blk in a.fn(n).blocks for i in blk if i['op'] == 'call' and i.get('callee')}
    own = lambda n: n in a.raw and not a.raw[n].get('decl') and n not in a.api if hasattr(a, 'api') else n in a.raw
    first = [n for n in callees(top) if n in a.raw and a.fn(n) is not None]
    rec = [n for n in first if n in callees(n)]
    pr = [n for n in rec if callees(n) & {'fprintf', 'fputs', 'fputc', 'fwrite'}]
    wd = [n for n in rec if n not in pr]
    if len(pr) != 1 or len(wd) != 1:
        raise Undecided('which functions print and measure the nodes')
    det = [n for n in callees(pr[0]) if n in a.raw and n != pr[0] and callees(n) & {'fputc', 'putc', '_IO_putc'} and len(a.fn(n).params) >= 4]
    dec = [n for n in first if n not in rec and len(a.fn(n).params) == 1 and any(i['op'] in ('udiv', 'mul', 'icmp') for blk in a.fn(n).blocks for i in blk)]
    keep = tuple(KEEP + [pr[0], wd[0]] + det[:1] + dec)
    m = lib_module(keep)
    return m, pr[0], wd[0], det[0] if len(det) == 1 else None, dec

def lines(p):
    return p

def args_of(p, ref):
    """the call that gave a value"""
    for e in p.events:
        if e[0] == 'call' and e[3] == ref:
            return e
    return None

def plain(p, e):
    """without versions, with the calls that only read written as functions of their arguments"""
    if not isinstance(e, tuple) or not e:
        return e
    if e[0] == 'ld':
        return ('ld', plain(p, e[1]))
    if e[0] == 'call' and len(e) >= 2 and e[1] in PURE:
        c = args_of(p, e)
        if c is not None:
            return ('fn', e[1]) + tuple(plain(p, x) for x in c[2])
    if e[0] == 'call':
        return e
    return tuple(plain(p, x) for x in e)

def atoms(e):
    if isinstance(e, tuple):
        if e and e[0] in ('arg', 'ld', 'fn', 'call', 'phi', 'g', 'alloca'):
            yield e
            if e[0] in ('ld',):
                return
            return
        for x in e:
            yield from atoms(x)

def negative_if(ret, ref, facts={}):
    """is the value returned negative when the call gave a failure (-1)?"""
    def both(f, A, B):
        if A is None or B is None:
            return None
        return {f(a, b) for a in A for b in B}
    def ev(e):
        """the values e may have, None: not known"""
        if e == ref:
            return {-1}
        k = e[0]
        if k == 'c':
            return {e[1]}
        if k in ('add', 'sub', 'mul', 'or', 'and', 'xor') and len(e) == 3:
            a, b = ev(e[1]), ev(e[2])
            if k == 'and' and (a == {0} or b == {0}):
                return {0}
            return both({'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y, 'or': lambda x, y: x | y, 'and': lambda x, y: x & y, 'xor': lambda x, y: x ^ y}[k], a, b)
        if k in ('zext', 'trunc') and isinstance(e[1], tuple):
            return ev(e[1])
        if k == 'sext' and isinstance(e[1], tuple):
            a = ev(e[1])
            return {-x for x in a} if a is not None and e[1][0] == 'cmp' else a
        if k == 'cmp':
            if e in facts:
                return {int(facts[e])}
            a, b = ev(e[2]) if e[2][0] != 'null' else None, ev(e[3]) if e[3][0] != 'null' else None
            if a is None or b is None:
                return {0, 1}
            f = {'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y, 'slt': lambda x, y: x < y, 'sle': lambda x, y: x <= y, 'sgt': lambda x, y: x > y, 'sge': lambda x, y: x >= y}.get(e[1])
            return {0, 1} if f is None else {int(x) for x in both(f, a, b)}
        if k == 'ashr':
            a = ev(e[1])
            return None if a is None else {-1 if x < 0 else 0 for x in a}
        if k == 'select':
            c = ev(e[1])
            out = set()
            for x in ({0, 1} if c is None else c):
                y = ev(e[2] if x else e[3])
                if y is None:
                    return None
                out |= y
            return out
        if k in ('smin', 'smax') and len(e) == 3:
            a, b = ev(e[1]), ev(e[2])
            if k == 'smin' and (a is not None and max(a) < 0 or b is not None and max(b) < 0):
                return {-1}
            return both(min if k == 'smin' else max, a, b)
        if k == 'bool':
            return ev(e[1])
        return None
    v = ev(ret)
    return None if v is None else max(v) < 0

class Stream:
    """what the paths of a function write to a stream"""
    def __init__(self, X, m, stream, special, colors=None, buf=None):
        self.X, self.m, self.S, self.special, self.C, self.buf = X, m, stream, special, colors, buf
        self.body = {}
        for p in X.paths:
            if p.end[0] == 'back':
                o = p.end[1][0] if isinstance(p.end[1], tuple) else p.end[1]
                on = False
                for e in p.events:
                    if e[0] == 'loop':
                        if e[1] == o:
                            on = True
                        continue
                    if on and e[0] == 'call':
                        self.body.setdefault(o, set()).add(e[3])

    def value(self, p, e, width, left, content):
        """tokens of a value printed as text"""
        s = self.m.gstr(e) if e[0] in ('g', 'ge') else None
        if e[0] == 'g' and s is not None:
            if width is not None and s == '':
                return [('fill', plain(p, width))]
            if width is None:
                return [('lit', s)]
        if e[0] == 'ld' and self.buf is not None and e[1] == self.buf:
            if content is None:
                raise Undecided('what is in the buffer')
            t = content
        else:
            x = plain(p, e)
            if x[0] == 'ld' and x[1][0] in ('addr', 'arg') and root(x[1]) == self.C:
                o = x[1][2] if x[1][0] == 'addr' else 0
                t = [('col', o)]
            else:
                t = [('str', x)]
        if width is None:
            return t
        return [('pad', plain(p, width), left, tuple(t))]

    def format(self, p, fmt, args, content):
        s = self.m.gstr(fmt)
        if s is None:
            raise Undecided('format')
        out = []
        args = list(args)
        pos = 0
        for x in re.finditer(r'%(-?)(0?)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|I)?([a-zA-Z%])', s):
            if x.start() > pos:
                out.append(('lit', s[pos:x.start()]))
            pos = x.end()
            if x.group(6) == '%':
                out.append(('lit', '%'))
                continue
            if x.group(2) or x.group(4):
                raise Undecided('format')
            w = None
            if x.group(3) == '*':
                w = args.pop(0)
            elif x.group(3):
                w = ('c', int(x.group(3)))
            left = bool(x.group(1))
            if not args:
                raise Undecided('format')
            v = args.pop(0)
            if x.group(6) == 's':
                out += self.value(p, v, w, left, content)
            elif x.group(6) in 'ud':
                t = ('num', plain(p, v))
                out.append(t if w is None else ('pad', plain(p, w), left, (t,)))
            elif x.group(6) == 'c':
                out.append(('put', v))
            else:
                raise Undecided('format')
        if pos < len(s):
            if '%' in s[pos:]:
                raise Undecided('format')
            out.append(('lit', s[pos:]))
        return out

    def tokens(self, p):
        """[(token, call or None)]: loops as ('rep', n); only what follows the last entry of the
        loop for a path that goes round"""
        out = []
        content = None
        inside = []
        back = None
        if p.end[0] == 'back':
            back = p.end[1][0] if isinstance(p.end[1], tuple) else p.end[1]
        for e in p.events:
            if e[0] == 'loop':
                if back == e[1]:
                    out = []
                    inside = []
                    continue
                out.append((('rep', e[1]), e))
                inside = [x for x in inside if x != e[1]] + [e[1]]
                continue
            if e[0] != 'call':
                continue
            if any(e[3] in self.body.get(o, ()) for o in inside):
                if e[1] in ('snprintf_realloc', 'cypher_astnode_detailstr_realloc'):
                    content = None
                continue
            n, a = e[1], e[2]
            if not isinstance(n, str):
                raise Undecided('a call through a pointer')
            if n in PURE or n in ('malloc', 'calloc', 'free', 'realloc', '__errno_location') or n.startswith('llvm.'):
                continue
            t = None
            if n == 'fprintf':
                self.stream(a[0])
                t = self.format(p, a[1], a[2:], content)
            elif n == 'fputs':
                self.stream(a[1])
                t = self.value(p, a[0], None, False, content)
            elif n in ('fputc', 'putc', '_IO_putc'):
                self.stream(a[1])
                t = [('lit', chr(a[0][1] & 0xff))] if a[0][0] == 'c' else [('put', a[0])]
            elif n == 'fwrite':
                self.stream(a[3])
                s = self.m.gstr(a[0])
                if s is None or a[1][0] != 'c' or a[2][0] != 'c' or a[1][1] * a[2][1] > len(s):
                    raise Undecided('what is written')
                t = [('lit', s[:a[1][1] * a[2][1]])]
            elif n == 'snprintf_realloc':
                if a[0] != self.buf_arg:
                    raise Undecided('what is printed into')
                content = self.format(p, a[2], a[3:], None)
                continue
            elif n == 'cypher_astnode_detailstr_realloc':
                content = [('detailstr', plain(p, a[0]), e[3])]
                continue
            elif n in self.special:
                t = [(self.special[n], tuple(a), content, e)]
            else:
                raise Undecided('a call of ' + n)
            out += [(x, e) for x in t]
        return out

    def stream(self, s):
        if self.S is None:
            self.S = s
        if s != self.S:
            raise Undecided('the stream written to')

def merged(toks):
    out = []
    for t, e in toks:
        if t[0] == 'lit' and out and out[-1][0][0] == 'lit':
            out[-1] = (('lit', out[-1][0][1] + t[1]), e)
        elif t == ('lit', ''):
            continue
        else:
            out.append((t, e))
    return out

def counted_loop(S, p, o):
    """(bound, index atom, may it run when the bound is 0): the loop o entered on path p runs bound times"""
    X = S.X
    ent = [e[2] for e in p.events if e[0] == 'loop' and e[1] == o]
    bk = [q for q in X.paths if q.end[0] == 'back' and (q.end[1][0] if isinstance(q.end[1], tuple) else q.end[1]) == o]
    for h, init in ent[0].items():
        steps = {bare(q.back[h]) if h in q.back else None for q in bk}
        ph = ('phi', h)
        if len(steps) != 1 or None in steps:
            continue
        d = elin(list(steps)[0]).add(Lin(0, {ph: 1}), -1).const()
        if d not in (1, -1):
            continue
        for a, v, at in p.order:
            if a[0] != 'cmp':
                continue
            L, R = a[2], a[3]
            l = elin(L) if L[0] != 'null' else None
            if l is None or R[0] == 'null':
                continue
            k = l.add(Lin(0, {ph: 1}), -1).const()
            if k is None:
                continue
            if d == 1 and init == ('c', 0):
                if (a[1] in ('ult', 'slt') and not v or a[1] == 'eq' and v or a[1] in ('uge', 'sge') and v) and k in (0, 1):
                    return R, ph, k == 1
                if (a[1] in ('ult', 'slt') and v or a[1] == 'eq' and not v) and k in (0, 1):
                    pass
                if a[1] in ('ule', 'sle') and not v and k in (0, 1):
                    return ('add', ('c', 1), R), ph, k == 1
            if d == -1 and a[1] == 'eq' and v and R == ('c', 0) and k in (0, -1):
                return init, ph, k == -1
        if d == -1:
            for a, v in p.facts.items():
                if a[0] == 'cmp' and a[1] == 'ult' and a[2] == ('c', 0) and a[3] == ph and not v:
                    return init, ph, False
    return None

def guard(p, n):
    """is it known that n is not 0 / is 0?"""
    n = plain(p, n)
    for a, v in p.facts.items():
        if a[0] == 'cmp':
            x, y = plain(p, a[2]), plain(p, a[3])
            if a[1] == 'eq' and (x == n and y == ('c', 0) or y == n and x == ('c', 0)):
                return 'zero' if v else 'some'
            if a[1] in ('ult', 'slt') and x == ('c', 0) and y == n:
                return 'some' if v else 'zero'
            if a[1] == 'ult' and x == n and y == ('c', 1):
                return 'zero' if v else 'some'
    return None

def failures(X, rule, out, m):
    """every failure of what is called is seen, and answered by a negative result"""
    for p in X.paths:
        if p.end[0] not in ('ret', 'back'):
            continue
        ret = p.end[1] if p.end[0] == 'ret' else None
        calls = [e for e in p.events if e[0] == 'call' and e[1] in out]
        for i, e in enumerate(calls):
            r = e[3]
            state = None
            for a, v in p.facts.items():
                if a[0] == 'cmp' and a[2] == r and a[3][0] == 'c':
                    c = a[3][1]
                    ok = {('slt', 0): False, ('eq', -1): False, ('sgt', -1): True, ('sle', -1): False, ('ne', -1): True, ('sge', 0): True, ('slt', 1): None}.get((a[1], c), 'x')
                    if ok == 'x' or ok is None:
                        if (a[1], c) == ('eq', 0) and v:
                            state = 'ok'
                        elif (a[1], c) in (('slt', 1), ('sgt', 0)):
                            if (a[1] == 'sgt') == v:
                                state = 'ok'
                        continue
                    state = 'ok' if v == ok else 'failed'
            if state == 'ok':
                continue
            if p.end[0] == 'back':
                X.ob(rule, e[1], False, 'goes on without looking whether %s failed' % e[1], p)
                continue
            if ret is None:
                raise Undecided('no result')
            neg = negative_if(ret, r, p.facts)
            if state == 'failed':
                neg = negative_if(ret, r, p.facts)
                if neg is None:
                    raise Undecided('the result after a failure')
                X.ob(rule, e[1], neg, 'a failure of %s is not answered by a negative result' % e[1], p)
            else:
                if neg is None and ret[0] != 'c':
                    raise Undecided('the result after a failure')
                X.ob(rule, e[1], bool(neg), 'a failure of %s is not seen' % e[1], p)

def is_no(e):
    return e is not None and e[0] == 'c' and e[1] < 0

def success(p):
    return p.end[0] == 'ret' and p.end[1] is not None and not is_no(p.end[1])

def show(t):
    if t[0] == 'lit':
        return repr(t[1])
    if t[0] == 'pad':
        return 'a column of ' + ' '.join(show(x) for x in t[3])
    return t[0] + (' %s' % (t[1],) if t[0] in ('col', 'rep') else '')

class Printer:
    def __init__(self, C, m, names):
        self.C, self.m = C, m
        self.pr, self.wd, self.det, self.dec = names
        f = {x['n']: x for x in m.structs['cypher_astnode']['m']}
        rng = {x['n']: x['o'] for x in m.structs['cypher_input_range']['m']}
        pos = {x['n']: x['o'] for x in m.structs['cypher_input_position']['m']}
        self.o = {'ordinal': f['ordinal']['o'], 'start': f['range']['o'] + rng['start'] + pos['offset'], 'end': f['range']['o'] + rng['end'] + pos['offset'],
                  'children': f['children']['o'], 'nchildren': f['nchildren']['o']}
        self.col = {x['n']: x['o'] for x in m.structs['cypher_parser_colorization']['m']}

    def ld(self, k, base):
        return ('ld', ('addr', base, self.o[k], ()))

    # ---- one node -----------------------------------------------------------
    def entry(self):
        m = self.m
        X = Fun(self.C, m, self.pr)
        S = self.S = Stream(X, m, None, {self.pr: 'node', self.det: 'detail'} if self.det else {self.pr: 'node'})
        # the node: the first argument given to the range and ordinal; the buffer: what snprintf_realloc prints into
        bufs = {e[2][0] for p in X.paths for e in p.calls('snprintf_realloc')}
        if len(bufs) > 1:
            raise Undecided('buffers')
        S.buf_arg = S.buf = list(bufs)[0] if bufs else None
        rec = [e for p in X.paths for e in p.calls(self.pr)]
        if not rec:
            raise Undecided('how the children are printed')
        self.C.attempt('failed', X.fn.where(), lambda: failures(X, 'failed', {'fprintf', 'fputs', 'fputc', 'fwrite', 'snprintf_realloc', 'cypher_astnode_detailstr_realloc', self.pr, self.det, 'putc'}, m))
        self.N = ('arg', 0)
        # the argument whose member is taken for a child
        for p in X.paths:
            for e in p.calls(self.pr):
                for i, x in enumerate(e[2]):
                    y = plain(p, x)
                    if self.child(y) is not None:
                        self.N = self.child(y)[0]
                        self.ni = i
        if not hasattr(self, 'ni') or self.N != ('arg', self.ni):
            raise Undecided('which node is printed')
        cols = set()
        for p in X.paths:
            for e in p.events:
                if e[0] == 'call' and e[1] in ('fprintf', 'fputs'):
                    for x in e[2]:
                        if x[0] == 'ld' and x[1][0] == 'addr' and x[1][1][0] == 'arg' and x[1][1] != self.N and not x[1][3] and x[1] != S.buf:
                            cols.add(x[1][1])
        if len(cols) != 1:
            raise Undecided('colours')
        S.C = self.C_ = list(cols)[0]
        T = ('fn', 'cypher_astnode_typestr', ('fn', 'cypher_astnode_type', self.N))
        W = self.W = {}
        nodes = 0
        col = lambda n, i: ('col', self.col[n] + 8 * i)
        for p in X.paths:
            if not success(p):
                continue
            got = merged(S.tokens(p))
            nodes += 1
            items = [t for t, e in got]
            known = self.known_detail(p)
            if known is None and not any(t[0] == 'detail' for t in items):
                known = 'none'      # nothing says there is none
                X.ob('entry', 'details', False, 'leaves out the details of a node', p)
                continue
            want = [col('ast_ordinal', 0), ('P', 'ordinal', False, (('lit', '@'), ('num', self.ld('ordinal', self.N)))), col('ast_ordinal', 1), ('lit', '  '),
                    col('ast_range', 0), ('P', 'start', False, (('num', self.ld('start', self.N)),)), ('lit', '..'),
                    ('P', 'end', True, (('num', self.ld('end', self.N)),)), col('ast_range', 1), ('lit', '  '), col('ast_indent', 0), ('REP', 'depth'),
                    col('ast_indent', 1), col('ast_type', 0), ('str', T), col('ast_type', 1)]
            want += [('FILL',), ('DETAIL',)] if known == 'some' else [('lit', '\n')]
            want += [('REP', 'children')]
            i = 0
            bad = None
            for w in want:
                g = got[i][0] if i < len(got) else None
                e = got[i][1] if i < len(got) else None
                if w[0] == 'REP':
                    if g is not None and g[0] == 'rep':
                        bad = self.rep(X, p, w[1], g[1])
                        i += 1
                    else:
                        bad = self.norep(X, p, w[1])
                    if bad:
                        break
                    continue
                if g is None:
                    bad = 'does not print %s' % self.what(w)
                    break
                if w[0] == 'P' and g[0] == 'pad':
                    a, b = tuple(t for t in merged([(x, None) for x in g[3]])), w[3]
                    if tuple(x for x, _ in a) != b:
                        if any(x[0] in ('str', 'put') for x, _ in a):
                            raise Undecided('column')
                        bad = 'does not print the %s of the node in its column' % w[1]
                    elif g[2] != w[2]:
                        bad = 'aligns the column of %s to the other side' % w[1]
                    elif g[1][0] != 'arg':
                        raise Undecided('width of a column')
                    elif W.setdefault(w[1], g[1]) != g[1]:
                        bad = 'prints the column of %s at different widths' % w[1]
                elif w[0] == 'FILL' and g[0] == 'fill':
                    self.fill(X, p, g[1], T)
                elif w[0] == 'DETAIL' and g[0] == 'detail':
                    self.call_detail(X, p, g)
                elif g != w:
                    if g[0] in ('str', 'put', 'fill') or g[0] == 'pad' and w[0] not in ('col', 'lit'):
                        if not self.familiar(g):
                            raise Undecided('what is printed for a node')
                    bad = 'prints %s where %s is due' % (show(g), self.what(w))
                if bad:
                    break
                i += 1
            if not bad and i < len(got):
                bad = 'prints %s besides' % show(got[i][0])
            X.ob('entry', 'order', not bad, bad or '', p)
        if not nodes:
            raise Undecided('paths that print a node')
        self.loops(X, S)
        return X

    def what(self, w):
        if w[0] in ('P',):
            return 'the ' + w[1]
        if w[0] == 'DETAIL':
            return 'the detail'
        if w[0] == 'FILL':
            return 'the space before the detail'
        if w[0] == 'col':
            for n, o in self.col.items():
                if o <= w[1] < o + 16:
                    return '%s[%d]' % (n, (w[1] - o) // 8)
        return show(w)

    def familiar(self, t):
        """made of the members of the node only"""
        return all(root(a[1] if a[0] == 'ld' else a) in (self.N, self.C_) or a[0] == 'fn' or a[0] == 'arg' for a in atoms(t))

    def child(self, y):
        """(node, index) of a child"""
        if y[0] == 'fn' and y[1] == 'cypher_astnode_get_child':
            return y[2], y[3]
        if y[0] == 'ld' and y[1][0] == 'addr' and len(y[1][3]) == 1 and y[1][3][0][1] == 8 and y[1][2] == 0 and y[1][1][0] == 'ld':
            b = y[1][1][1]
            if b[0] == 'addr' and b[2] == self.o['children'] and not b[3]:
                return b[1], y[1][3][0][0]
        if y[0] == 'ld' and y[1][0] == 'ld' and y[1][1][0] == 'addr' and y[1][1][2] == self.o['children'] and not y[1][1][3]:
            return y[1][1][1], ('c', 0)
        return None

    def known_detail(self, p):
        """is there a detail string on this path?"""
        for e in p.calls('cypher_astnode_detailstr_realloc'):
            r = e[3]
            for a, v in p.facts.items():
                if a[0] == 'cmp' and a[2] == r and a[3][0] == 'c':
                    k = (a[1], a[3][1])
                    if k == ('eq', 0):
                        return 'none' if v else 'some'
                    if k == ('sgt', 0):
                        return 'some' if v else 'none'
                    if k == ('slt', 1):
                        return 'none' if v else 'some'
                    if k == ('ult', 1):
                        return 'none' if v else 'some'
        return None

    def norep(self, X, p, which):
        n = self.depth if which == 'depth' and hasattr(self, 'depth') else None
        if which == 'depth':
            ds = self.depth_arg()
            if guard(p, ds) == 'zero':
                return None
            return 'leaves out the indentation of a node'
        for a, v in p.facts.items():
            if a[0] == 'cmp' and a[1] in ('eq', 'ult', 'slt'):
                x, y = plain(p, a[2]), plain(p, a[3])
                if self.is_n(x) and y == ('c', 0) and a[1] == 'eq' and v or self.is_n(y) and x == ('c', 0) and not v or self.is_n(x) and y == ('c', 1) and v:
                    return None
        return 'leaves out the children of a node'

    def is_n(self, x):
        return x == ('fn', 'cypher_astnode_nchildren', self.N) or x == self.ld('nchildren', self.N)

    def depth_arg(self):
        """the argument that grows by one for the children"""
        if hasattr(self, 'depth'):
            return self.depth
        c = set()
        for p in self.S.X.paths:
            for e in p.calls(self.pr):
                for i, x in enumerate(e[2]):
                    d = elin(x).add(Lin(0, {('arg', i): 1}), -1).const() if x[0] != 'null' else None
                    if d not in (None, 0):
                        c.add(('arg', i))
        if len(c) != 1:
            # the argument the indentation is counted by
            for p in self.S.X.paths:
                if success(p):
                    for t, e in merged(self.S.tokens(p)):
                        if t[0] == 'rep':
                            b = counted_loop(self.S, p, t[1])
                            if b and b[0][0] == 'arg':
                                c.add(b[0])
        if len(c) != 1:
            raise Undecided('depth')
        self.depth = list(c)[0]
        return self.depth

    def rep(self, X, p, which, o):
        self.kinds = getattr(self, 'kinds', {})
        if self.kinds.setdefault(o, which) != which:
            return 'prints a loop of something else where the %s are due' % which
        b = counted_loop(self.S, p, o)
        if b is None:
            raise Undecided('how often a loop runs')
        n, ph, atleast = b
        self.index = getattr(self, 'index', {})
        self.index[o] = ph
        if which == 'depth':
            if n != self.depth_arg():
                l = elin(n)
                if set(a[0] for a in l.t) <= {'arg'}:
                    return 'does not indent a node by its depth'
                raise Undecided('how often the node is indented')
        elif not self.is_n(plain(p, n)):
            l = elin(n)
            if len([a for a in l.t if l.t[a]]) == 1 and self.is_n(plain(p, [a for a in l.t if l.t[a]][0])):
                return 'does not print as many children as there are'
            raise Undecided('how many children are printed')
        if atleast:
            g = guard(p, n)
            if g is None:
                return 'prints a %s even if there is none' % ('child' if which == 'children' else 'step of the indentation')
        return None

    def loops(self, X, S):
        """what one round of a loop prints"""
        kinds = getattr(self, 'kinds', {})
        for o, which in kinds.items():
            n = 0
            for p in X.paths:
                if p.end[0] != 'back' or (p.end[1][0] if isinstance(p.end[1], tuple) else p.end[1]) != o:
                    continue
                n += 1
                t = merged(S.tokens(p))
                if which == 'depth':
                    X.ob('entry', 'indent', [x for x, _ in t] == [('lit', '> ')], 'one level is not shown as "> "', p)
                    continue
                if len(t) == 1 and t[0][0][0] == 'node':
                    a = t[0][0][1]
                    c = self.child(plain(p, a[self.ni]))
                    if c is None or c[0] != self.N:
                        raise Undecided('which child is printed')
                    X.ob('entry', 'child', c[1] == self.index[o], 'the child printed is not the next one', p)
                    for i, x in enumerate(a):
                        if i == self.ni:
                            continue
                        if ('arg', i) == self.depth_arg():
                            X.ob('entry', 'depth', elin(x) == Lin(1, {('arg', i): 1}), 'a child is not printed one level deeper', p)
                        else:
                            X.ob('entry', 'pass', x == ('arg', i), 'a child is not printed with the same %s' % (X.fn.params[i].get('n') or 'argument'), p)
                else:
                    if any(x[0] in ('str', 'put') for x, _ in t):
                        raise Undecided('what is printed for a child')
                    X.ob('entry', 'child', False, 'a round over the children prints %s' % (' '.join(show(x) for x, _ in t) or 'nothing'), p)
            if not n:
                raise Undecided('the rounds of a loop')

    def fill(self, X, p, e, T):
        L = self.lin(e)
        want = Lin(2, {('fn', 'strlen', T): -1, self.depth_arg(): -2})
        d = L.add(want, -1)
        rest = {a: c for a, c in d.t.items() if c}
        args = [a for a, c in rest.items() if a[0] == 'arg' and c == 1]
        if len(rest) == 1 and len(args) == 1 and d.c == 0 and args[0] not in [v for k, v in self.W.items() if k != 'name'] and args[0] != self.depth_arg():
            if self.W.setdefault('name', args[0]) != args[0]:
                X.ob('entry', 'align', False, 'aligns the details at different columns', p)
            else:
                X.ob('entry', 'align', True, '')
            return
        if all(a[0] in ('arg', 'fn') for a in rest):
            X.ob('entry', 'align', False, 'the details do not start at one column, two behind the widest name', p)
            return
        raise Undecided('the space before the detail')

    def lin(self, e):
        l = elin(e) if e[0] != 'null' else Lin(0)
        out = Lin(l.c)
        for a, c in l.t.items():
            if a[0] == 'shl' and a[2][0] == 'c':
                out = out.add(self.lin(a[1]).mul(c << a[2][1]))
            elif a[0] in ('zext', 'sext', 'trunc') and isinstance(a[1], tuple):
                out = out.add(self.lin(a[1]).mul(c))
            elif a[0] == 'xor' and ('c', -1) in a[1:]:
                x = a[2] if a[1] == ('c', -1) else a[1]
                out = out.add(Lin(-1).add(self.lin(x), -1).mul(c))
            else:
                out = out.add(Lin(0, {a: c}))
        return out

    def call_detail(self, X, p, g):
        self.dcalls = getattr(self, 'dcalls', [])
        self.dcalls.append((X, p, g))

    # ---- the detail -----------------------------------------------------------
    def detail(self):
        m = self.m
        if self.det is None:
            raise Undecided('which function prints the details')
        X = Fun(self.C, m, self.det)
        self.C.attempt('failed', X.fn.where(), lambda: failures(X, 'failed', {'fprintf', 'fputs', 'fputc', 'fwrite', 'putc'}, m))
        # the text: characters loaded at a loop variable
        cand = {}
        for p in X.paths:
            ents = {h: i for e in p.events if e[0] == 'loop' for h, i in e[2].items()}
            for x in [x for a in p.facts for x in walk_(a)] + [x for e in p.events for y in e[1:4] for x in walk_(y)]:
                if x[0] == 'ld':
                    if x[1][0] == 'phi' and ents.get(x[1][1], ('c',))[0] == 'arg':
                        cand[ents[x[1][1]]] = ('ptr', x[1])
                    if x[1][0] == 'addr' and x[1][1][0] == 'arg' and len(x[1][3]) == 1 and x[1][3][0][1] == 1 and x[1][3][0][0][0] == 'phi':
                        cand[x[1][1]] = ('idx', x[1][3][0][0])
        if len(cand) != 1:
            raise Undecided('the characters of the detail')
        text, (kind, ix) = list(cand.items())[0]
        isch = lambda e: bare(e) == ('ld', ix) if kind == 'ptr' else bare(e) == ('ld', ('addr', text, 0, ((ix, 1),)))
        outer = [e[1] for p in X.paths for e in p.events if e[0] == 'loop' and ix[1] in e[2]][0]
        S = Stream(X, m, None, {})
        S.buf_arg = None
        cols = {x[1][1] for p in X.paths for e in p.calls('fputs') for x in e[2] if x[0] == 'ld' and x[1][0] == 'addr' and x[1][1][0] == 'arg'}
        if len(cols) != 1:
            raise Undecided('colours')
        S.C = list(cols)[0]
        roles = {'text': text, 'col': S.C}
        # around the text
        nb = 0
        for p in X.paths:
            if not success(p):
                continue
            t = [x for x, _ in merged(S.tokens(p))]
            k = [i for i, x in enumerate(t) if x == ('rep', outer)]
            pre = t[:k[0]] if k else t[:1]
            post = [x for x in (t[k[-1] + 1:] if k else t[1:]) if x[0] != 'rep' and x[0] != 'put']
            a, b = ('col', self.col['ast_desc']), ('col', self.col['ast_desc'] + 8)
            if not k:
                # nothing to print: the length is 0
                if not any(v and f[0] == 'cmp' and f[1] == 'eq' and f[3] == ('c', 0) and f[2][0] == 'arg' for f, v in p.facts.items()):
                    X.ob('detail', 'text', False, 'leaves out the text', p)
                    continue
                full = t
                X.ob('detail', 'around', full == [a, ('lit', '\n'), b], 'is not one line in the colour of details, the colour switched off again', p)
                continue
            b_ = counted_loop(S, p, outer)
            if b_ is None:
                raise Undecided('how much of the text is printed')
            n, ph, _ = b_
            if n[0] != 'arg':
                l = elin(n)
                if [x for x in l.t if l.t[x]] and all(x[0] == 'arg' for x in l.t if l.t[x]) and l.c:
                    X.ob('detail', 'all', False, 'does not print as many characters as there are', p)
                    continue
                raise Undecided('how much of the text is printed')
            roles.setdefault('len', n)
            roles.setdefault('n', ph)
            X.ob('detail', 'all', n == roles['len'], 'does not print as many characters as there are', p)
            # the tail of the last round is judged with the rounds
            tail = post[-2:] if post[-2:] == [('lit', '\n'), b] else post
            nb += 1
            X.ob('detail', 'around', pre == [a] and tail[-2:] == [('lit', '\n'), b] and len([x for x in t if x[0] == 'col']) == 2, 'is not one line in the colour of details, the colour switched off again', p)
        if not nb:
            raise Undecided('how the details are printed')
        for p in X.paths:
            if p.end[0] == 'back' and (p.end[1][0] if isinstance(p.end[1], tuple) else p.end[1]) == outer and ix[1] in p.back:
                X.ob('detail', 'next', p.back[ix[1]] == ('addr', ix, 1, ()) or elin(p.back[ix[1]]) == Lin(1, {ix: 1}), 'does not go on with the next character', p)
        self.C.attempt('detail', X.fn.where(), lambda: self.escapes(X, isch, outer))
        self.C.attempt('wrap', X.fn.where(), lambda: self.wrap(X, S, isch, outer, roles))
        self.C.attempt('detail', X.fn.where(), lambda: self.called(X, roles))

    def chars(self, p, isch):
        """(the character if known, the characters it is known not to be)"""
        eq, ne = None, set()
        for a, v in p.facts.items():
            if a[0] == 'cmp' and isch(a[2]) and a[3][0] == 'c':
                if a[1] == 'eq':
                    if v:
                        eq = a[3][1]
                    else:
                        ne.add(a[3][1])
                elif a[1] == 'ult' or a[1] == 'slt' or a[1] == 'ugt' or a[1] == 'sgt':
                    raise Undecided('which character')
            elif a[0] == 'cmp' and any(isch(x) for x in walk_(a)):
                raise Undecided('which character')
            elif a[0] != 'cmp' and any(isch(x) for x in walk_(a)):
                raise Undecided('which character')
        return eq, ne

    def by_char(self, evs):
        """the widths of the white space written by format; all else is written by character"""
        out = []
        for i, e in enumerate(evs):
            if e[0] != 'call' or e[1] not in ('fprintf', 'fwrite', 'fputs'):
                continue
            if e[1] == 'fputs' and e[2][0][0] != 'g':
                continue
            if e[1] == 'fprintf' and len(e[2]) == 4 and self.m.gstr(e[2][1]) == '%*s' and self.m.gstr(e[2][3]) == '':
                out.append((i, e[2][2]))
                continue
            raise Undecided('a way to write characters')
        return out

    def escapes(self, X, isch, outer):
        seen = set()
        plain_ne = None
        for p in X.paths:
            ents = [i for i, e in enumerate(p.events) if e[0] == 'loop' and e[1] == outer]
            if not ents:
                continue
            eq, ne = self.chars(p, isch)
            evs = p.events[ents[-1] + 1:]
            self.by_char(evs)
            puts = [(i, e) for i, e in enumerate(evs) if e[0] == 'call' and e[1] in ('fputc', 'putc', '_IO_putc')]
            if not puts:
                continue
            i, e = puts[0]
            v = e[2][0]
            inner = [x for x in evs[:i] if x[0] == 'loop']
            bytes_ = None
            if v[0] == 'ld' and v[1][0] == 'addr' and v[1][1][0] == 'alloca' and len(v[1][3]) == 1 and v[1][3][0][1] == 1 and inner:
                ph = v[1][3][0][0]
                if ph[0] != 'phi' or inner[-1][2].get(ph[1]) != ('c', 0) or v[1][2] != 0:
                    raise Undecided('which character is written')
                steps = {bare(q.back[ph[1]]) for q in X.paths if q.end[0] == 'back' and ph[1] in q.back and bk(q) == inner[-1][1]}
                if len(steps) != 1 or elin(list(steps)[0]) != Lin(1, {ph: 1}):
                    raise Undecided('which character is written')
                mem = {}
                for x in evs[:i]:
                    if x[0] == 'copy' and x[1] == v[1][1]:
                        g = self.m.globals.get(x[2][1]) if x[2][0] == 'g' else None
                        if not g or not g.get('init'):
                            raise Undecided('what is written')
                        if g['init'][0] == 'v':
                            for j, b in enumerate(g['init'][1]):
                                mem[j] = ('c', b[1] if b[0] == 'c' else 0)
                        elif g['init'][0] == 's':
                            for j, b in enumerate(g['init'][1] + '\0'):
                                mem[j] = ('c', ord(b))
                    elif x[0] == 'zero' and x[1] == v[1][1] and x[2][0] == 'c':
                        for j in range(x[2][1]):
                            mem[j] = ('c', 0)
                    elif x[0] == 'store' and root(x[1]) == v[1][1]:
                        o = 0 if x[1] == v[1][1] else x[1][2]
                        if x[1][0] == 'addr' and x[1][3]:
                            raise Undecided('what is written')
                        size = {'i8': 1, 'i16': 2, 'i32': 4}.get(x[3].get('vty')) if isinstance(x[3], dict) else None
                        if size is None or size > 1 and x[2][0] != 'c':
                            raise Undecided('what is written')
                        for j in range(size):
                            mem[o + j] = x[2] if size == 1 else ('c', (x[2][1] >> (8 * j)) & 255)
                # how far: up to the end of the text or 2
                lim = None
                for q in X.paths:
                    for a, val, at in q.order:
                        if a[0] == 'cmp' and a[1] == 'ult' and a[3][0] == 'c' and elin(a[2]).add(Lin(0, {ph: 1}), -1).const() is not None:
                            lim = a[3][1] if lim is None else lim
                if lim is None:
                    lim = 3
                stop = any(a[0] == 'cmp' and bare(a[2]) == bare(v) and a[3] == ('c', 0) for a in p.facts)
                out = []
                for j in range(lim):
                    b = mem.get(j)
                    if b is None:
                        raise Undecided('what is written')
                    if b == ('c', 0) and stop:
                        break
                    out.append(b)
                bytes_ = out
            else:
                # written one by one
                if inner and v[0] == 'c':
                    continue        # the loop is left before anything is written
                if inner:
                    raise Undecided('what is written')
                bytes_ = []
                for j, x in puts:
                    if any(y[0] == 'loop' for y in evs[:j]):
                        break
                    bytes_.append(x[2][0])
                if p.end[0] == 'back' and bk(p) == outer:
                    pass
                else:
                    continue
            want = [('c', 92), ('c', ord(ESC[eq]))] if eq in ESC else None
            if eq is not None and eq not in ESC:
                raise Undecided('a character %d' % eq)
            norm = [x if x[0] == 'c' else ('ch',) if isch(x) else x[1] if x[0] in ('sext', 'zext') else x for x in bytes_]
            norm = [('ch',) if isinstance(x, tuple) and x[0] != 'c' and isch(x) else x for x in norm]
            if want is not None:
                seen.add(eq)
                X.ob('escape', '%d' % eq, norm == want, 'the character %d of a detail is not written as \\%s' % (eq, ESC[eq]), p)
            else:
                X.ob('escape', 'other', norm == [('ch',)], 'a character that is not special is not written as it is', p)
                plain_ne = ne if plain_ne is None else plain_ne & ne
        if plain_ne is None:
            raise Undecided('the characters written as they are')
        for c in sorted(ESC):
            X.ob('escape', 'all:%d' % c, c in plain_ne, 'the character %d of a detail is written as it is' % c)

    def wrap(self, X, S, isch, outer, roles):
        """wrapped only where a width is given, at that width, not behind the last character"""
        n, ln = roles.get('n'), roles.get('len')
        # the room left: a loop variable that loses one by each character
        nl = 0
        for p in X.paths:
            ents = [i for i, e in enumerate(p.events) if e[0] == 'loop']
            inner = [e for e in p.events if e[0] == 'loop']
            if len(inner) < 2 or inner[0][1] != outer:
                continue
            lastin = [i for i, e in enumerate(p.events) if e[0] == 'loop' and e[1] == inner[1][1]][0]
            evs = p.events[lastin + 1:]
            pads = self.by_char(evs)
            puts = [(i, e) for i, e in enumerate(evs) if e[0] == 'call' and e[1] in ('fputc', 'putc')]
            if not puts or puts[0][1][2][0][0] == 'c':
                continue
            if p.end[0] == 'ret' and is_no(p.end[1]):
                continue
            rest = [(i, e) for i, e in puts[1:]]
            # a line feed inside of the loop: not the one that is followed by the end of the colour
            wrapped = False
            reps = [e for e in evs if e[0] == 'loop']
            if rest and rest[0][1][2][0] == ('c', 10):
                after = evs[rest[0][0] + 1:]
                fin = [e for e in after if e[0] == 'call']
                wrapped = not (fin and fin[0][1] == 'fputs' and not reps)
                if p.end[0] == 'back' and bk(p) in (outer, inner[1][1]) or reps:
                    wrapped = True
            K = Knows(p)
            # the variable that counts the room
            ws = [h for h in inner[1][2] if any(q.end[0] == 'back' and h in q.back and elin(q.back[h]).add(Lin(0, {('phi', h): 1}), -1).const() == -1 for q in X.paths)]
            if len(ws) != 1:
                raise Undecided('the room left')
            w = ('phi', ws[0])
            init = inner[1][2][ws[0]]
            if init[0] == 'phi' and init[1] in inner[0][2]:
                start = inner[0][2][init[1]]
            else:
                raise Undecided('the room on the first line')
            Z = R = None
            for a, v in p.facts.items():
                if a[0] != 'cmp' or 'null' in (a[2][0], a[3][0]):
                    continue
                l = elin(a[2])
                if l == Lin(-1, {w: 1}) and a[3] == ('c', 0) and a[1] == 'eq':
                    Z = v
                elif l == Lin(0, {w: 1}) and a[3] == ('c', 1) and a[1] in ('eq',):
                    Z = v
                elif any(x == w for x in walk_(a)):
                    raise Undecided('when the text is wrapped')
                if n is not None and l.add(Lin(0, {n: 1}), -1).const() == 1 and a[3] == ln:
                    if a[1] == 'ult':
                        R = v
                    elif a[1] == 'eq':
                        R = not v
            widths = [a[2] for a in p.facts if a[0] == 'cmp' and a[1] == 'eq' and a[3] == ('c', 0) and a[2][0] == 'arg' and a[2] != ln]
            widths = [x for x in widths if x != roles.get('offset')]
            if 'width' not in roles and start[0] == 'usub.sat' and start[1][0] == start[2][0] == 'arg':
                roles['width'], roles['offset'] = start[1], start[2]
            if 'width' not in roles:
                ws_ = {a[3] for q in X.paths for a in q.facts if a[0] == 'cmp' and a[1] == 'ult' and a[2][0] == 'arg' and a[3][0] == 'arg'}
                of_ = {a[2] for q in X.paths for a in q.facts if a[0] == 'cmp' and a[1] == 'ult' and a[2][0] == 'arg' and a[3][0] == 'arg'}
                if len(ws_) != 1 or len(of_) != 1:
                    raise Undecided('the width to wrap at')
                roles['width'], roles['offset'] = list(ws_)[0], list(of_)[0]
            g = guard(p, roles['width'])
            G = True if g == 'some' else False if g == 'zero' else None
            if wrapped:
                nl += 1
                for v, msg in ((G, 'wraps where no width is given'), (Z, 'wraps before the line is full'), (R, 'wraps behind the last character')):
                    X.ob('wrap', msg.split()[1] + msg.split()[2], bool(v), msg, p)
                # the next line begins where the first does
                if reps and reps[-1][1] not in (outer, inner[1][1]):
                    c = counted_loop(S, p, reps[-1][1]) if p.end[0] != 'back' or bk(p) != reps[-1][1] else None
                    if c is not None:
                        if c[0][0] != 'arg' and c[0][0] != 'c':
                            raise Undecided('where the next line begins')
                        X.ob('wrap', 'indent', c[0] == roles['offset'], 'the next line does not begin below the first', p)
                elif pads:
                    if len(pads) != 1 or pads[0][0] < rest[0][0]:
                        raise Undecided('where the next line begins')
                    v = pads[0][1]
                    if v[0] not in ('arg', 'c'):
                        raise Undecided('where the next line begins')
                    X.ob('wrap', 'indent', v == roles['offset'], 'the next line does not begin below the first', p)
                elif p.end[0] == 'back':
                    if guard(p, roles['offset']) != 'zero':
                        X.ob('wrap', 'indent', False, 'the next line does not begin below the first', p)
                if p.end[0] == 'back' and bk(p) in (outer, inner[1][1]):
                    h = ws[0] if bk(p) == inner[1][1] else init[1]
                    X.ob('wrap', 'again', K.same(p.back.get(h), start), 'the next line has not the room of the first', p)
            elif p.end[0] == 'back' and bk(p) in (outer, inner[1][1]):
                if G and Z and R:
                    X.ob('wrap', 'full', False, 'does not wrap a line that is full', p)
                if G:
                    if Z is None:
                        raise Undecided('when the text is wrapped')
                    h = ws[0] if bk(p) == inner[1][1] else init[1]
                    X.ob('wrap', 'counts', elin(p.back[h]) == Lin(-1, {w: 1}) if h in p.back else False, 'the room left is not one less after a character', p)
            if G and start[0] == 'usub.sat':
                X.ob('wrap', 'room', False, 'there is no room where the width is used up', p)
            elif G:
                t = K.truth(('cmp', 'ult', roles['offset'], roles['width']))
                l = elin(start)
                if t:
                    X.ob('wrap', 'room', l == Lin(0, {roles['width']: 1, roles['offset']: -1}), 'the room of a line is not what is left of the width', p)
                elif t is False:
                    X.ob('wrap', 'room', l.const() is not None and l.const() > 0, 'there is no room where the width is used up', p)
                else:
                    raise Undecided('the room of a line')
        if not nl:
            raise Undecided('how the text is wrapped')

    def called(self, D, roles):
        pend = getattr(self, 'dcalls', [])
        if not pend:
            raise Undecided('how the details are printed')
        for X, p, g in pend:
            a, content, e = g[1], g[2], g[3]
            at = lambda r: a[roles[r][1]] if r in roles else None
            t = at('text')
            good = t is not None and t[0] == 'ld' and t[1] == self.S.buf and content and content[0][0] == 'detailstr' and content[0][1] == self.N
            if not good and t is not None and not (t[0] == 'ld' and content is None):
                if content and content[0][0] == 'detailstr' and content[0][1] != self.N and t[0] == 'ld' and t[1] == self.S.buf:
                    X.ob('entry', 'text', False, 'prints the details of something else', p)
                    continue
                raise Undecided('what is printed as the detail')
            X.ob('entry', 'text', good, 'what is printed is not the detail of the node', p)
            if not good:
                continue
            X.ob('entry', 'length', at('len') == content[0][2], 'the length of the detail is not the one returned with it', p)
            X.ob('entry', 'colours', at('col') == self.C_, 'the details are printed in other colours', p)
            if 'offset' in roles:
                W = self.W
                if set(W) >= {'ordinal', 'start', 'end', 'name'}:
                    want = Lin(8, {W[k]: 1 for k in ('ordinal', 'start', 'end', 'name')})
                    X.ob('entry', 'offset', self.lin(plain(p, at('offset'))) == want, 'the column the detail starts at is not the one given for the lines that follow', p)
                w = at('width')
                if w[0] != 'arg':
                    raise Undecided('the width to wrap at')
                X.ob('entry', 'width', self.W.setdefault('render', w) == w and w not in [v for k, v in W.items() if k != 'render'], 'the width to wrap at is not the one given', p)

    # ---- the widths ----------------------------------------------------------
    def widths(self):
        """the largest value of each column over the node and all its children"""
        m = self.m
        X = Fun(self.C, m, self.wd)
        node = None
        for p in X.paths:
            for e in p.calls(self.wd):
                for i, x in enumerate(e[2]):
                    c = self.child(plain(p, x))
                    if c is not None:
                        node, ni = c[0], i
        if node is None or node != ('arg', ni):
            raise Undecided('which node is measured')
        dep = {('arg', i) for p in X.paths for e in p.calls(self.wd) for i, x in enumerate(e[2]) if x[0] == 'add' and elin(x) == Lin(1, {('arg', i): 1})}
        if len(dep) != 1:
            ints = [i for i, q in enumerate(X.fn.params) if q['ty'] == 'i32']
            if len(ints) != 1:
                raise Undecided('depth')
            dep = {('arg', ints[0])}
        D = list(dep)[0]
        T = ('fn', 'cypher_astnode_typestr', ('fn', 'cypher_astnode_type', node))
        want = {'ordinal': [self.ld('ordinal', node)], 'start': [self.ld('start', node)], 'end': [self.ld('end', node)]}
        R = self.wroles = {}
        S = Stream(X, m, None, {self.wd: 'node'})
        for p in X.paths:
            st = [(i, e) for i, e in written(p)]
            first = [i for i, e in enumerate(p.events) if e[0] == 'loop'] + [len(p.events)]
            cur = {}
            for i, e in st:
                a = e[1]
                if a[0] != 'arg' or e[0] != 'store':
                    raise Undecided('what is measured')
                cur[a] = plain(p, e[2])
            # kept on paths that know it is no larger
            for q in X.fn.params and range(len(X.fn.params)):
                a = ('arg', q)
                if X.fn.params[q]['ty'] != 'ptr' or a == node:
                    continue
                v = cur.get(a, ('ld', a))
                k = self.maxof(p, a, v, node, D, T)
                if k is None:
                    raise Undecided('what is measured')
                kind, ok, msg = k
                if kind == 'other member':
                    X.ob('columns', 'other', False, 'measures a member that is not printed', p)
                    continue
                if kind:
                    if R.setdefault(kind, a) != a:
                        X.ob('columns', kind, False, 'two columns get the largest %s' % kind, p)
                    X.ob('columns', kind, ok, msg, p)
                elif not ok:
                    X.ob('columns', 'other', False, msg, p)
            # children
            if p.end[0] == 'ret':
                t = [x for x, _ in merged(S.tokens(p))]
                reps = [x for x in t if x[0] == 'rep']
                if not reps:
                    z = any(a[0] == 'cmp' and (a[1] == 'eq' and v and self.isn(p, a[2], node) and a[3] == ('c', 0)) for a, v in p.facts.items())
                    X.ob('columns', 'children', z, 'leaves out the children', p)
                    continue
                if len(reps) != 1:
                    raise Undecided('loops')
                b = counted_loop(S, p, reps[0][1])
                if b is None:
                    raise Undecided('how many children are measured')
                l = elin(b[0])
                at = [x for x in l.t if l.t[x]]
                if len(at) != 1 or not self.isn(p, at[0], node):
                    raise Undecided('how many children are measured')
                X.ob('columns', 'children', l.c == 0 and l.t[at[0]] == 1, 'does not measure as many children as there are', p)
                self.wix = b[1]
            elif p.end[0] == 'back':
                cs = p.calls(self.wd)
                X.ob('columns', 'each', len(cs) == 1, 'a child is not measured', p)
                for e in cs:
                    for i, x in enumerate(e[2]):
                        if i == ni:
                            c = self.child(plain(p, x))
                            X.ob('columns', 'child', c is not None and c[0] == node and c[1][0] == 'phi', 'measures the same child again and again', p)
                        elif ('arg', i) == D:
                            X.ob('columns', 'depth', elin(x) == Lin(1, {D: 1}), 'a child is not measured one level deeper', p)
                        else:
                            X.ob('columns', 'pass', x == ('arg', i), 'the largest values of the children go elsewhere', p)
        self.wnode, self.wdepth = ni, D
        X.ob('columns', 'all', set(R) == {'ordinal', 'start', 'end', 'name'}, 'the widths of %s are not measured' % ', '.join(sorted({'ordinal', 'start', 'end', 'name'} - set(R))))

    def isn(self, p, x, node):
        x = plain(p, x)
        return x == ('fn', 'cypher_astnode_nchildren', node) or x == self.ld('nchildren', node)

    def maxof(self, p, a, v, node, D, T):
        """(kind, is it the largest, message) of the value v stored at a"""
        def kind(x):
            for k in ('ordinal', 'start', 'end'):
                if x == self.ld(k, node):
                    return k, True
            l = self.lin(x)
            S = ('fn', 'strlen', T)
            if l.t.get(S):
                return 'name', l == Lin(0, {S: 1, D: 2})
            if x[0] == 'ld' and x[1][0] == 'addr' and x[1][1] == node and not x[1][3]:
                return 'other member', False
            return None, None
        old = ('ld', a)
        if v[0] in ('umax', 'umin', 'smax', 'smin') and len(v) == 3 and old in v[1:]:
            x = v[2] if v[1] == old else v[1]
            k, exact = kind(x)
            if k is None:
                return None
            return k, exact and v[0] == 'umax', 'the largest %s is not kept' % k if v[0] != 'umax' else 'the width of a name is not that of the name and its indentation'
        if v[0] == 'select' or v != old and kind(v)[0] is None:
            return None
        # decided by branches
        for f, val in p.facts.items():
            if f[0] != 'cmp' or f[1] not in ('ult', 'ugt', 'ule', 'uge'):
                continue
            x, y = plain(p, f[2]), plain(p, f[3])
            if old in (x, y):
                o = y if x == old else x
                k, exact = kind(o)
                if k is None:
                    continue
                lt = f[1] in ('ult', 'ule')
                oldsmaller = (x == old) == lt if val else (x == old) != lt
                want = o if oldsmaller else old
                return k, exact and v == want, 'the largest %s is not kept' % k
        if v == old:
            return None
        k, exact = kind(v)
        return k, False, 'the largest %s is not kept' % k

    def decimal(self):
        """the number of decimal digits"""
        for n in self.dec:
            X = Fun(self.C, self.m, n)
            a = ('arg', 0)
            seen = set()
            for p in X.paths:
                lo = [e for e in p.events if e[0] == 'loop']
                if len(lo) > 1:
                    raise Undecided('digits')
                if p.end[0] == 'ret' and not lo:
                    if p.end[1][0] == 'call':
                        raise Undecided('digits')
                    b = self.below(p, a)
                    if b is None:
                        raise Undecided('digits')
                    seen.add('short')
                    X.ob('digits', 'one', p.end[1] == ('c', 1) and b == 10, 'a number below 10 is not one digit wide, or a longer one is', p)
                    continue
                if not lo:
                    raise Undecided('digits')
                v = [h for h, i in lo[0][2].items() if i == a]
                c = [h for h, i in lo[0][2].items() if i[0] == 'c']
                if len(v) != 1 or len(c) != 1:
                    raise Undecided('digits')
                x, k = ('phi', v[0]), ('phi', c[0])
                first = lo[0][2][c[0]][1]
                if p.end[0] == 'back':
                    d = p.back[v[0]]
                    if d[0] != 'udiv' or d[1] != x or d[2][0] != 'c':
                        raise Undecided('digits')
                    X.ob('digits', 'step', d[2] == ('c', 10) and elin(p.back[c[0]]) == Lin(1, {k: 1}), 'a decimal digit is not counted as one', p)
                    seen.add('step')
                else:
                    b = self.below(p, x)
                    if b is None:
                        raise Undecided('digits')
                    r = elin(p.end[1]).add(Lin(0, {k: 1}), -1).const()
                    if r is None:
                        raise Undecided('digits')
                    # left with x < b after counting k from first: digits = first + (rounds) + r
                    g = self.atleast(p, a)
                    if b == 10:
                        X.ob('digits', 'end', first + r == 1, 'the digits are miscounted', p)
                    elif b == 100:
                        X.ob('digits', 'end', g == 10 and first + r == 2, 'the digits are miscounted', p)
                    else:
                        X.ob('digits', 'end', False, 'the digits are miscounted', p)
                    seen.add('end')
            if 'end' not in seen and 'short' not in seen:
                raise Undecided('digits')

    def below(self, p, x):
        """x < the number returned (exactly known from the path's last comparison)"""
        for f, v in reversed(list(p.facts.items())):
            if f[0] != 'cmp' or f[2][0] == 'null' or f[3][0] == 'null':
                continue
            if f[2] == x and f[3][0] == 'c':
                k = {('ult', True): f[3][1], ('uge', False): f[3][1], ('ule', True): f[3][1] + 1, ('ugt', False): f[3][1] + 1}.get((f[1], v))
                if k is not None:
                    return k
            if f[3] == x and f[2][0] == 'c':
                k = {('ult', False): f[2][1] + 1, ('ugt', True): f[2][1]}.get((f[1], v))
                if k is not None:
                    return k
        return None

    def atleast(self, p, x):
        for f, v in p.facts.items():
            if f[0] != 'cmp':
                continue
            if f[3] == x and f[2][0] == 'c' and f[1] == 'ult' and v:
                return f[2][1] + 1
            if f[2] == x and f[3][0] == 'c' and f[1] == 'ult' and not v:
                return f[3][1]
        return None

    # ---- the functions called by users -----------------------------------------
    def top(self, name):
        m = self.m
        X = Fun(self.C, m, name)
        v = name.endswith('v')
        P = X.fn.params
        A = {k: X.A(k) for k in (('asts', 'n') if v else ('ast',)) + ('stream', 'width', 'colorization')}
        W = self.W
        S = Stream(X, m, None, {self.pr: 'node', self.wd: 'measure'})
        S.buf_arg = None
        pi = {'stream': self.S.S, 'col': self.C_, 'render': W.get('render'), 'ordinal': W.get('ordinal'), 'start': W.get('start'), 'end': W.get('end'), 'name': W.get('name'), 'node': ('arg', self.ni), 'depth': self.depth_arg()}
        n = 0
        for p in X.paths:
            calls = [e for e in p.events if e[0] == 'call']
            pr = [e for e in calls if e[1] == self.pr]
            wd = [e for e in calls if e[1] == self.wd]
            K = Knows(p)
            for e in pr:
                n += 1
                at = lambda k: e[2][pi[k][1]] if pi[k] is not None else None
                self.subject(X, p, at('node'), A, v, 'printed', e)
                X.ob('call', 'stream', at('stream') == A['stream'], 'prints to something else than the stream given', p)
                X.ob('call', 'depth', at('depth') == ('c', 0), 'the root is not printed at depth 0', p)
                c = at('col')
                nul = p.null(A['colorization'])
                if c[0] == 'select':
                    raise Undecided('colours')
                if nul:
                    X.ob('call', 'colours', bare(c) == ('ld', ('g', 'cypher_parser_no_colorization')), 'NULL colours do not mean no colours', p)
                else:
                    X.ob('call', 'colours', c == A['colorization'] and nul is False, 'the colours given are not used', p)
                if pi['render'] is not None:
                    X.ob('call', 'width', K.same(at('render'), A['width']), 'the width given is not used', p)
                for k in ('ordinal', 'start', 'end'):
                    if pi[k] is None:
                        continue
                    l = elin(at(k))
                    ats = [x for x in l.t if l.t[x]]
                    if len(ats) != 1 or ats[0][0] != 'call' or ats[0][1] not in self.dec:
                        raise Undecided('width of a column')
                    d = args_of(p, ats[0])[2][0]
                    while d[0] in ('zext', 'trunc'):
                        d = d[1]
                    if d[0] != 'ld':
                        raise Undecided('width of a column')
                    self.measured(X, p, wd, k, d, e)
                    X.ob('call', 'room:' + k, l.c >= (1 if k == 'ordinal' else 0) and l.t[ats[0]] == 1, 'the column of the %s is too narrow' % k, p)
                if pi['name'] is not None:
                    d = at('name')
                    if d[0] != 'ld':
                        raise Undecided('width of a column')
                    self.measured(X, p, wd, 'name', d, e)
            for e in wd:
                self.subject(X, p, e[2][self.wnode], A, v, 'measured', e)
                X.ob('call', 'measured depth', e[2][self.wdepth[1]] == ('c', 0), 'a root is not measured at depth 0', p)
            fw = [e for e in calls if e[1] == 'cypher_ast_fprintv']
            if fw and not v:
                a = fw[-1][2]
                if len(fw) != 1 or pr or a[1] != ('c', 1) or a[0][0] != 'alloca':
                    raise Undecided('what is printed')
                st = [e for e in p.events if e[0] == 'store' and e[1] == a[0]]
                X.ob('call', 'printed', len(st) == 1 and st[0][2] == A['ast'], 'what is printed is not the AST given', p)
                X.ob('call', 'stream', a[2] == A['stream'], 'prints to something else than the stream given', p)
                X.ob('call', 'width', K.same(a[3], A['width']), 'the width given is not used', p)
                if not p.null(A['colorization']) and a[4] != A['colorization']:
                    raise Undecided('colours')
                n += 1
                continue
            # how often
            if p.end[0] == 'ret' and success(p):
                if not pr:
                    z = v and guard(p, A['n']) == 'zero'
                    X.ob('call', 'all', z, 'prints nothing', p)
                elif v:
                    for e, word in ((pr[-1], 'printed'), (wd[-1] if wd else None, 'measured')):
                        if e is None:
                            X.ob('call', 'measure', False, 'does not measure the columns', p)
                            continue
                        k = [i for i, x in enumerate(p.events) if x is e][0]
                        lo = [x for x in p.events[:k] if x[0] == 'loop']
                        if not lo:
                            raise Undecided('how many are ' + word)
                        b = counted_loop_at(S, p, lo[-1][1])
                        if b is None:
                            raise Undecided('how many are ' + word)
                        if b[0] != A['n'] and not (elin(b[0]).t.get(A['n']) and elin(b[0]).c):
                            raise Undecided('how many are ' + word)
                        X.ob('call', 'all', b[0] == A['n'], 'not as many are %s as are given' % word, p)
                r = p.end[1]
                if pr and r != ('c', 0) and r != pr[-1][3]:
                    X.ob('call', 'result', False, 'does not return 0 when all is printed', p)
        if not n:
            raise Undecided('nothing is printed')

    def answers(self, name):
        X = Fun(self.C, self.m, name)
        failures(X, 'failed', {self.pr, 'cypher_ast_fprintv'}, self.m)
        for p in X.paths:
            for e in p.calls('malloc', 'calloc'):
                if p.null(e[3]):
                    X.ob('failed', 'memory', p.end[0] == 'ret' and is_no(p.end[1]), 'a failing allocation is not answered by a negative result', p)

    def measured(self, X, p, wd, k, d, e):
        a = d[1]
        if not wd:
            X.ob('call', 'measure', False, 'does not measure the columns', p)
            return
        slot = self.wroles.get(k)
        if slot is None:
            raise Undecided('columns')
        for w in wd:
            X.ob('call', 'column:' + k, w[2][slot[1]] == a, 'the width of the %s is not the one measured' % k, p)
        order = [x for x in p.events]
        iw = max(i for i, x in enumerate(order) if any(x is w for w in wd))
        ie = [i for i, x in enumerate(order) if x is e][0]
        X.ob('call', 'before', iw < ie, 'prints before the columns are measured', p)
        ld = args_of
        if len(d) > 2 and d[2][0] == 'after':
            pass
        st = [(i, x) for i, x in enumerate(order) if x[0] == 'store' and x[1] == a and i < iw] + [(i, x) for i, x in enumerate(order) if x[0] == 'zero' and x[1] == a and i < iw]
        zero = any(x[0] == 'zero' or x[2] == ('c', 0) for i, x in st)
        fw = min(i for i, x in enumerate(order) if any(x is w for w in wd))
        if not st or any(x[0] == 'store' and x[2][0] != 'c' for i, x in st):
            raise Undecided('what the columns begin with')
        lo = [i for i, x in enumerate(order) if x[0] == 'loop' and i < fw]
        X.ob('call', 'begin', zero and max(i for i, x in st) < (lo[-1] if lo else fw), 'the widths do not begin with 0 before all is measured', p)

    def subject(self, X, p, x, A, v, word, e):
        if not v:
            X.ob('call', word, x == A['ast'], 'what is %s is not the AST given' % word, p)
            return
        y = bare(x)
        if y == ('ld', A['asts']):
            X.ob('call', word, guard(p, A['n']) is None and False, 'only the first AST is ' + word, p)
            return
        if not (y[0] == 'ld' and y[1][0] == 'addr' and y[1][1] == A['asts'] and len(y[1][3]) == 1):
            raise Undecided('what is ' + word)
        ix = y[1][3][0][0]
        ok = ix[0] == 'phi' and y[1][2] == 0 and y[1][3][0][1] == 8
        if ok:
            ent = [z[2][ix[1]] for z in p.events if z[0] == 'loop' and ix[1] in z[2]]
            ok = ent == [('c', 0)]
            if p.end[0] == 'back' and ix[1] in p.back:
                ok = ok and elin(p.back[ix[1]]) == Lin(1, {ix: 1})
        X.ob('call', word, ok, 'not every AST is %s, in order' % word, p)

def counted_loop_at(S, p, o):
    """the bound of loop o: from this path or, if the loop was left earlier, the same facts"""
    return counted_loop(S, p, o)

def bk(p):
    return p.end[1][0] if isinstance(p.end[1], tuple) else p.end[1]

def walk_(e):
    if isinstance(e, tuple) and e:
        if isinstance(e[0], str):
            yield e
        for x in e:
            if isinstance(x, tuple):
                yield from walk_(x)

def forwards(C, m, name, struct):
    """the ASTs of a segment or a result"""
    X = Fun(C, m, name)
    obj = ('arg', 0)
    n = 0
    for p in X.paths:
        if p.null(obj):
            continue
        cs = p.calls('cypher_ast_fprintv')
        if p.end[0] != 'ret':
            raise Undecided('loops')
        if not cs:
            if p.calls('cypher_ast_fprint'):
                raise Undecided('printed one by one')
            X.ob('forward', 'printed', False, 'does not print the ASTs', p)
            continue
        n += 1
        a = cs[0][2]
        want = (('ld', X.f(obj, struct, 'roots')), ('ld', X.f(obj, struct, 'nroots')), X.A('stream'), X.A('width'), X.A('colorization'), X.A('flags'))
        for i, (x, w) in enumerate(zip(a, want)):
            X.ob('forward', 'arg%d' % i, bare(x) == w, 'argument %d of cypher_ast_fprintv is not the %s' % (i + 1, ('roots', 'number of roots', 'stream', 'width', 'colours', 'flags')[i]), p)
        X.ob('forward', 'result', p.end[1] == cs[0][3], 'the result is not that of printing', p)
    if not n:
        raise Undecided('nothing is printed')

def F01(C):
    C.rule('entry', 'a node is printed as ordinal, range, one "> " per level, type and detail, each in its colours, then its children in order one level deeper', 6)
    C.rule('detail', 'a detail is printed whole, in its colours, on a line that is ended', 4)
    C.rule('escape', 'the characters \\a \\b \\f \\n \\r \\t \\v are printed as escapes, all others as they are', 8)
    C.rule('wrap', 'a detail is wrapped at the width given, below its first column, and not without a width', 6)
    C.rule('columns', 'the largest ordinal, offsets and name are measured over the whole tree', 6)
    C.rule('digits', 'the width of a number is the number of its decimal digits', 3)
    C.rule('call', 'all ASTs given are measured and then printed, with the stream, colours and width given', 8)
    C.rule('forward', 'a segment and a result print their roots', 6)
    C.rule('failed', 'each failure to write or to allocate is answered by a negative result', 6)
    try:
        m, pr, wd, det, dec = machine()
    except Undecided as e:
        C.undecided('entry', 'lib/src/ast.c', str(e))
        return
    Q = Printer(C, m, (pr, wd, det, dec))
    C.attempt('columns', 'lib/src/ast.c', Q.widths)
    C.attempt('digits', 'lib/src/ast.c', Q.decimal)
    ok = []
    C.attempt('entry', 'lib/src/ast.c', lambda: ok.append(Q.entry()))
    C.attempt('detail', 'lib/src/ast.c', Q.detail)
    if ok:
        for n in ('cypher_ast_fprint', 'cypher_ast_fprintv'):
            C.attempt('failed', 'lib/src/ast.c ' + n, lambda n=n: Q.answers(n))
            C.attempt('call', 'lib/src/ast.c ' + n, lambda n=n: Q.top(n))
    else:
        C.undecided('call', 'lib/src/ast.c', 'which argument is which')
    for n, s in (('cypher_parse_segment_fprint_ast', 'cypher_parse_segment'), ('cypher_parse_result_fprint_ast', 'cypher_parse_result')):
        C.attempt('forward', 'lib/src ' + n, lambda n=n, s=s: forwards(C, m, n, s))

PROPS = {'F01': F01}
