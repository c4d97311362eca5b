"""What a function does on each of its paths: the calls it makes, the stores that are
visible afterwards and the value it returns, with memory numbered by value (a load yields
the value last stored to its address on the path).  Every loop is gone through once, from
an arbitrary round: the phis of its header and all memory its body writes are unknown."""
import re
from ir import *
from own import BORROW, NORETURN, base_name

PURE_CALLS = {'__errno_location', 'strlen', 'memchr', 'memcmp', 'strcmp', 'strncmp', 'strchr', '__ctype_b_loc', 'memrchr',
              'isatty', 'fileno', 'ferror', 'feof', '__ctype_tolower_loc', '__ctype_toupper_loc', 'log10', 'ceil', 'floor'}
ZERO_ALLOC = {'calloc'}
WRITERS = {'snprintf', 'snprint_sequence', 'strncpy', 'vsnprintf', 'strcpy', 'memset', 'fprintf', 'fputs', 'fwrite', 'fputc', 'putc', 'puts', 'printf',
           'putchar', 'vfprintf', 'cypher_astnode_detailstr', 'cp_snprintf'}
PURE_LIB = {'cypher_astnode_instanceof', 'cypher_astnode_type', 'cypher_astnode_typestr', 'cypher_operator'}
ALLOCS = {'malloc', 'calloc', 'realloc', 'strdup', 'strndup', 'mdup'}

class Events(list):
    """events, with the length of the memory log when each happened"""
    def __init__(self, path, it=(), marks=()):
        list.__init__(self, it)
        self.path, self.marks = path, list(marks)
    def append(self, e):
        self.marks.append(len(self.path.mem))
        list.append(self, e)

class Path:
    def __init__(self):
        self.mem = []
        self.events = Events(self)      # ('store', addr, val, i) ('call', name, args, value, i) ('copy', dst, src, n, i) ('zero', dst, n, i)
        self.facts = {}       # atom -> bool
        self.order = []       # atoms in the order decided, with the event index
        self.end = None       # ('ret', val|None) ('back', loop) ('stop',)
        self.blocks = []
        self.fn = None
        self.mode = None
    def lines(self, limit=14):
        p = None
        for b in self.blocks:
            p = (b, p)
        return pathlines(self.fn, p, limit)
    def calls(self, *names):
        return [e for e in self.events if e[0] == 'call' and (not names or e[1] in names)]
    def stores(self):
        """address -> value last stored"""
        out = {}
        for e in self.events:
            if e[0] == 'store':
                out[e[1]] = e[2]
        return out
    def null(self, e):
        if e[0] == 'null':
            return True
        if e[0] in ('g', 'alloca'):
            return False
        return self.facts.get(('cmp', 'eq', e, ('null',)))
    def zero(self, e):
        if e[0] == 'c':
            return e[1] == 0
        return self.facts.get(('cmp', 'eq', e, ('c', 0)))
    def eq(self, a, b):
        x = mkcmp('eq', a, b)
        if x[0] == 'c':
            return bool(x[1])
        return self.facts.get(x)
    def load(self, addr, ty='ptr', upto=None):
        return self.fn_eff.read(self, addr, ty, upto)
    def load_at(self, k, addr, ty='ptr'):
        """what memory holds just before event k"""
        return self.fn_eff.read(self, addr, ty, self.events.marks[k])

class Effects:
    def __init__(self, fn, limit=3000, pure=(), readonly=(), mods=None, peel=False):
        self.fn, self.limit, self.pure, self.readonly, self.mods, self.peel = fn, limit, set(pure), set(readonly), mods, peel
        self.out = []
        self.n = 0

    def run(self):
        fn = self.fn
        p = Path()
        p.fn, p.fn_eff = fn, self
        stack = [(0, None, p, {}, 0)]
        while stack:
            b, frm, p, val, pos = stack.pop()
            stack.extend(self.block(b, frm, p, val, pos))
            if self.n > self.limit:
                raise Undecided('too many paths in ' + fn.src)
        return self.out

    def fork(self, p):
        q = Path()
        q.fn, q.fn_eff = p.fn, self
        q.facts, q.order, q.mem, q.blocks = dict(p.facts), list(p.order), list(p.mem), list(p.blocks)
        q.events = Events(q, p.events, p.events.marks)
        q.mode = p.mode
        return q

    def finish(self, p, end):
        p.end = end
        self.n += 1
        self.out.append(p)

    # ---- values
    def v(self, r, val):
        k = r[0]
        if k == 'i':
            return val.get(r[1], ('?', r[1]))
        if k == 'ge':
            return mkaddr(self.v(r[1], val), r[2], ())
        return self.fn.expr(r)

    def read(self, p, a, ty='ptr', upto=None):
        mm = re.match(r'i(\d+)$', ty or '')
        lw = max(int(mm.group(1)) // 8, 1) if mm else 8
        root = a
        while root[0] == 'addr':
            root = root[1]
        _, off, var = (a[1], a[2], a[3]) if a[0] == 'addr' else (a, 0, ())
        base = a[1] if a[0] == 'addr' else a
        for k in range((len(p.mem) if upto is None else upto) - 1, -1, -1):
            e = p.mem[k]
            if e[0] == 'st':
                if e[1] == a:
                    return e[2] if e[3] >= lw else ('ld', a, ('after', k))
                eb, eo, ev = (e[1][1], e[1][2], e[1][3]) if e[1][0] == 'addr' else (e[1], 0, ())
                if eb == base and ev == var and eo < off + lw and off < eo + e[3]:
                    # part of what was stored
                    x = e[2]
                    if eo < off and off + lw <= eo + e[3] and x[0] == 'ld':
                        return ('ld', mkaddr(x[1], off - eo, ())) + x[2:]
                    if eo < off and off + lw <= eo + e[3] and x[0] == 'c':
                        return ('c', (x[1] >> (8 * (off - eo))) & ((1 << (8 * lw)) - 1))
                    if eo < off and off + lw <= eo + e[3]:
                        return ('part', x, off - eo)
                    return ('ld', a, ('after', k))
                if eb == base and (ev != var) and (ev or var):
                    return ('ld', a, ('after', k))
            elif e[0] == 'cp':
                eb, eo, ev = (e[1][1], e[1][2], e[1][3]) if e[1][0] == 'addr' else (e[1], 0, ())
                if eb == base and ev == var:
                    n = e[3]
                    if n is None:
                        if off >= eo:
                            return ('ld', a, ('after', k))
                    elif eo <= off < eo + n:
                        return self.read(p, mkaddr(e[2], off - eo, ()), ty, k)
            elif e[0] == 'zero':
                eb, eo, ev = (e[1][1], e[1][2], e[1][3]) if e[1][0] == 'addr' else (e[1], 0, ())
                if eb == base and ev == var and off >= eo and (e[2] is None or off < eo + e[2]):
                    return ('null',) if ty == 'ptr' else ('c', 0)
            elif e[0] == 'havoc':
                if self.private(root):
                    continue
                if root[0] == 'alloca' and root not in e[2]:
                    continue
                if root[0] == 'alloca' and e[3] is not None and all(self.apart(a, r) for r in e[3]):
                    continue
                return ('ld', a, ('after', e[1]))
            elif e[0] == 'loop':
                if e[2] is None and not self.private(root) or any(self.overlap(a, x) for x in e[3]):
                    return ('ld', a, ('loop', e[1]))
        return ('ld', a)

    def private(self, r):
        """memory allocated here to which no other function gets a pointer"""
        if r[0] != 'call' or len(r) < 3 or r[1] not in ALLOCS or not isinstance(r[2], int):
            return False
        if not hasattr(self, '_private'):
            self._private = {}
        if r[2] not in self._private:
            self._private[r[2]] = self.unshared(r[2])
        return self._private[r[2]]

    def unshared(self, n):
        fn = self.fn
        seen, work = {n}, [n]
        users = {}
        for b in fn.blocks:
            for i in b:
                for x in refs(i):
                    while x[0] == 'ge':
                        x = x[1]
                    if x[0] == 'i':
                        users.setdefault(x[1], []).append(i)
        while work:
            v = work.pop()
            for i in users.get(v, ()):
                op = i['op']
                def is_v(x):
                    while x[0] == 'ge':
                        x = x[1]
                    return x[0] == 'i' and x[1] == v
                if op in ('getelementptr', 'bitcast', 'phi', 'select', 'freeze'):
                    if i['id'] not in seen:
                        seen.add(i['id'])
                        work.append(i['id'])
                elif op == 'store':
                    if is_v(i['args'][0]):
                        return False
                elif op == 'call':
                    c = i.get('callee')
                    if not (c and (c == 'free' or c == 'realloc' or base_name(c) in ('memcpy', 'memmove', 'memset') or c.startswith(('llvm.dbg', 'llvm.lifetime')))):
                        return False
                elif op not in ('load', 'icmp', 'ret', 'br', 'switch'):
                    return False
        return True

    def overlap(self, a, x):
        """may the addresses be the same (x was written in a loop)?"""
        ab, ao, av = (a[1], a[2], a[3]) if a[0] == 'addr' else (a, 0, ())
        xb, xo, xv = (x[1], x[2], x[3]) if x[0] == 'addr' else (x, 0, ())
        if av or xv:
            return True
        return ao == xo or xb == ab and False

    def escaped(self, n, args, now):
        """local objects a call can write to later on (or now: the call itself)"""
        cap = self.mods.captures(n) if self.mods is not None and isinstance(n, str) and now is None else None
        return frozenset(x for k, a in enumerate(args) if cap is None or k in cap for x in walk(a) if x and x[0] == 'alloca')

    def apart(self, a, r):
        """is the local address a outside the region r?"""
        x, z = r
        ab, ao, av = (a[1], a[2], a[3]) if a[0] == 'addr' else (a, 0, ())
        xb, xo, xv = (x[1], x[2], x[3]) if x[0] == 'addr' else (x, 0, ())
        while xb[0] == 'addr':
            xb = xb[1]
        if ab[0] == 'alloca' and xb[0] == 'alloca' and ab != xb:
            return True
        if xb[0] != 'alloca':
            return xb[0] in ('call', 'arg', 'g', 'null', 'c', 'ld')
        if av or xv or z is None:
            return False
        return not (xo <= ao < xo + z)

    def eval(self, i, p, val):
        op = i['op']
        A = lambda k: self.v(i['args'][k], val)
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
            a = i['args'][0]
            if op == 'trunc' and i.get('ty') in ('i8', 'i16') and self.fn.narrowed(i) and A(0)[0] != 'c':
                return ('low', int(i['ty'][1:]), A(0))
            if op == 'sext' and a[0] == 'i' and self.fn.ins[a[1]].get('ty') == 'i1':
                b = A(0)
                return ('c', -(b[1] & 1)) if b[0] == 'c' else ('sub', ('c', 0), b)
            return A(0)
        if op == 'getelementptr':
            if 'off' not in i:
                return ('?', i['id'])
            return mkaddr(self.v(i['base'], val), i['off'], tuple((self.v(v, val), s) for v, s in i['var']))
        if op == 'load':
            return self.read(p, A(0), i.get('ty', 'ptr'))
        if op == 'icmp':
            return mkcmp(i['pred'], A(0), A(1))
        if op == 'alloca':
            return ('alloca', i['id'])
        if op == 'select':
            c = A(0)
            if c[0] == 'c':
                return A(1) if c[1] & 1 else A(2)
            k = self.decided(p, c)
            if k is not None:
                return A(1) if k else A(2)
            return ('select', c, A(1), A(2))
        if op in ('add', 'mul', 'and', 'or', 'xor'):
            a, b = A(0), A(1)
            if repr(a) > repr(b):
                a, b = b, a
            if a[0] == 'c' and b[0] == 'c':
                f = {'add': lambda x, y: x + y, 'mul': lambda x, y: x * y, 'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y}[op]
                return ('c', f(a[1], b[1]))
            if op == 'add':
                if a == ('c', 0):
                    return b
                # (x + c1) + c2
                if a[0] == 'c' and b[0] == 'add' and b[1][0] == 'c':
                    s = ('c', a[1] + b[1][1])
                    return b[2] if s == ('c', 0) else ('add', s, b[2])
            return (op, a, b)
        if op == 'sub':
            a, b = A(0), A(1)
            if b[0] == 'c':
                return self.addc(a, -b[1])
            return ('sub', a, b)
        if op == 'shl':
            a, b = A(0), A(1)
            if b[0] == 'c':
                x, y = a, ('c', 1 << b[1])
                if repr(x) > repr(y):
                    x, y = y, x
                return ('mul', x, y)
            return (op, a, b)
        if op in ('extractvalue', 'insertvalue'):
            return (op, tuple(i['idx'])) + tuple(self.v(a, val) for a in i['args'])
        return (op,) + tuple(self.v(a, val) for a in i.get('args', []))

    def addc(self, a, c):
        if a[0] == 'c':
            return ('c', a[1] + c)
        if a[0] == 'add' and a[1][0] == 'c':
            s = a[1][1] + c
            return a[2] if s == 0 else ('add', ('c', s), a[2])
        return a if c == 0 else ('add', ('c', c), a)

    # ---- conditions
    def split(self, e, truth):
        """ways in which e is truth: list of lists of (atom, bool)"""
        k = e[0]
        if k == 'c':
            return [[]] if bool(e[1] & 1) == truth else []
        if k == 'xor' and e[1][0] == 'c' and e[1][1] in (1, -1):
            return self.split(e[2], not truth)
        if k == 'xor' and e[2][0] == 'c' and e[2][1] in (1, -1):
            return self.split(e[1], not truth)
        if k in ('and', 'or') and not any(x[0] == 'c' for x in e[1:]):
            if (k == 'and') == truth:
                return [a + b for a in self.split(e[1], truth) for b in self.split(e[2], truth)]
            return self.split(e[1], truth) + [a + b for a in self.split(e[1], not truth) for b in self.split(e[2], truth)]
        if k == 'select':
            return [a + b for a in self.split(e[1], True) for b in self.split(e[2], truth)] + \
                   [a + b for a in self.split(e[1], False) for b in self.split(e[3], truth)]
        if k == 'cmp':
            p = e[1]
            # comparison of a truth value with zero
            if p in ('eq', 'ne') and e[3] == ('c', 0) and e[2][0] in ('cmp', 'select') and (e[2][0] == 'cmp' or all(x[0] in ('cmp', 'c') for x in e[2][2:])):
                return self.split(e[2], truth == (p == 'ne'))
            if p == 'ne':
                return [[(('cmp', 'eq', e[2], e[3]), not truth)]]
            if p in ('uge', 'ule', 'sge', 'sle'):
                return [[(('cmp', NEG[p], e[2], e[3]), not truth)]]
            return [[(e, truth)]]
        return [[(('bool', e), truth)]]

    def decided(self, p, e):
        t = [c for c in self.split(e, True) if all(self.consistent(p, a, v) for a, v in c)]
        f = [c for c in self.split(e, False) if all(self.consistent(p, a, v) for a, v in c)]
        if t and not f:
            return True
        if f and not t:
            return False
        return None

    def consistent(self, p, a, v):
        if a in p.facts:
            return p.facts[a] == v
        if a[0] == 'cmp' and a[1] == 'eq' and v and a[3][0] in ('c', 'null'):
            for o, ov in p.facts.items():
                if ov and o[0] == 'cmp' and o[1] == 'eq' and o[2] == a[2] and o[3] != a[3] and o[3][0] in ('c', 'null'):
                    x = a[3][1] if a[3][0] == 'c' else 0
                    y = o[3][1] if o[3][0] == 'c' else 0
                    if x != y:
                        return False
        if a[0] == 'cmp' and a[1] == 'eq' and a[3] == ('null',) and v and a[2][0] in ('alloca', 'g'):
            return False
        if a[0] == 'cmp' and a[1] == 'eq' and a[3] == ('null',) and v and a[2][0] == 'addr':
            return False
        return True

    # ---- blocks
    def block(self, b, frm, p, val, pos):
        fn = self.fn
        val = dict(val)
        if pos == 0:
            r = self.enter(b, frm, p, val)
            if r is not None:
                return r
        for k in range(pos, len(fn.blocks[b])):
            i = fn.blocks[b][k]
            op = i['op']
            if op == 'phi':
                continue
            if op == 'store':
                a, x = self.v(i['args'][1], val), self.v(i['args'][0], val)
                p.events.append(('store', a, x, i))
                p.mem.append(('st', a, x, tywidth(i['vty'])))
            elif op == 'call':
                if self.call(i, p, val):
                    self.finish(p, ('stop',))
                    return []
            elif op == 'ret':
                p.val = val
                self.finish(p, ('ret', self.v(i['args'][0], val) if i['args'] else None))
                return []
            elif op == 'unreachable':
                return []
            elif op in ('br', 'switch'):
                break
            elif op == 'select':
                c = self.v(i['args'][0], val)
                alts = []
                for truth in (True, False):
                    for conj in self.split(c, truth):
                        q = self.assume(p, conj)
                        if q is not None:
                            v2 = dict(val)
                            v2[i['id']] = self.v(i['args'][1 if truth else 2], val)
                            alts.append((b, frm, q, v2, k + 1))
                if len(alts) == 1:
                    p, val = alts[0][2], alts[0][3]
                    continue
                return alts
            else:
                val[i['id']] = self.eval(i, p, val)
        return self.leave(b, p, val)

    def assume(self, p, conj):
        q = self.fork(p)
        for a, v in conj:
            if not self.consistent(q, a, v):
                return None
            if a not in q.facts:
                q.order.append((a, v, len(q.events)))
            q.facts[a] = v
        return q

    def enter(self, b, frm, p, val):
        fn = self.fn
        if frm == 'peel':
            p.blocks.append(b)
            return None
        hdr = [l for l in fn.loops.values() if l['header'] == b]
        peel = bool(hdr) and self.peel and frm is not None and self.peelable(hdr[0])
        if hdr and frm is not None:
            l = hdr[0]
            now = {i['id']: self.v(v, val) for i in fn.blocks[b] if i['op'] == 'phi' for v, pb in i['in'] if pb == frm}
            if frm in l['bset']:
                if peel:
                    q = self.fork(p)
                    q.mode = ('again', l, now)
                    v2 = dict(val)
                    v2.update(now)
                    return [(b, 'peel', q, v2, 0)]
                p.blocks.append(b)
                p.back = now
                self.finish(p, ('back', l['id']))
                return []
            if peel and p.mode is None:
                q = self.fork(p)
                q.mode = ('out', l, now)
                v2 = dict(val)
                v2.update(now)
                q2 = self.fork(p)
                q2.mode = ('in', l, now)
                return [(b, frm, q2, val, 0), (b, 'peel', q, v2, 0)]
        p.blocks.append(b)
        new = {}
        for i in fn.blocks[b]:
            if i['op'] != 'phi':
                break
            if hdr:
                new[i['id']] = ('phi', i['id'])
            else:
                for v, pb in i['in']:
                    if pb == frm:
                        new[i['id']] = self.v(v, val)
        if hdr:
            p.entry = getattr(p, 'entry', {})
            l = hdr[0]
            ws, calls = [], False
            for bb in l['bset']:
                for i in fn.blocks[bb]:
                    if i['op'] == 'store':
                        ws.append(fn.expr(i['args'][1]))
                    elif i['op'] == 'call' and not self.harmless(i):
                        calls = True
            p.events.append(('loop', l['id'], {i['id']: self.v(v, val) for i in fn.blocks[b] if i['op'] == 'phi' for v, pb in i['in'] if pb == frm}))
            p.mem.append(('loop', l['id'], None if calls else tuple(ws), tuple(ws)))
        val.update(new)
        return None

    def peelable(self, l):
        """does the header of the loop only test?"""
        h = self.fn.blocks[l['header']]
        return len(self.fn.succ[l['header']]) > 1 and any(x not in l['bset'] for x in self.fn.succ[l['header']]) and \
            not any(i['op'] == 'store' or i['op'] == 'call' and not self.harmless(i) for i in h)

    def leave(self, b, p, val):
        mode, p.mode = p.mode, None
        out = self.successors(b, p, val)
        if mode is None:
            return out
        how, l, now = mode
        res = []
        for s in out:
            inside = s[0] in l['bset']
            if how == 'again' and inside:
                q = s[2]
                q.back = now
                self.finish(q, ('back', l['id']))
            elif inside == (how == 'in') or how == 'again':
                res.append(s)
        return res

    def successors(self, b, p, val):
        fn = self.fn
        t = fn.blocks[b][-1]
        out = []
        if t['op'] == 'br' and t['args']:
            c = self.v(t['args'][0], val)
            for truth, s in ((True, t['succ'][0]), (False, t['succ'][1])):
                for conj in self.split(c, truth):
                    q = self.assume(p, conj)
                    if q is not None:
                        out.append((s, b, q, val, 0))
        elif t['op'] == 'switch':
            x = self.v(t['args'][0], val)
            for cst, s in t['cases']:
                a = mkcmp('eq', x, ('c', cst))
                if a == ('c', 0):
                    continue
                q = self.fork(p)
                if a != ('c', 1):
                    if not self.consistent(q, a, True):
                        continue
                    q.facts[a] = True
                    q.order.append((a, True, len(q.events)))
                out.append((s, b, q, val, 0))
            q = self.fork(p)
            ok = True
            for cst, s in t['cases']:
                a = mkcmp('eq', x, ('c', cst))
                if a == ('c', 1) or a[0] == 'cmp' and not self.consistent(q, a, False):
                    ok = False
                    break
                if a[0] == 'cmp':
                    q.facts[a] = False
                    q.order.append((a, False, len(q.events)))
            if ok:
                out.append((t['def'], b, q, val, 0))
        else:
            for s in fn.succ[b]:
                out.append((s, b, self.fork(p) if len(fn.succ[b]) > 1 else p, val, 0))
        return out

    def harmless(self, i):
        n = i.get('callee')
        if n is None:
            return False
        b = base_name(n)
        return n in PURE_CALLS or n in self.pure or n in PURE_LIB or n in WRITERS and not any(x[0] == 'alloca' for x in walk(self.fn.expr(i['args'][0])) if x) or n in ('free',) or n.startswith('llvm.dbg') or n.startswith(('llvm.lifetime', 'llvm.va_', 'llvm.usub', 'llvm.stack')) or n in ALLOCS or \
            b in ('expect', 'assume', 'umax', 'umin', 'smax', 'smin', 'fshl', 'fshr', 'ctpop', 'is', 'abs')

    def call(self, i, p, val):
        n = i.get('callee')
        args = tuple(self.v(a, val) for a in i['args'])
        b = base_name(n) if n else None
        if n and (n.startswith('llvm.dbg') or n.startswith('llvm.lifetime') or n == 'llvm.assume'):
            return False
        if n and n.startswith(('llvm.va_', 'llvm.stack')):
            return False
        if n and n.startswith('llvm.usub.sat'):
            val[i['id']] = args[0] if args[1] == ('c', 0) else ('usub.sat',) + args
            return False
        if n and n.startswith('llvm.') and b in ('umax', 'umin', 'smax', 'smin', 'abs', 'fshl', 'ctpop'):
            val[i['id']] = (b,) + args
            return False
        if b in ('memcpy', 'memmove') and len(args) >= 3:
            k = args[2][1] if args[2][0] == 'c' else None
            p.events.append(('copy', args[0], args[1], args[2], i))
            p.mem.append(('cp', args[0], args[1], k))
            val[i['id']] = args[0]
            return False
        if b == 'memset' and args[1] == ('c', 0):
            k = args[2][1] if args[2][0] == 'c' else None
            p.events.append(('zero', args[0], args[2], i))
            p.mem.append(('zero', args[0], k))
            val[i['id']] = args[0]
            return False
        if n == '__errno_location':
            val[i['id']] = ('errno',)
            return False
        if n in WRITERS and fp_none(i):
            e = ('call', n, i['id'])
            val[i['id']] = e
            p.events.append(('call', n, args, e, i))
            if 'print' in n and n[0] != 's' and n[0] != 'v' or n.startswith('f') or n.startswith('put'):
                return False
            p.mem.append(('cp', args[0], ('?w', i['id']), None))
            return False
        if n in PURE_CALLS or n in PURE_LIB or n in self.pure:
            e = ('call', n) + args
            val[i['id']] = e
            p.events.append(('call', n, args, e, i))
            return False
        e = ('call', n or '*', i['id'])
        val[i['id']] = e
        fp = self.v(i['fp'], val) if n is None and 'fp' in i else None
        p.events.append(('call', n or fp, args, e, i))
        if n in NORETURN or b in NORETURN:
            return True
        if n in self.readonly:
            return False
        if n in ZERO_ALLOC:
            p.mem.append(('zero', e, None))
        elif n in ('malloc', 'realloc', 'strdup', 'strndup', 'mdup', 'free'):
            pass
        else:
            esc = self.escaped(n, args, i['id'])
            # anything whose address was ever stored or passed
            for ev in p.events:
                if ev[0] == 'call':
                    esc |= self.escaped(ev[1], ev[2], None)
                elif ev[0] == 'store' and ev[2][0] in ('alloca', 'addr'):
                    esc |= frozenset(x for x in walk(ev[2]) if x and x[0] == 'alloca')
            reg = self.mods.of(n) if self.mods is not None and n else None
            if reg is not None:
                reg = [(mkaddr(args[k], o, ()) if o is not None else args[k], z) for k, o, z in reg if k < len(args)]
            p.mem.append(('havoc', i['id'], esc, reg))
        return False

def fp_none(i):
    return i.get('callee') is not None

def tywidth(t):
    """bytes of a value of the type"""
    mm = re.match(r'(?:<(\d+) x )?(i(\d+)|ptr|double|float)>?$', t or '')
    if not mm:
        return 16
    w = {'ptr': 8, 'double': 8, 'float': 4}.get(mm.group(2)) or max(int(mm.group(3)) // 8, 1)
    return w * int(mm.group(1) or 1)

class Mods:
    """The memory a function may write, relative to its parameters: a list of (parameter,
    offset, size), with None for unknown bounds.  Pointers loaded from memory are taken not
    to point into the caller's local objects."""
    def __init__(self, m):
        self.m = m
        self.memo = {}
    def of(self, n):
        if n in self.memo:
            return self.memo[n]
        self.memo[n] = []            # for recursion, completed below
        for _ in range(6):
            r = self.compute(n)
            if r == self.memo[n]:
                break
            self.memo[n] = r
            if r is None:
                break
        return self.memo[n]
    def captures(self, n):
        """parameters whose value may be kept after the call; None: unknown"""
        key = ('cap', n)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = set()
        if n not in self.m.raw:
            self.memo[key] = set() if n in PURE_CALLS or n in WRITERS or n in PURE_LIB or n in ALLOCS or base_name(n) in ('memcpy', 'memset', 'memmove', 'free', 'memchr') else None
            return self.memo[key]
        fn = self.m.fn(n)
        out = set()
        for b in fn.blocks:
            for i in b:
                if i['op'] == 'store' or i['op'] == 'ret' and i['args']:
                    out |= {k for k, o in self.places(fn, i['args'][0])}
                elif i['op'] == 'call' and not (i.get('callee') or '').startswith('llvm.'):
                    c = self.captures(i['callee']) if i.get('callee') else None
                    for k, a in enumerate(i['args']):
                        if c is None or k in c:
                            out |= {x for x, o in self.places(fn, a)}
        self.memo[key] = out
        return out
    def places(self, fn, r, seen=()):
        k = r[0]
        if k == 'a':
            return [(r[1], 0)]
        if k == 'ge':
            return [(x, None if o is None else o + r[2]) for x, o in self.places(fn, r[1], seen)]
        if k != 'i' or r[1] in seen:
            return []
        i = fn.ins[r[1]]
        s = seen + (r[1],)
        if i['op'] == 'getelementptr':
            o = None if i.get('var') or 'off' not in i else i['off']
            return [(x, None if o is None or y is None else y + o) for x, y in self.places(fn, i['base'], s)]
        if i['op'] == 'phi':
            return sum([self.places(fn, v, s) for v, _ in i['in']], [])
        if i['op'] == 'select':
            return self.places(fn, i['args'][1], s) + self.places(fn, i['args'][2], s)
        if i['op'] in ('bitcast', 'freeze', 'inttoptr', 'ptrtoint', 'add', 'sub'):
            out = sum([self.places(fn, a, s) for a in i['args']], [])
            return [(x, None) for x, y in out] if i['op'] in ('add', 'sub') else out
        return []
    def compute(self, n):
        if n not in self.m.raw:
            return None
        fn = self.m.fn(n)
        out = set()
        for b in fn.blocks:
            for i in b:
                if i['op'] == 'store':
                    for k, o in self.places(fn, i['args'][1]):
                        out.add((k, o, None if o is None else tywidth(i['vty'])))
                elif i['op'] == 'call':
                    c = i.get('callee')
                    if c is None:
                        return None
                    bn = base_name(c)
                    if c.startswith('llvm.dbg') or c in PURE_CALLS or c in PURE_LIB or bn in ('expect', 'assume', 'umax', 'umin', 'smax', 'smin', 'abs', 'usub') or c.startswith(('llvm.lifetime', 'llvm.va_')):
                        continue
                    if bn in ('memcpy', 'memmove', 'memset') or c in WRITERS and c not in ('fprintf', 'fputs', 'fputc', 'fwrite', 'putc'):
                        z = i['args'][2][1] if bn in ('memcpy', 'memmove', 'memset') and i['args'][2][0] == 'c' else None
                        for k, o in self.places(fn, i['args'][0]):
                            out.add((k, o, z))
                        continue
                    if c in ALLOCS or c in ('free', '_exit', 'abort', '__assert_fail', 'siglongjmp', 'getc', 'ferror', 'fputs', 'fwrite', 'fprintf', 'fputc', 'putc'):
                        continue
                    sub = self.of(c)
                    if sub is None:
                        if any(self.places(fn, a) for a in i['args']):
                            return None
                        continue
                    for k, o, z in sub:
                        if k < len(i['args']):
                            for k2, o2 in self.places(fn, i['args'][k]):
                                out.add((k2, None if o is None or o2 is None else o + o2, z))
        return sorted(out, key=repr)

def effects(fn, **k):
    return Effects(fn, **k).run()

def F(m, base, struct, field):
    f = m.field(struct, field)
    if f is None:
        raise Undecided('no field %s.%s' % (struct, field))
    return mkaddr(base, f['o'], ())
