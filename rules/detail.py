"""Printing nodes: detail strings, and the buffers they are printed into."""
import re
from astmodel import *
from effects import effects, mkaddr, walk
from fields import model, Place
from ir import elin, Lin
from memo import spec

STR, SIZE = ('arg', 1), ('arg', 2)
WIDTH = {'snprintf', 'snprint_sequence', 'cypher_astnode_detailstr', 'vsnprintf'}
COPY = {'strncpy', 'strcpy', 'memcpy', 'memset'}

def offset(a, s=STR):
    """linear offset of an address in the buffer, or None"""
    if a == s:
        return Lin(0)
    if a[0] == 'addr' and a[1] == s:
        l = Lin(a[2])
        for v, k in a[3]:
            l = l.add(elin(v).mul(k))
        return l
    return None

def nonneg(l):
    """may a linear form over lengths be shown not to be negative?"""
    return l.c >= 0 and all(v >= 0 for v in l.t.values())

class Buf:
    """The rules of one function that prints into (str, size)."""
    def __init__(self, m, fn, str_, size):
        self.m, self.fn, self.s, self.z = m, fn, str_, size
        self.paths = effects(fn)

    def below(self, p, Y, upto=None):
        """Y < size is known (the facts decided before event number upto)"""
        A = Lin(0, {self.z: 1})
        def sound(d):
            return nonneg(d) or all(v >= 0 or k in () for k, v in d.t.items()) and d.c >= 0
        for a, v, at in p.order:
            if upto is not None and at > upto:
                break
            if a[0] != 'cmp':
                continue
            L, R = elin(a[2]) if a[2][0] != 'null' else None, elin(a[3]) if a[3][0] != 'null' else None
            if L is None or R is None:
                continue
            if a[1] in ('ult', 'slt', 'ugt', 'sgt'):
                if a[1] in ('ugt', 'sgt'):
                    L, R = R, L
                # v: L < R,  not v: R <= L  i.e. R < L + 1
                lo, hi = (L, R) if v else (R, L.add(Lin(1)))
                # lo < hi = size + k
                if hi.t.get(self.z) == 1 and lo.t.get(self.z, 0) == 0:
                    k = hi.add(A, -1)
                    # Y <= lo - k
                    if nonneg(lo.add(k, -1).add(Y, -1)):
                        return True
            if a[1] == 'eq' and not v and (L == A and R == Lin(0) or R == A and L == Lin(0)):
                if Y == Lin(0):
                    return True
        # size - 1
        d = Y.add(A, -1)
        if not d.t and d.c < 0 and Y.t.get(self.z) == 1:
            k = -d.c
            return self.below(p, Lin(k - 1), upto)
        return False

    def room(self, p, S, X, at, what):
        """S, the size given with an address X into the buffer, does not reach beyond it: None or a message"""
        A = Lin(0, {self.z: 1})
        if S[0] == 'c' and S[1] == 0:
            return None
        if S[0] == 'usub.sat':
            l, x = S[1:]
            if elin(l) != A:
                raise Undecided('size argument')
            return None if nonneg(elin(x).add(X, -1)) else '%s is given more room than is left' % what
        if S[0] == 'select':
            raise Undecided('size argument')
        l = elin(S)
        if l.t.get(self.z) == 1:
            x = A.add(l, -1)
            if not nonneg(x.add(X, -1)):
                return '%s is given more room than is left' % what
            if x == Lin(0):
                return None
            if not (self.below(p, x, at) or self.below(p, x.add(Lin(-1)), at)):
                return '%s is given a size that wraps around when the buffer is full' % what
            return None
        if l.const() is not None and self.below(p, X.add(Lin(l.const() - 1)), at):
            return None
        raise Undecided('size argument')

    def scan(self):
        """every path: (Lin of what is printed | None, returned Lin, group key); problems"""
        self.bad = {}
        self.gaps = {}
        self.und = {}
        res = []
        nw = 0
        for p in self.paths:
            T = Lin(0)
            T_ok = True
            nstores = 0
            widths = []
            for k, e in enumerate(p.events):
                if e[0] == 'loop':
                    ph = [x for x, init in e[2].items() if elin(init) == T and (init[0] != 'c' or init[1] != 0 or self.is_offset(p, k, x))]
                    cand = [x for x in ph if self.is_offset(p, k, x)]
                    if cand:
                        p.T = Lin(0, {('phi', cand[0]): 1})
                        p.Tphi = cand[0]
                        T = p.T
                    else:
                        used = [x for x in e[2] if self.is_offset(p, k, x)]
                        if used:
                            T_ok = False
                            T = Lin(0, {('phi', used[0]): 1})
                    continue
                if e[0] == 'store':
                    Y = offset(e[1], self.s)
                    if Y is None:
                        if self.rooted(e[1]):
                            self.und.setdefault('bounded', 'address into the buffer')
                        continue
                    nw += 1
                    if not self.below(p, Y, k):
                        self.bad.setdefault('bounded', ('a character is stored at a place that may be beyond the end of the buffer', p))
                    if Y.t.get(self.z) or e[2] == ('c', 0):        # termination
                        continue
                    nstores += 1
                    if T_ok and Y != T:
                        # a store that comes after skipped ones
                        T_ok = False
                    else:
                        T = T.add(Lin(1))
                    continue
                if e[0] == 'copy' or e[0] == 'zero':
                    X = offset(e[1], self.s)
                    if X is None:
                        continue
                    nw += 1
                    n = e[3] if e[0] == 'copy' else e[2]
                    try:
                        x = self.room(p, n, X, k, 'a copy')
                        if x:
                            self.bad.setdefault('bounded', (x, p))
                    except Undecided as u:
                        self.und.setdefault('bounded', str(u))
                    s = self.m.gstr(e[2]) if e[0] == 'copy' else None
                    T_ok = T_ok and X == T
                    T = T.add(Lin(n[1]) if n[0] == 'c' else Lin(len(s)) if s is not None else elin(n))
                    nstores += 1
                    continue
                if e[0] == 'call' and e[1] in WIDTH | COPY:
                    a = e[2]
                    ia, iz = (1, 2) if e[1] == 'cypher_astnode_detailstr' else (0, 1)
                    if e[1] in COPY:
                        iz = 2
                    if e[1] == 'strcpy':
                        self.bad.setdefault('bounded', ('an unbounded copy into the buffer', p))
                        continue
                    X = offset(a[ia], self.s)
                    if X is None:
                        if a[ia][0] == 'null' or self.m is None or not self.rooted(a[ia]):
                            continue
                        self.und.setdefault('bounded', 'address into the buffer')
                        continue
                    nw += 1
                    try:
                        x = self.room(p, a[iz], X, k, e[1])
                        if x:
                            self.bad.setdefault('bounded', (x, p))
                    except Undecided as u:
                        self.und.setdefault('bounded', '%s: %s' % (e[1], u))
                    if X != T:
                        d = X.add(T, -1).const()
                        if d is not None and T_ok:
                            self.gaps.setdefault((d, e[1]), p)
                            T = X
                        else:
                            T_ok = False
                    if e[1] in WIDTH:
                        T = T.add(elin(e[3]))
                        widths.append((e, k))
                    else:
                        s = self.m.gstr(a[1])
                        if s is None or e[1] != 'strncpy':
                            T_ok = False
                        else:
                            T = T.add(Lin(len(s)))
                            nstores += 1
            # negative widths
            for e, k in widths:
                neg = self.negative(p, e[3])
                if neg is True:
                    after = [x for x in p.events[k + 1:] if x[0] in ('store', 'copy') or x[0] == 'call' and x[1] in WIDTH]
                    if p.end[0] != 'ret' or self.signed(p.end[1]) is None or self.signed(p.end[1]) >= 0 or after:
                        self.bad.setdefault('error', ('goes on after %s failed' % e[1], p))
                elif neg is None and not (p.end[0] == 'ret' and elin(p.end[1]) == elin(e[3])):
                    self.bad.setdefault('error', ('the result of %s is used without a test for failure' % e[1], p))
            p.gaps = dict(self.gaps)
            self.gaps = {}
            res.append((p, T, T_ok, nstores, widths))
        self.nw = nw
        return res

    def signed(self, v):
        if v is None or v[0] != 'c':
            return None
        return v[1] if v[1] < 1 << 63 else v[1] - (1 << 64)

    def negative(self, p, v):
        for a, t in p.facts.items():
            if a[0] == 'cmp':
                if a[1:] == ('slt', v, ('c', 0)):
                    return t
                if a[1:] == ('slt', ('c', -1), v):
                    return not t
                if a[1] == 'eq' and a[2] == v and a[3][0] == 'c' and self.signed(a[3]) == -1:
                    return t
                # the same on a truncated value
        return None

    def rooted(self, a):
        return any(x == self.s for x in walk(a) if x)

    def is_offset(self, p, k, ph):
        """the value of the loop is used as an offset into the buffer"""
        x = ('phi', ph)
        for q in self.paths:
            for e in q.events:
                ads = [e[1]] if e[0] in ('store', 'copy') else list(e[2][:2]) if e[0] == 'call' and isinstance(e[1], str) else []
                for a in ads:
                    o = offset(a, self.s)
                    if o is not None and o.t.get(x):
                        return True
        return False

    def accounting(self, res):
        """None or (message, path)"""
        groups = {}
        self.fullgaps = {}
        for p, T, ok, n, widths in res:
            key = (tuple(e[3] for e, k in widths), tuple(sorted(repr(a) for a in p.facts.items() if not self.about_size(a[0]))), p.end[0])
            groups.setdefault(key, []).append((p, T, ok, n))
        for key, g in groups.items():
            full = max(g, key=lambda x: x[3])
            p, T, ok, n = full
            for g1 in p.gaps:
                self.fullgaps.setdefault(g1, p)
            if p.end[0] == 'ret':
                v = self.signed(p.end[1])
                if v is not None and v < 0:
                    continue
                if not ok:
                    return ('what is printed is not printed right after what was printed before', p.lines())
                if elin(p.end[1]) != T:
                    return ('the length returned is not the length printed', p.lines())
                for q in g:
                    if elin(q[0].end[1]) != T:
                        return ('the length returned depends on the room there is', q[0].lines())
            elif p.end[0] == 'back':
                if not ok:
                    return ('what is printed is not printed right after what was printed before', p.lines())
                tp = getattr(p, 'Tphi', None)
                if tp is None:
                    if T.t or T.c:
                        if any(e[0] == 'loop' for e in p.events) and T != Lin(0):
                            pass
                    continue
                if tp in p.back:
                    for q in g:
                        if elin(q[0].back[tp]) != T:
                            return ('the length kept through the loop is not the length printed', q[0].lines())
        return None

    def about_size(self, a):
        return any(x == self.z for x in walk(a) if x)

def formats(fn, m, e):
    """(format string, values) of a snprintf event"""
    s = m.gstr(e[2][2])
    return s, e[2][3:]

CONV = re.compile(r'%(?:[-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t)?([diouxXcspfgeG%])')

def A07(c):
    m = lib_module()
    tt = TypeTable(m)
    sp = spec()
    c.rule('bounded', 'a detail string is never written beyond the buffer: every store and every size passed on stays within the size given', 60)
    c.rule('length', 'what is printed is contiguous, and the length returned is its full length whatever the size of the buffer', 60)
    c.rule('error', 'a failure to print is tested for and reported', 60)
    c.rule('absent', 'the ordinal of a part that may be absent is printed only where the part was found to be present', 15)
    c.rule('every-part', 'every part of a node is named by its ordinal in its detail string', 60)
    c.rule('sequence', 'a list of parts is printed with the length of that same list', 30)
    c.rule('label', 'no ordinal is printed under the name of another part', 20)
    c.rule('format', 'every conversion of a format has its argument, of its kind', 60)
    c.rule('regrow', 'a buffer that is too small is regrown to the length needed and printed into again', 2)
    c.rule('tree', 'printing a tree prints every node: the node itself, and each child, once', 2)
    base = m.structs.get('cypher_astnode')
    c.anchor(base, 'struct cypher_astnode')
    fo = {x['n']: x['o'] for x in base['m']}
    ctor_of = {}
    for name, d in sp['ctors'].items():
        ctor_of.setdefault(d['type'], []).append(name)
    done = {}
    for t in sorted(tt.types):
        d = tt.desc(tt.vt.get(t)) if tt.vt.get(t) else None
        if not d or not d.get('detailstr') or d['detailstr'][0] != 'g':
            continue
        fn = m.fn(d['detailstr'][1])
        if fn is None:
            continue
        done.setdefault(fn.name, (fn, []))[1].append(t)
    c.anchor(len(done) > 50, 'detail string functions')
    bufs = {}
    for n, (fn, ts) in sorted(done.items()):
        bufs[n] = printer(c, m, fn, STR, SIZE)
    sq = m.fn('snprint_sequence')
    if sq:
        sequence_fn(c, m, sq, fo)
    for n, (fn, ts) in sorted(done.items()):
        if bufs[n] is None:
            continue
        for t in ts:
            for cn in ctor_of.get(t, []):
                parts(c, m, fn, bufs[n], cn, sp, fo, t)
    regrow(c, m)
    tree(c, m, fo)

def printer(c, m, fn, s, z):
    try:
        b = Buf(m, fn, s, z)
        c.cover['paths'] += len(b.paths)
        res = b.scan()
    except Undecided as e:
        for r in ('bounded', 'length', 'error', 'format'):
            c.undecided(r, fn.where(), e)
        return None
    for r in ('bounded', 'error'):
        if r in b.und and r not in b.bad:
            c.undecided(r, fn.where(), b.und[r])
        else:
            x = b.bad.get(r)
            c.ob(r, fn.where(), x is None, key=fn.src + ':' + fn.file, msg=x and x[0], path=x and x[1].lines())
    acc = None
    # where a guard on the size failed the text before was not written: only the fullest path of each kind counts
    c.attempt('length', fn.where(), lambda: b.accounting(res), key=fn.file)
    for (d, what), p in sorted(b.fullgaps.items()):
        c.ob('length', fn.where(), False, key='%s:%s:%d' % (fn.file, what, d), msg='what is printed is %s' % (
            'begun %d characters after the end of what was printed before' % d if d > 0 else 'begun over the last %d characters printed before' % -d), path=p.lines())
    def fmt():
        seen = set()
        for p in b.paths:
            for e in p.events:
                if e[0] == 'call' and e[1] == 'snprintf' and e[3] not in seen:
                    seen.add(e[3])
                    f, vals = formats(fn, m, e)
                    if f is None:
                        raise Undecided('format not constant')
                    k = 0
                    tys = [a.get('ty') for a in []]
                    for mo in CONV.finditer(f):
                        if mo.group(4) == '%':
                            continue
                        k += (mo.group(1) == '*') + (mo.group(2) == '*') + 1
                    if k != len(vals):
                        return ('%d conversions in "%s" for %d values' % (k, f, len(vals)), p.lines())
                    k = 0
                    for mo in CONV.finditer(f):
                        if mo.group(4) == '%':
                            continue
                        k += (mo.group(1) == '*') + (mo.group(2) == '*')
                        v = vals[k]
                        k += 1
                        if mo.group(4) == 's' and p.null(v):
                            return ('NULL is printed as a string', p.lines())
        return None
    c.attempt('format', fn.where(), fmt, key=fn.file)
    return b

def ordinal_of(v, fo):
    """the node whose ordinal a value is"""
    if v[0] == 'ld':
        a = v[1]
        if a[0] == 'addr' and a[2] == fo['ordinal'] and not a[3]:
            return a[1]
    return None

def parts(c, m, fn, b, cn, sp, fo, t):
    ct, places = model(m, cn, sp)
    where = '%s (%s)' % (fn.where(), t)
    named = {}          # param -> [texts]
    for pn, d in sp['ctors'][cn]['params'].items():
        pl = places.get(pn)
        if d['kind'] == 'node':
            if not isinstance(pl, Place) or pl.kind != 'scalar':
                c.undecided('every-part', where + ' ' + pn, 'place of the part')
                continue
            X = mkaddr(('arg', 0), pl.off, ())
            hits, missing, nullbad = [], None, None
            for p in b.paths:
                got = False
                for k, e in enumerate(p.events):
                    if e[0] != 'call' or e[1] not in WIDTH:
                        continue
                    for j, v in enumerate(e[2]):
                        nd = ordinal_of(v, fo)
                        if nd is not None and nd[0] == 'ld' and nd[1] == X:
                            got = True
                            hits.append((p, e, j))
                            if d.get('optional'):
                                if p.null(nd) is not False and not (len(nd) > 2 and p.null(('ld', X)) is False):
                                    nullbad = (p, e)
                if p.end[0] == 'ret' and not got:
                    v = b.signed(p.end[1])
                    if v is not None and v < 0:
                        continue
                    absent = any(a[0] == 'cmp' and a[1] == 'eq' and a[3] == ('null',) and x and a[2][0] == 'ld' and a[2][1] == X for a, x in p.facts.items())
                    if not absent:
                        missing = p
            if d.get('optional'):
                c.ob('absent', where + ' ' + pn, nullbad is None, key='%s:%s' % (cn, pn),
                     msg='%s is printed without a test that it is present' % pn, path=nullbad and nullbad[0].lines())
            if not hits and not sp['ctors'][cn].get('unprinted'):
                # printed some other way?
                c.ob('every-part', where + ' ' + pn, False, key='%s:%s' % (cn, pn), msg='the part %s is not named in the detail string' % pn)
            else:
                c.ob('every-part', where + ' ' + pn, missing is None, key='%s:%s' % (cn, pn),
                     msg='the part %s is present but not named' % pn, path=missing and missing.lines())
            label(c, m, fn, where, cn, pn, hits, sp)
        elif d['kind'] in ('nodes', 'list'):
            if not isinstance(pl, Place):
                c.undecided('sequence', where + ' ' + pn, 'place of the list')
                continue
            sequences(c, m, fn, b, where, cn, pn, pl, places.get(d.get('count')), sp, fo)

def label(c, m, fn, where, cn, pn, hits, sp):
    """KEY=@%u : KEY is not the name of another part"""
    norm = lambda s: re.sub(r'[^a-z]', '', s.lower())
    others = {norm(x) for x in sp['ctors'][cn]['params'] if x != pn}
    for p, e, j in hits[:1]:
        if e[1] != 'snprintf':
            continue
        f = m.gstr(e[2][2])
        if f is None:
            continue
        k = 3
        txt = None
        for mo in CONV.finditer(f):
            if mo.group(4) == '%':
                continue
            if k == j:
                pre = f[:mo.start()]
                mm = re.search(r'([A-Za-z_ ]+)=@$', pre)
                txt = mm and norm(mm.group(1))
            k += 1
        if txt:
            c.ob('label', where + ' ' + pn, txt == norm(pn) or txt not in others, key='%s:%s' % (cn, pn),
                 msg='%s is printed under the name of another part' % pn)

def sequences(c, m, fn, b, where, cn, pn, pl, cpl, sp, fo):
    import fields
    if pl.kind == 'inline':
        A0 = mkaddr(('arg', 0), pl.off, ())
    else:
        A0 = None
    calls = []
    key = '%s:%s' % (cn, pn)
    inl, ptr = mkaddr(('arg', 0), pl.off, ()), ('ld', mkaddr(('arg', 0), pl.off, ()))
    strip = lambda e: e[:2] if e[0] == 'ld' else e
    for p in b.paths:
        for e in p.events:
            if e[0] == 'call' and e[1] == 'snprint_sequence':
                a = e[2][2]
                if a == inl or strip(a) == ptr:
                    calls.append((p, e))
    if not calls:
        try:
            if not isinstance(cpl, Place):
                raise Undecided('place of the length')
            d = sp['ctors'][cn]['params'][pn]
            n, bad = listed(b, fo, lambda x: x == inl and pl.kind == 'inline' or strip(x) == ptr, ('ld', mkaddr(('arg', 0), cpl.off, ())),
                            pl.stride, pl.start, d.get('mult', 1), d.get('plus', 0))
            if not n and d.get('unprinted'):
                return
            if not n and not any(l['op'] == 'load' and rooted_at(fn, l, pl) for bb in fn.blocks for l in bb):
                bad = ('the list %s is not printed' % pn, None)
            elif not n:
                raise Undecided('the list is not printed in a known way')
            c.ob('sequence', where + ' ' + pn, bad is None, key=key, msg=bad and bad[0], path=bad and bad[1])
        except Undecided as u:
            c.undecided('sequence', where + ' ' + pn, u)
        return
    bad = None
    for p, e in calls:
        n = e[2][3]
        l = elin(n)
        if isinstance(cpl, Place):
            C = mkaddr(('arg', 0), cpl.off, ())
            if not (n[0] == 'ld' and n[1] == C):
                bad = (p, e)
    c.ob('sequence', where + ' ' + pn, bad is None, key=key, msg='the list %s is printed with another length' % pn, path=bad and bad[0].lines())

def rooted_at(fn, i, pl):
    a = mkaddr(('arg', 0), pl.off, ())
    return any(x == a or x[:3] == a[:3] for x in walk(fn.expr(i['args'][0])) if isinstance(x, tuple) and x) or pl.kind == 'inline'

def counters(b):
    """counters from 0 by 1 of the same loop: {phi: the one that stands for them}"""
    start, step = {}, {}
    for p in b.paths:
        for e in p.events:
            if e[0] == 'loop':
                for h, v in e[2].items():
                    start.setdefault(h, set()).add((e[1], v))
        if p.end[0] == 'back':
            for h, v in p.back.items():
                step.setdefault(h, []).append(elin(v))
    cand = {}
    for h, v in start.items():
        if len(v) == 1 and next(iter(v))[1] == ('c', 0) and step.get(h):
            cand.setdefault(next(iter(v))[0], set()).add(h)
    out = {}
    for l, hs in cand.items():
        # all begin alike: those that go on alike are the same number
        while True:
            keep = {h for h in hs if all(any(v == Lin(1, {('phi', g): 1}) for g in hs) for v in step[h])}
            if keep == hs:
                break
            hs = keep
        for h in hs:
            out[('phi', h)] = ('phi', min(hs))
    return out

def listed(b, fo, isbase, N, size=8, first=0, mult=1, plus=0):
    """the ordinals of elements of a list, printed in a loop: (number of places, None | problem)
    The list has mult * N + plus elements, `size` bytes apart, the first `first` bytes behind isbase."""
    n = 0
    same = lambda x: strip_ld(x) == strip_ld(N)
    cs = counters(b)
    step = size // 8
    def lin(x):
        l = elin(x)
        out = Lin(l.c)
        for t, k in l.t.items():
            t = cs.get(t, t)
            out = out.add(Lin(0, {('N',) if same(t) else t: k}))
        return out
    def slot(v):
        """which of the 8 byte slots of the list, or None"""
        a = ordinal_of(v, fo)
        if a is None or a[0] != 'ld':
            return None
        ad = a[1]
        root = ad[1] if ad[0] == 'addr' else ad
        off, var = (ad[2], ad[3]) if ad[0] == 'addr' else (0, ())
        if isbase(root):
            rest = off
        else:
            rest = [r for r in sorted(range(-16, min(off, 64) + 1, 8), key=abs) if isbase(mkaddr(root, off - r, ()))]
            if not rest or not var and rest != [0]:
                return None
            rest = rest[0]
        if rest % 8:
            raise Undecided('element address')
        l = Lin(rest // 8)
        for x, k in var:
            if k % 8:
                raise Undecided('element address')
            l = l.add(lin(x).mul(k // 8))
        return l
    def lt(p, l):
        for y, x in p.facts.items():
            if y[0] != 'cmp':
                continue
            c, d = lin(y[2]), lin(y[3])
            if y[1] == 'ult' and c == l and d == Lin(0, {('N',): 1}):
                return x
            if y[1] == 'eq' and (c == l and d == Lin(0, {('N',): 1}) or d == l and c == Lin(0, {('N',): 1})):
                return not x
        return None
    want = None
    for p in b.paths:
        fin = p.end[0] == 'ret' and b.signed(p.end[1]) is None
        if p.end[0] != 'back' and not fin:
            continue
        by, rest, order, loop = {}, set(), [], False
        for e in p.events:
            if e[0] == 'loop':
                loop = True
            if e[0] != 'call' or e[1] not in WIDTH:
                continue
            for v in e[2]:
                l = slot(v)
                if l is None:
                    continue
                ph = [t for t in l.t if t[0] == 'phi']
                if any(t[0] not in ('phi', 'N') for t in l.t) or len(ph) > 1 or ph and ('N',) in l.t:
                    raise Undecided('element index')
                if not ph:
                    rest.add((l.t.get(('N',), 0), l.c))
                    if loop and p.end[0] == 'back' and not plus and not l.t:
                        order.append(None)
                    continue
                if ph[0] not in cs:
                    ent = [x[2].get(ph[0][1]) for x in p.events if x[0] == 'loop' and ph[0][1] in x[2]]
                    if len(ent) == 1 and ent[0][0] == 'c' and ent[0] != ('c', 0) and l == Lin(0, {ph[0]: 1}) and step == 1:
                        return n + 1, ('does not start at the first element', p.lines())
                    if p.end[0] == 'back' and ent == [('c', 0)] and l == Lin(0, {ph[0]: 1}) and ph[0][1] in p.back and (elin(p.back[ph[0][1]]).add(Lin(1, {ph[0]: 1}), -1).const() or 0) > 0:
                        return n + 1, ('skips elements', p.lines())
                    raise Undecided('element index')
                by.setdefault(cs[ph[0]], set()).add((l.t[ph[0]], l.c))
                order.append(l.c)
        need = {(step * mult, first // 8 + step * k) for k in range(mult)}
        if order and set(order) == {None}:
            return n + 1, ('the same element is printed again and again', p.lines())
        if len(by) == 1 and None not in order and order != sorted(order):
            return n + 1, ('the elements are printed in another order', p.lines())
        for ph, got in by.items():
            n += 1
            got = {x for x in got if x[1] % step == first // 8 % step} if step > 1 else got
            if got and not got >= need:
                return n, ('does not print the elements one after the other', p.lines())
            nxt = Lin(1, {ph: 1})
            if p.end[0] == 'back' and ph[1] in p.back:
                if lt(p, nxt) is not True and lt(p, Lin(0, {ph: 1})) is not True:
                    raise Undecided('bound of the loop')
            elif fin:
                if lt(p, nxt) is None:
                    raise Undecided('end of the loop')
                if lt(p, nxt) is True:
                    return n, ('ends before the last element', p.lines())
        if fin and plus:
            n += 1
            for k in range(plus):
                if (mult * step, first // 8 + k) not in rest:
                    if any(a[0] == 'cmp' and a[1] == 'eq' and x and lin(a[2]) == Lin(0, {('N',): 1}) and a[3] == ('c', 0) for a, x in p.facts.items()) and (0, first // 8 + k) in rest:
                        continue
                    if any(x[0] not in (0, mult * step) for x in rest):
                        raise Undecided('element index')
                    return n, ('the last element is not printed', p.lines())
    return n, None

def sequence_fn(c, m, fn, fo):
    b = printer(c, m, fn, ('arg', 0), ('arg', 1))
    if b is None:
        return
    def run():
        n, bad = listed(b, fo, lambda base: base == ('arg', 2), ('arg', 3))
        if bad:
            return bad
        if not n:
            raise Undecided('no element printed')
        return None
    c.attempt('sequence', fn.where(), run, key=fn.name)

def regrow(c, m):
    for n, call in (('snprintf_realloc', 'vsnprintf'), ('cypher_astnode_detailstr_realloc', 'cypher_astnode_detailstr')):
        fn = m.fn(n)
        if fn is None:
            continue
        def run():
            k = 0
            nb = 0
            for p in effects(fn):
                ws = [e for e in p.calls(call)]
                bufp, capp = (('arg', 0), ('arg', 1)) if call == 'vsnprintf' else (('arg', 1), ('arg', 2))
                ib, iz = (0, 1) if call == 'vsnprintf' else (1, 2)
                if p.end[0] != 'ret':
                    continue
                st = p.stores()
                re = p.calls('realloc', 'malloc')
                for e in ws:
                    e2 = e[2]
                if not ws:
                    return ('nothing is printed', p.lines())
                first = ws[0]
                if strip_ld(first[2][ib]) != ('ld', bufp) or strip_ld(first[2][iz]) != ('ld', capp):
                    return ('is not printed into the buffer with its capacity', p.lines())
                v = p.end[1]
                neg = v[0] == 'c' and (v[1] < 0 or v[1] >= 1 << 31)
                if neg:
                    if any(a in (bufp, capp) for a in st) and len(ws) < 2:
                        return ('fails after a change of the buffer', p.lines())
                    continue
                if not re:
                    w = first[3]
                    ok = any(a[0] == 'cmp' and a[1] == 'ult' and unext(a[2]) == w and strip_ld(a[3])[:2] == ('ld', capp) and t for a, t in p.facts.items())
                    if not ok:
                        return ('returns without knowing that everything fitted, including the terminating NUL', p.lines())
                    if v != w:
                        return ('does not return the length printed', p.lines())
                    k += 1
                    continue
                nb += 1
                sz = elin(re[0][2][-1])
                need = elin(first[3]).add(Lin(1))
                if sz != need and not nonneg(sz.add(need, -1)):
                    return ('the buffer is regrown to less than is needed', p.lines())
                if st.get(bufp) != re[0][3]:
                    return ('the regrown buffer is not kept', p.lines())
                if elin(st.get(capp, ('c', 0))) != sz:
                    return ('the capacity kept is not that of the regrown buffer', p.lines())
                if len(ws) < 2 or ws[-1][2][ib] != re[0][3] or elin(ws[-1][2][iz]) != sz:
                    return ('is not printed again into the regrown buffer', p.lines())
                if v not in (ws[-1][3], first[3]) and not (v[0] == 'smax' and (ws[-1][3] in v[1:] or first[3] in v[1:])):
                    return ('does not return the length printed', p.lines())
            if not k or not nb:
                raise Undecided('no regrowth found')
            return None
        c.attempt('regrow', fn.where(), run, key=n)

def strip_ld(e):
    return e[:2] if e and e[0] == 'ld' else e

def unext(e):
    return e

def tree(c, m, fo):
    """recursive printing covers each child once"""
    for fn in list(m.fns()):
        rec = [i for i in fn.calls(fn.name)]
        if not rec or not any(i.get('callee') in ('fprintf', 'fputs') for i in fn.all('call')):
            continue
        def run():
            n = 0
            for p in effects(fn):
                if p.end[0] == 'ret':
                    v = p.end[1]
                    if v and v[0] == 'c' and (v[1] < 0 or v[1] >= 1 << 31):
                        continue
                for e in p.calls(fn.name):
                    n += 1
            if not n:
                raise Undecided('no recursion')
            return children_loop(fn, fn.name, fo)
        c.attempt('tree', fn.where(), run, key=fn.name)

def children_loop(fn, callee, fo):
    """the calls of callee are made once for each child of the first argument"""
    from ir import exec_count, counter
    ps = effects(fn)
    for p in ps:
        for e in p.events:
            if e[0] == 'call' and e[1] == callee:
                ch = e[2][0]
                if ch[0] == 'call':
                    if ch[1] != 'cypher_astnode_get_child':
                        raise Undecided('child')
                    src = [x for x in p.events if x[0] == 'call' and x[3] == ch]
                    if src[0][2][0] != ('arg', 0):
                        return ('a node that is not a child is printed', p.lines())
                    ix = src[0][2][1]
                elif ch[0] == 'ld' and ch[1][0] == 'addr' and len(ch[1][3]) == 1:
                    ix = ch[1][3][0][0]
                else:
                    raise Undecided('child')
                if ix[0] != 'phi':
                    raise Undecided('index')
                ent = [x[2].get(ix[1]) for x in p.events if x[0] == 'loop' and ix[1] in x[2]]
                if ent != [('c', 0)]:
                    return ('does not start at the first child', p.lines())
                if p.end[0] == 'back' and ix[1] in p.back and elin(p.back[ix[1]]) != Lin(1, {ix: 1}):
                    return ('skips children', p.lines())
    # leaving: index not below the number of children
    for p in ps:
        if p.end[0] != 'ret' or p.end[1] is None or p.end[1] != ('c', 0):
            continue
        loops = [x for x in p.events if x[0] == 'loop']
        if not loops:
            continue
        def is_n(x):
            return x[0] == 'call' and x[1] == 'cypher_astnode_nchildren' or x[0] == 'ld' and x[1][0] == 'addr' and x[1][2] == fo['nchildren']
        ok = False
        for a, t in p.facts.items():
            if a[0] == 'cmp':
                if a[1] == 'ult' and not t and is_n(a[3]) or a[1] == 'ult' and not t and a[2] == ('c', 0) and is_n(a[3]):
                    ok = True
                if a[1] == 'eq' and t and (is_n(a[2]) or is_n(a[3])):
                    ok = True
        if not ok:
            return ('ends before the last child', p.lines())
    return None

PROPS = {'A07': A07}
