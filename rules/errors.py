"""What is recorded of a syntax error: E01."""
from ir import *
from astmodel import lib_module, KEEP
from pathkit import *
from positions import bare, last, posf, KEEP_P
import positions

KEEP_E = tuple(list(KEEP_P) + ['error_report', 'chardesc'])

class Et:
    def __init__(self, m, base=('arg', 0)):
        self.m, self.b = m, base
        self.pos = self.o('last_position')
    def o(self, f):
        x = self.m.field('cp_error_tracking', f)
        if x is None:
            raise Undecided('error tracking has no member ' + f)
        return x['o']
    def at(self, f, more=0):
        return mkaddr(self.b, self.o(f) + more, ())
    def ld(self, f, more=0):
        return ('ld', self.at(f, more))

def lin(K, e):
    """linear form without versions of loads"""
    l = K.lin(e)
    out = Lin(l.c)
    for a, c in l.t.items():
        out = out.add(Lin(0, {bare(a): c}))
    return out

def nrm(K, l):
    out = Lin(l.c)
    for a, c in l.t.items():
        if c:
            out = out.add(bl(K.lin(a)).mul(c))
    return out

def known(K, pr, a, b):
    a, b = nrm(K, a), nrm(K, b)
    x, y = a.const(), b.const()
    if x is not None and y is not None:
        M = (1 << 64) - 1
        return x == y if pr == 'eq' else x & M < y & M
    if pr == 'ult' and y == 0:
        return False
    v = positions.known(K, pr, a, b)
    if v is None and pr == 'ult' and x == 0:
        e = positions.known(K, 'eq', b, Lin(0))
        v = None if e is None else not e
    if v is None and pr == 'ult' and positions.known(K, 'ult', b, a):
        v = False
    if v is None and pr == 'ult' and positions.known(K, 'eq', a, b):
        v = False
    return v

class Bare:
    """the path with loads without versions (used where nothing read changes underneath)"""
    def __init__(self, p):
        self.facts = {}
        for a, v in p.facts.items():
            self.facts.setdefault(bare(a), v)

def note(C, m):
    X = Fun(C, m, 'cp_et_note_potential_error')
    T = Et(m)
    A2, A3, A4 = ('arg', 2), ('arg', 3), ('arg', 4)
    A1 = ('arg', 1)
    if len(X.fn.params) != 5:
        raise Undecided('parameters of cp_et_note_potential_error')
    off = T.at('last_position', posf(m, 'offset'))
    L = lambda e: Lin(0, {e: 1})
    lo, nl, ne, le = (L(('ld', off)), L(T.ld('nlabels')), L(T.ld('nerrors')), L(T.ld('last_error_offset')))
    pos = L(A2)
    n = 0
    sweeps = {}
    for p in X.paths:
        if p.end[0] not in ('ret', 'back'):
            continue
        # what was known when the function began
        K = Knows(Bare0(p))
        none = known(K, 'eq', nl, Lin(0))
        none = (not known(K, 'ult', Lin(0), nl)) if none is None and known(K, 'ult', Lin(0), nl) is not None else none
        before = known(K, 'ult', pos, lo)
        beyond = known(K, 'ult', lo, pos)
        err = known(K, 'eq', ne, Lin(0))
        if err is None and known(K, 'ult', Lin(0), ne) is not None:
            err = not known(K, 'ult', Lin(0), ne)
        past = known(K, 'ult', le, pos)
        if past is None and err is not True and known(K, 'ult', pos, le):
            past = False
        old = before is True or (err is False and past is False)
        fresh = none is True or beyond is True
        alive = before is False or beyond is True
        newer = err is True or past is True
        st = [e for e in p.events if e[0] in ('store', 'copy', 'zero') and root(e[1])[0] != 'alloca']
        n += 1
        app = [e for e in st if e[0] == 'store' and e[1] == T.at('nlabels') and not (K.n(e[2]) == ('c', 0))]
        if old:
            X.ob('note', 'old', not st, 'an expectation before the furthest place reached, or at or before the last error, is recorded', p)
            continue
        # the label was there already
        dup = [e for e in p.calls('strcmp', 'strncmp') if A4 in e[2] and p.facts.get(('cmp', 'eq', e[3], ('c', 0)))]
        dup += [f for f, v in p.facts.items() if v and f[0] == 'cmp' and f[1] == 'eq' and A4 in f[2:] and 'null' not in (f[2][0], f[3][0])]
        fail = [e for e in p.calls('realloc', 'malloc', 'calloc') if p.null(e[3])]
        if st and not app and not fail and not dup and p.end[0] == 'ret':
            X.ob('note', 'kept', False, 'an expectation is not recorded', p)
            continue
        if not st and p.end[0] == 'ret' and not dup and not fail:
            X.ob('note', 'ignored', False, 'an expectation at the furthest place reached, after the last error, is not recorded', p)
            continue
        if st or app:
            X.ob('note', 'before', alive, 'an expectation is recorded without regard to the furthest place reached', p)
            X.ob('note', 'last', newer, 'an expectation is recorded without regard to the last error', p)
        reset = last(p, T.at('nlabels')) is not None and any(K.n(e[2]) == ('c', 0) for e in p.events if e[0] == 'store' and e[1] == T.at('nlabels'))
        pw = last(p, off)
        if fresh and p.end[0] == 'ret' or p.end[0] == 'back' and fresh:
            X.ob('note', 'place', last(p, T.at('last_position')) is not None and last(p, T.at('last_position')) == A1 and pw == A2, 'the place of the first expectation is not kept', p)
            X.ob('note', 'char', last(p, T.at('last_char'), 'i8') == A3, 'the character at the place is not kept', p)
            if not none:
                X.ob('note', 'restart', reset or any(K.n(lin0(e[2])) == ('c', 1) for e in app), 'the expectations of an earlier place are not dropped', p)
        elif not fresh:
            for f, o in (('last_position', 0), ('last_position', posf(m, 'offset')), ('last_char', 0)):
                v = last(p, T.at(f, o))
                same = v is None or bare(v) == T.ld(f, o) or v in (A1, A2, A3)
                X.ob('note', 'stays', same, 'the place is changed', p)
            if none is False and beyond is False:
                X.ob('note', 'list', not reset, 'expectations noted at the same place are dropped', p)
        if dup:
            X.ob('note', 'twice', not app and p.end[0] == 'ret', 'an expectation already noted is appended again', p)
            X.ob('note', 'twice:ok', K.same(p.end[1], ('c', 0)) if p.end[0] == 'ret' else True, 'fails for an expectation already noted', p)
            continue
        if fail:
            X.ob('note', 'memory', p.end[0] == 'ret' and not K.same(p.end[1], ('c', 0)) and not app, 'does not fail although there is no room', p)
            continue
        if p.end[0] == 'ret':
            if not app:
                continue
            X.ob('note', 'ok', K.same(p.end[1], ('c', 0)), 'fails although the expectation was recorded', p)
            # the element written and the count
            lab = [e for e in st if e[0] == 'store' and e[2] == A4]
            if not lab:
                X.ob('note', 'label', False, 'the label is not recorded', p)
                continue
            k = p.events.index(lab[-1])
            base_, ix = element(K, lab[-1][1], 8)
            if ix is None:
                raise Undecided('where the label is stored')
            cnt = K.lin(last(p, T.at('nlabels')))
            start = Lin(0) if fresh else nl
            okix = nrm(K, bl(ix)) == nrm(K, start)
            X.ob('note', 'append', okix, 'the label is not put after those noted before', p)
            want = bl(ix).add(Lin(1))
            X.ob('note', 'count', nrm(K, bl(cnt)) == nrm(K, want), 'the number of labels is not one more', p)
            cur = last(p, T.at('labels'))
            arr = cur if cur is not None else T.ld('labels')
            X.ob('note', 'array', bare(base_) == bare(arr), 'the label is not put into the list of labels', p)
            # room
            cap = last(p, T.at('labels_capacity'))
            al = p.calls('realloc', 'malloc', 'calloc')
            if al and cap is not None:
                e = al[-1]
                size = K.lin(e[2][-1]) if e[1] != 'calloc' else None
                if size is not None:
                    X.ob('note', 'room', size == K.lin(cap).mul(8), 'the room made is not that of the capacity recorded', p)
                X.ob('note', 'grow', grows(K, cap, T.ld('labels_capacity')), 'the capacity does not grow', p)
            elif not al:
                b = bl(ix)
                full = known(K, 'ult', b, L(T.ld('labels_capacity')))
                if full is None and b.const() == 0:
                    z = known(K, 'eq', L(T.ld('labels_capacity')), Lin(0))
                    full = None if z is None else not z
                if full is None and known(K, 'eq', b, L(T.ld('labels_capacity'))) is False:
                    full = True        # there never are more than the capacity
                X.ob('note', 'full', full is True, 'a label is appended without room for it', p)
    if not n:
        raise Undecided('paths of cp_et_note_potential_error')
    search(C, m, X, T, nl)

class Bare0:
    def __init__(self, p):
        self.facts = {bare(a) if not versioned(a) else a: v for a, v in p.facts.items()}

def versioned(e):
    if not isinstance(e, tuple):
        return False
    if e and e[0] == 'ld' and len(e) > 2:
        return True
    return any(versioned(x) for x in e)

def bl(l):
    out = Lin(l.c)
    for a, c in l.t.items():
        out = out.add(Lin(0, {bare(a): c}))
    return out

def lin0(e):
    return e

def element(K, a, size):
    """base and index of an array element"""
    if a[0] != 'addr':
        return a, Lin(0)
    if not a[3] and a[2] == 0:
        return a[1], Lin(0)
    t = Lin(a[2])
    for v, s in a[3]:
        t = t.add(K.lin(v).mul(s))
    if t.c % size or any(c % size for c in t.t.values()):
        return a[1], None
    return a[1], Lin(t.c // size, {x: c // size for x, c in t.t.items() if c})

def grows(K, cap, old):
    c = K.lin(cap)
    k = c.const()
    if k is not None:
        return k > 0
    t = {bare(a): x for a, x in c.t.items() if x}
    if set(t) == {old}:
        return t[old] >= 2 or t[old] == 1 and c.c > 0
    return True

def search(C, m, X, T, nl):
    """the search for the label covers all labels noted"""
    heads = {}
    for p in X.paths:
        K = Knows(Bare0(p))
        for e in p.events:
            if e[0] == 'loop':
                for h, v in e[2].items():
                    heads.setdefault((e[1], h), set()).add(str(bl(K.lin(v))))
    done = 0
    for p in X.paths:
        cs = [e for e in p.calls('strcmp') if ('arg', 4) in e[2]]
        if p.end[0] != 'back' or not cs:
            continue
        K = Knows(Bare0(p))
        o = [a for a in cs[-1][2] if a != ('arg', 4)]
        if len(o) != 1 or o[0][0] != 'ld':
            raise Undecided('what labels are compared with')
        b, ix = element(K, o[0][1], 8)
        ph = [a for a, c in ix.t.items() if a[0] == 'phi' and c == 1] if ix is not None else []
        if len(ph) != 1 or ph[0][1] not in p.back:
            raise Undecided('the order in which labels are compared')
        d = K.lin(p.back[ph[0][1]]).add(Lin(0, {ph[0]: 1}), -1).const()
        ini = heads.get((p.end[1][0] if isinstance(p.end[1], tuple) else p.end[1], ph[0][1]), set())
        if d not in (1, -1) or ix.add(Lin(0, {ph[0]: 1}), -1).const() is None:
            raise Undecided('the order in which labels are compared')
        delta = ix.add(Lin(0, {ph[0]: 1}), -1).const()
        done += 1
        nls = str(nl)
        if d == -1:
            X.ob('note', 'search:first', delta == -1 and ini <= {nls, '0'} and nls in ini, 'the search does not begin with the last label noted', p)
        else:
            X.ob('note', 'search:first', delta == 0 and ini == {'0'}, 'the search does not begin with the first label noted', p)
        for q in X.paths:
            if q.end[0] != 'ret' or not any(e[0] == 'loop' and ph[0][1] in e[2] for e in q.events) or q.calls('strcmp'):
                continue
            KQ = Knows(Bare0(q))
            v = Lin(0, {ph[0]: 1})
            if d == -1:
                ok = known(KQ, 'eq', v, Lin(0)) is True or KQ.lin(('phi', ph[0][1])).const() == 0
            else:
                cnts = [nl, Lin(0)]
                ok = any(known(KQ, 'ult', v, c) is False or known(KQ, 'eq', v, c) is True for c in cnts) or known(KQ, 'eq', nl, Lin(0)) is True
            X.ob('note', 'search:all', ok, 'the search ends before all labels noted were compared', q)
    if done:
        return
    L = ('arg', 4)
    for p in X.paths:
        if p.end[0] != 'back':
            continue
        part = [e for e in p.calls('strncmp') if L in e[2] and any(is_len(p, e[2][2], a) for a in e[2][:2])]
        if part:
            X.ob('note', 'search:part', False, 'labels are taken to be the same when one begins with the other', p)
            return
        same = [a for a, v in p.facts.items() if a[0] == 'cmp' and a[1] == 'eq' and L in a[2:] and v is False and any(x[0] == 'ld' for x in a[2:])]
        if same and not any(L in e[2] for e in p.events if e[0] == 'call'):
            X.ob('note', 'search:address', False, 'labels are compared by address and not by what they say', p)
            return
    raise Undecided('the search for labels')

def is_len(p, n, a):
    return any(e[3] == n and e[2][0] == a for e in p.calls('strlen'))

def reify(C, m):
    X = Fun(C, m, 'cp_et_reify_potentials')
    T = Et(m)
    L = lambda e: Lin(0, {e: 1})
    E = m.structs['cypher_parse_error']
    fo = {x['n']: x['o'] for x in E['m']}
    size = m.structs['cypher_parse_error@size'] if 'cypher_parse_error@size' in m.structs else None
    A0 = ('arg', 0)
    nl, ne = L(T.ld('nlabels')), L(T.ld('nerrors'))
    n = 0
    for p in X.paths:
        if p.end[0] != 'ret':
            continue
        K = Knows(Bare(p))
        none = known(K, 'eq', nl, Lin(0))
        if none is None and known(K, 'ult', Lin(0), nl) is not None:
            none = not known(K, 'ult', Lin(0), nl)
        n += 1
        st = [e for e in p.events if e[0] in ('store', 'copy', 'zero') and root(e[1])[0] != 'alloca']
        rep = p.calls('error_report')
        cnt = last(p, T.at('nerrors'))
        if none:
            X.ob('record', 'none', not st and K.same(p.end[1], ('c', 0)), 'an error is recorded although nothing was noted', p)
            continue
        fail = [e for e in p.calls('realloc', 'malloc', 'calloc') if p.null(e[3])] + [e for e in rep if p.null(e[3])]
        if fail:
            X.ob('record', 'memory', not K.same(p.end[1], ('c', 0)) and (cnt is None or bare(cnt) == T.ld('nerrors')), 'does not fail although memory is short', p)
            continue
        if not rep and not p.calls():
            X.ob('record', 'missing', none is None and False, 'what was noted does not become an error', p)
            continue
        if len(rep) != 1:
            raise Undecided('how cp_et_reify_potentials makes the message')
        X.ob('record', 'checked', p.null(rep[0][3]) is False, 'the message may be missing', p)
        X.ob('record', 'ok', K.same(p.end[1], ('c', 0)), 'fails although the error was recorded', p)
        X.ob('record', 'count', cnt is not None and nrm(K, bl(K.lin(cnt))) == nrm(K, ne.add(Lin(1))), 'the number of errors is not one more', p)
        # the members of the new error: its address is that of the element stored the message in
        ms = [e for e in st if e[0] == 'store' and e[2] == rep[0][3]]
        if not ms:
            # a struct assembled and copied
            raise Undecided('how the error is filled')
        k = p.events.index(ms[-1])
        a = mkaddr(ms[-1][1], -fo['msg'], ())
        ab, ix = element(K, a, 40 if size is None else size)
        if ix is None:
            raise Undecided('where the error is put')
        arr = last(p, T.at('errors'), upto=k)
        arr = arr if arr is not None else T.ld('errors')
        X.ob('record', 'append', nrm(K, bl(ix)) == nrm(K, ne), 'the error is not put after the errors recorded before', p)
        X.ob('record', 'array', bare(ab) in (bare(arr), T.ld('errors')), 'the error is not put into the list of errors', p)
        w = lambda o, ty='i64': last(p, mkaddr(a, o, ()), ty)
        for o in (0, 8):
            v = w(fo['position'] + o)
            if o == 0 and v is None:
                v = w(fo['position'] + posf(m, 'line'), 'i32')
            X.ob('record', 'position', v is not None and bare(v) == ('ld', T.at('last_position', o)), 'the position of the error is not the place of what was noted', p)
        for f in ('context', 'context_offset'):
            v = w(fo[f])
            X.ob('record', 'clear', v is not None and (v == ('null',) or K.same(v, ('c', 0))), '%s of the error is not cleared' % f, p)
        v = last(p, T.at('last_error_offset'))
        X.ob('record', 'last', v is not None and bare(v) == ('ld', T.at('last_position', posf(m, 'offset'))), 'the place of the last error is not kept', p)
        v = last(p, T.at('nlabels'))
        X.ob('record', 'noted', v is not None and K.same(v, ('c', 0)), 'what was noted remains after it has become an error', p)
        # room
        al = [e for e in p.calls('realloc', 'malloc', 'calloc')]
        cap = last(p, T.at('errors_capacity'))
        sz = 40 if size is None else size
        if al and cap is not None:
            X.ob('record', 'room', al[-1][1] == 'calloc' or K.lin(al[-1][2][-1]) == K.lin(cap).mul(sz), 'the room made is not that of the capacity recorded', p)
            X.ob('record', 'grow', grows(K, cap, T.ld('errors_capacity')), 'the capacity does not grow', p)
        elif not al:
            X.ob('record', 'full', known(K, 'ult', ne, L(T.ld('errors_capacity'))) is True or known(K, 'eq', ne, L(T.ld('errors_capacity'))) is False, 'an error is appended without room for it', p)
        # the message begins with the character found
        args = rep[0][2]
        fmt = [m.gstr(x) for x in args if x[0] == 'g']
        fmt = [x for x in fmt if x and '%' in x]
        cd = p.calls('chardesc')
        if len(fmt) != 1 or len(cd) != 1:
            raise Undecided('the beginning of the message')
        X.ob('record', 'message', fmt[0].replace('%s', '') == 'Invalid input : ' and args.count(cd[0][3]) == 1, 'the message does not begin with "Invalid input" and the character found', p)
        X.ob('record', 'char', any(bare(x) == T.ld('last_char') for x in cd[0][2]), 'the character named is not the one at the place', p)
        i = fmt[0].split('%s')
        va = args[[j for j, x in enumerate(args) if x[0] == 'g' and m.gstr(x) == fmt[0]][0] + 1:]
        if len(i) - 1 != len(va):
            X.ob('record', 'arguments', False, 'the arguments of the message do not match its format', p)
            continue
        # text in front of each argument
        j = va.index(cd[0][3]) if cd[0][3] in va else None
        if j is not None:
            X.ob('record', 'order', ''.join(i[:j + 1]) == 'Invalid input ' and ''.join(i[j + 1:]) == ': ', 'the character is not named after "Invalid input"', p)
            cols = [bare(x) for x in va]
            def color(x):
                if x[0] == 'ld' and x[1][0] in ('addr', 'ld'):
                    b, o = (x[1][1], x[1][2]) if x[1][0] == 'addr' else (x[1], 0)
                    if b == T.ld('colorization'):
                        for f in m.structs['cypher_parser_colorization']['m']:
                            if f['o'] <= o < f['o'] + 16:
                                return f['n'], (o - f['o']) // 8
                return None
            got = [color(x) for x in cols]
            want = [('error', 0), ('error', 1), ('error_token', 0), None, ('error_token', 1)]
            if len(got) == 5:
                X.ob('record', 'color', got == want, 'the message is not coloured as configured (error, error_token)', p)
    if not n:
        raise Undecided('paths of cp_et_reify_potentials')

def extract(C, m):
    """the errors recorded are handed over as they are, and none remain"""
    X = Fun(C, m, 'cp_et_extract_errors')
    T = Et(m)
    for p in X.paths:
        if p.end[0] != 'ret':
            continue
        K = Knows(p)
        v = last(p, ('arg', 1), 'i32')
        X.ob('record', 'extract', bare(p.end[1]) == T.ld('errors'), 'does not return the errors recorded', p)
        X.ob('record', 'extract:count', v is not None and bare(v) == T.ld('nerrors'), 'the number given is not that of the errors recorded', p)
        for f in ('errors', 'nerrors', 'errors_capacity'):
            v = last(p, T.at(f))
            X.ob('record', 'extract:' + f, v is not None and (v == ('null',) or K.same(v, ('c', 0))), 'errors remain after they were handed over', p)

CHARS = {7: "'\\a'", 8: "'\\b'", 12: "'\\f'", 10: "'\\n'", 13: "'\\r'", 9: "'\\t'", 11: "'\\v'", 39: "'\\''", 0: 'at end of input'}

def char(C, m):
    X = Fun(C, m, 'chardesc')
    A0, A2 = ('arg', 0), ('arg', 2)
    seen = set()
    n = 0
    for p in X.paths:
        if p.end[0] != 'ret':
            continue
        v = p.end[1]
        K = Knows(p)
        is_ = [f[3][1] for f, t in p.facts.items() if t and f[0] == 'cmp' and f[1] == 'eq' and f[2] == A2 and f[3][0] == 'c']
        n += 1
        if v[0] == 'g':
            s = m.gstr(v)
            if len(is_) != 1 or s is None:
                raise Undecided('what chardesc returns')
            seen.add(is_[0])
            X.ob('char', 'text', CHARS.get(is_[0], "'%s'" % chr(is_[0] & 255)) == s, 'the character %r is named %s' % (chr(is_[0] & 255), s), p)
        elif v == A0:
            w = [last(p, mkaddr(A0, o, ()), 'i8') for o in range(4)]
            if None in w:
                raise Undecided('what chardesc writes')
            c = ('c', is_[0]) if is_ else A2
            not_ = {f[3][1] for f, t in p.facts.items() if not t and f[0] == 'cmp' and f[1] == 'eq' and f[2] == A2 and f[3][0] == 'c'}
            if is_:
                X.ob('char', 'text', is_[0] not in CHARS, 'the character %r is not named as %s' % (chr(is_[0] & 255), CHARS.get(is_[0])), p)
                seen.add(is_[0])
            else:
                miss = sorted(set(CHARS) - not_)
                if miss and any(f[1] != 'eq' for f in p.facts if f[0] == 'cmp'):
                    raise Undecided('the cases of chardesc')
                X.ob('char', 'special', not miss, 'the characters %s are not named by their escape sequence' % miss, p)
            X.ob('char', 'quoted', K.same(w[0], ('c', 39)) and K.same(w[1], c) and K.same(w[2], ('c', 39)) and K.same(w[3], ('c', 0)), 'the character is not given in quotes', p)
        else:
            raise Undecided('what chardesc returns')
    if not n:
        raise Undecided('paths of chardesc')

def bk_(p):
    return p.end[1][0] if isinstance(p.end[1], tuple) else p.end[1]

def ev(K, e, env):
    """linear form under an assignment of the loop variables and of the number of labels"""
    l = K.lin(e)
    out = Lin(l.c)
    for a, c in l.t.items():
        if not c:
            continue
        x = bare(a)
        y = atom(K, x, env)
        out = out.add(y.mul(c))
    return out

def atom(K, x, env):
    if x in env:
        return env[x]
    if x[0] == 'addr':
        return at(K, x, env)
    if x[0] == 'call' and x[1] == 'strlen':
        return Lin(0, {('strlen', place(K, x[2] if len(x) > 2 else None, env)): 1})
    if x[0] in ('zext', 'sext', 'trunc') and len(x) > 1 and isinstance(x[1], tuple):
        return ev(K, x[1], env)
    if x[0] == 'select':
        t = fact(K, x[1], env)
        if t is None:
            raise Undecided('a choice in the message')
        return ev(K, x[2] if t else x[3], env)
    return Lin(0, {x: 1})

def place(K, x, env):
    """a name of the text at x: label i, a colour, or a constant"""
    x = bare(x)
    if x[0] == 'ld' and x[1][0] in ('addr', 'ld') and 'labels' in env:
        b, o = (x[1][1], x[1]) if x[1][0] == 'addr' else (x[1], None)
        if b == env['labels']:
            t = Lin(0) if o is None else Lin(o[2])
            for v, s in (o[3] if o else ()):
                t = t.add(ev(K, v, env).mul(s))
            if t.const() is None or t.const() % 8:
                raise Undecided('which label the message takes')
            return ('label', t.const() // 8)
        if b == env['colorization']:
            k = (o[2] if o else 0)
            for f in env['colors']:
                if f['o'] <= k < f['o'] + 16:
                    return ('color', f['n'], (k - f['o']) // 8)
    return x

def fact(K, f, env):
    if f[0] == 'bool':
        return fact(K, f[1], env)
    if f[0] in ('and', 'or') and len(f) == 3:
        a, b = fact(K, f[1], env), fact(K, f[2], env)
        if f[0] == 'and':
            return False if a is False or b is False else True if a and b else None
        return True if a or b else False if a is False and b is False else None
    if f[0] == 'c':
        return bool(f[1] & 1)
    if f[0] != 'cmp' or 'null' in (f[2][0], f[3][0]):
        return None
    d = ev(K, f[2], env).add(ev(K, f[3], env), -1).const()
    a, b = ev(K, f[2], env).const(), ev(K, f[3], env).const()
    if f[1] in ('eq', 'ne'):
        return None if d is None else (d == 0) == (f[1] == 'eq')
    if a is None or b is None:
        d = ev(K, f[3], env).add(ev(K, f[2], env), -1)      # lengths are not negative and do not overflow
        up = all(c >= 0 for c in d.t.values()) and all(lenlike(x) for x in d.t)
        dn = all(c <= 0 for c in d.t.values()) and all(lenlike(x) for x in d.t)
        lt = True if up and d.c > 0 else False if dn and d.c <= 0 else None
        le = True if up and d.c >= 0 else False if dn and d.c < 0 else None
        return {'lt': lt, 'ge': None if lt is None else not lt, 'le': le, 'gt': None if le is None else not le}[f[1][1:]]
    M = (1 << 64) - 1
    if f[1][0] == 'u':
        a, b = a & M, b & M
    return {'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b}[f[1][1:]]

def lenlike(x):
    return x[0] == 'strlen' or x[0] == 'call' and x[1] in ('strlen', 'vsnprintf', 'snprintf')

class Flat:
    """a path seen without its facts about values (they are evaluated instead)"""
    facts = {}

def report(C, m):
    """error_report: the text and the room for it, for 0 to 5 labels"""
    X = Fun(C, m, 'error_report')
    T = Et(m)
    K = Knows(Flat)
    col = m.structs['cypher_parser_colorization']['m']
    for N in range(1, 6):
        env = {T.ld('nlabels'): Lin(N), 'labels': T.ld('labels'), 'colorization': T.ld('colorization'), 'colors': col}
        for p in X.paths:
            for e in p.calls('realloc', 'malloc', 'calloc'):
                env[e[3]] = Lin(0)
        live = [p for p in X.paths if p.end[0] in ('ret', 'back') and not (p.end[0] == 'ret' and p.end[1] == ('null',))]
        # without a buffer given (as it is called)
        live = [p for p in live if p.null(('arg', 1)) is not False and p.null(('arg', 2)) is not False]
        toks, size = [], None
        cursor = None
        passed = set()
        for step in range(64):
            cand = []
            for p in live:
                lp = [e[1] for e in p.events if e[0] == 'loop']
                if p.end[0] == 'back' and bk_(p) in passed or any(x not in env for x in [('phi', h) for e in p.events if e[0] == 'loop' and e[1] in passed for h in e[2]]):
                    continue
                if any(fact(K, f, env) is (not v) for f, v in p.facts.items() if known_loops(f, env)):
                    continue
                cand.append(p)
            if not cand:
                raise Undecided('the paths of error_report for %d labels' % N)
            # the next loop all of them come to
            nxt = None
            for p in cand:
                for e in p.events:
                    if e[0] == 'loop' and any(('phi', h) not in env for h in e[2]):
                        nxt = (e[1], e[2]) if nxt is None else nxt
                        break
                if nxt:
                    break
            if nxt:
                for h, v in nxt[1].items():
                    env[('phi', h)] = ev(K, v, env)
                order = nxt[0]
            cand = [p for p in cand if not any(fact(K, f, env) is (not v) for f, v in p.facts.items() if known_loops(f, env))]
            if nxt is None:
                break
            # rounds of this loop
            for rnd in range(N + 3):
                bk = [p for p in cand_of(K, live, env, order) if p.end[0] == 'back' and bk_(p) == order]
                ex = [p for p in cand_of(K, live, env, order) if not (p.end[0] == 'back' and bk_(p) == order)]
                if not bk:
                    break
                if ex:
                    # the round that leaves must not be possible here as well
                    raise Undecided('when a loop of error_report ends')
                vals = set()
                for p in bk:
                    new = tuple(sorted((h, str(ev(K, v, env))) for h, v in p.back.items()))
                    vals.add((new, str(emit(K, p, env, order))))
                if len(vals) != 1:
                    raise Undecided('a round of error_report')
                p = bk[0]
                toks.append((order, 'round', emit(K, p, env, order)))
                newenv = {('phi', h): ev(K, v, env) for h, v in p.back.items()}
                env.update(newenv)
            else:
                raise Undecided('a loop of error_report')
            passed.add(order)
        fin = [p for p in cand_of(K, live, env, None) if p.end[0] == 'ret' and not any(e[0] == 'loop' and any(('phi', h) not in env for h in e[2]) for e in p.events)]
        if not fin:
            raise Undecided('the end of error_report for %d labels' % N)
        for p in fin:
            judge(C, X, K, m, p, env, toks, N)

def known_loops(f, env):
    if not isinstance(f, tuple):
        return True
    if f and f[0] == 'phi':
        return f in env
    return all(known_loops(x, env) for x in f)

def cand_of(K, live, env, order):
    out = []
    for p in live:
        if order is not None and not any(e[0] == 'loop' and e[1] == order for e in p.events):
            continue
        if any(fact(K, f, env) is (not v) for f, v in p.facts.items() if known_loops(f, env)):
            continue
        out.append(p)
    return out

def emit(K, p, env, order):
    """what is written since the loop was entered: (address, what, length)"""
    out = []
    on = order is None
    for e in p.events:
        if e[0] == 'loop':
            on = e[1] == order
            if on:
                out = []
            continue
        if e[0] == 'store' and root(e[1])[0] != 'alloca':
            i = e[3] if isinstance(e[3], dict) else {}
            n = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8}.get(i.get('vty'), None)
            out.append((at(K, e[1], env), ('bytes', bare(e[2]), n), Lin(n or 0)))
        elif e[0] == 'copy':
            out.append((at(K, e[1], env), ('copy', place(K, e[2], env)), ev(K, e[3], env)))
        elif e[0] == 'zero':
            out.append((at(K, e[1], env), ('zero',), ev(K, e[2], env)))
    return out

def at(K, a, env):
    if a[0] == 'addr':
        l = Lin(a[2]).add(at(K, a[1], env))
        for v, s in a[3]:
            l = l.add(ev(K, v, env).mul(s))
        return l
    return ev(K, a, env)

def judge(C, X, K, m, p, env, rounds, N):
    import struct
    # all that is written, in order
    ev_all = []
    cur = []
    loops = [e[1] for e in p.events if e[0] == 'loop']
    seg = {None: []}
    where_ = None
    for e in p.events:
        if e[0] == 'loop':
            where_ = e[1]
            ev_all += [w for o, _, ws in rounds if o == where_ for w in ws]
            continue
        one = emit1(K, e, env)
        if one:
            ev_all.append(one)
    vs = p.calls('vsnprintf')
    if not vs:
        raise Undecided('how the beginning of the message is written')
    pre = Lin(0, {bare(vs[0][3]): 1})
    items = []
    buf = None
    for a, w, n in ev_all:
        items.append((a, w, n))
    items = [x for x in items if not (x[1][0] == 'bytes' and x[1][2] == 8 and x[1][1][0] != 'c')]   # the buffer and its size
    if not items:
        raise Undecided('what error_report writes')
    # the text, contiguous from behind the beginning
    out = []
    a0 = items[0][0]
    here = a0
    for a, w, n in items:
        d = a.add(here, -1).const()
        if d != 0:
            C.ob('message', X.fn.where(), False, key='error_report:gap', msg='error_report: with %d labels what is written does not follow on what was written before' % N, path=p.lines())
            return
        if w[0] == 'bytes':
            if w[1][0] != 'c' or not w[2]:
                raise Undecided('what error_report writes')
            out.append(('t', (w[1][1] & ((1 << (8 * w[2])) - 1)).to_bytes(w[2], 'little').decode('latin1')))
        elif w[0] == 'zero':
            out.append(('t', '\0' * (n.const() or 0)))
        else:
            x = w[1]
            if x[0] == 'g':
                s = m.gstr(x)
                if s is None or n.const() is None:
                    raise Undecided('what error_report writes')
                if n.const() > len(s) + 1:
                    raise Undecided('what error_report writes')
                out.append(('t', (s + '\0')[:n.const()]))
            elif x[0] in ('label', 'color'):
                if str(n) != str(Lin(0, {('strlen', x): 1})):
                    C.ob('message', X.fn.where(), False, key='error_report:length', msg='error_report: the length of %s is not that of its text' % (x,), path=p.lines())
                    return
                out.append(x)
            else:
                raise Undecided('what error_report writes')
        here = here.add(n)
    text = []
    for x in out:
        if x[0] == 't' and text and text[-1][0] == 't':
            text[-1] = ('t', text[-1][1] + x[1])
        else:
            text.append(x)
    want = [('color', 'error_message', 0), ('t', 'expected')]
    for i in range(N):
        sep = '' if i == 0 else ' or' if i == N - 1 else ','
        want[-1:] = [('t', want[-1][1] + sep + ' ')] if want[-1][0] == 't' else [want[-1], ('t', sep + ' ')]
        want.append(('label', i))
    want += [('color', 'error_message', 1), ('t', '\0')]
    show = lambda t: ''.join(x[1] if x[0] == 't' else '<%s>' % ' '.join(map(str, x[1:])) for x in t).replace('\0', '<end>')
    X.ob('message', 'text', text == want, 'the message for %d labels is %s, not %s' % (N, show(text), show(want)), p)
    # the room
    total = here.add(a0, -1).add(pre)
    al = p.calls('realloc', 'malloc', 'calloc')
    if al:
        size = ev(K, al[-1][2][-1], env)
        d = size.add(total, -1)
        neg = d.c < 0 or any(c < 0 for c in d.t.values())
        X.ob('message', 'room', not neg, 'the room made for the message with %d labels is %s, but %s is written' % (N, size, total), p)
    return

def emit1(K, e, env):
    if e[0] == 'store' and root(e[1])[0] != 'alloca':
        i = e[3] if isinstance(e[3], dict) else {}
        n = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'ptr': 8}.get(i.get('vty'))
        return (at(K, e[1], env), ('bytes', bare(e[2]), n), Lin(n or 0))
    if e[0] == 'copy':
        return (at(K, e[1], env), ('copy', place(K, e[2], env)), ev(K, e[3], env))
    if e[0] == 'zero' and root(e[1])[0] != 'alloca':
        return (at(K, e[1], env), ('zero',), ev(K, e[2], env))
    return None

def cstring(t):
    """the string literal in the argument of an error action"""
    import re, ast
    x = re.search(r'"((?:[^"\\]|\\.)*)"', t)
    if not x:
        return None
    try:
        return ast.literal_eval('b"' + x.group(1) + '"').decode('latin1')
    except (SyntaxError, ValueError):
        return None

UNLABELLED = {'DROP', 'ON'}

def labels(C, m):
    """a word or sign that is missing is named as it is spelled"""
    import lexical, grammar
    g = grammar.machine().g
    for n, t in sorted(lexical.keywords().items()):
        if n not in g.rules:
            continue
        what = 'lib/src/parser.leg:%s rule %s' % (g.line.get(n, '?'), n)
        got = [e[2] for e in g.walk(g.rules[n]) if e[0] == 'err']
        if not got:
            continue
        want = t if t[0].isalpha() else "'%s'" % t.replace(' ', '')
        for x in got:
            s = cstring(x)
            if s is None:
                C.undecided('labels', what, 'the label in ' + x)
                continue
            C.ob('labels', what, s == want or t[0].isalpha() and s.upper() == want, key=n, msg='a missing %s is reported as %s' % (want, s))

def E01(C):
    C.rule('note', 'what was expected is noted at the furthest place reached after the last error, each label once, in order', 8)
    C.rule('record', 'what was noted becomes one error, with its place and the character found there, after those recorded before', 6)
    C.rule('char', 'characters are named as they are, special ones by their escape sequence, the end as such', 4)
    C.rule('message', 'the message lists the labels noted, in order, and fits into the room made for it', 6)
    C.rule('labels', 'the label of a missing word or sign is its spelling', 60)
    m = lib_module(KEEP_E)
    for rule, f in (('note', note), ('record', reify), ('record', extract), ('char', char), ('message', report), ('labels', labels)):
        try:
            f(C, m)
        except Undecided as e:
            C.undecided(rule, f.__name__, e)

PROPS = {'E01': E01}
