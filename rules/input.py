"""How the input reaches the parsers: N01."""
from ir import *
from astmodel import lib_module, KEEP
from pathkit import *
from segments import src, sign

KEEP_N = tuple(KEEP + ['source_from_buffer', 'source_from_stream', 'source', 'yyrefill', 'parse_each', 'parse', 'safe_yyparsefrom', 'block_free', 'input_position', 'segment'])

def cut(fn, off):
    """places where a 64-bit length loaded from the given member is cut before it is compared"""
    lens, small, out = set(), {}, []
    ins = [i for b in fn.blocks for i in b]
    def at(r):
        i = fn.ins.get(r[1]) if r and r[0] == 'i' else None
        if i is not None and i['op'] == 'getelementptr':
            return i.get('base') == ['a', 0] and not i.get('var') and i.get('off') == off
        return off == 0 and list(r) == ['a', 0]
    for i in ins:
        if i['op'] == 'load' and i['ty'] == 'i64' and at(i['args'][0]):
            lens.add(i['id'])
        elif i['op'] == 'trunc' and i.get('from') == 'i64' and i['args'][0][0] == 'i' and i['args'][0][1] in lens:
            small[i['id']] = i
    for i in ins:
        used = [a[1] for a in i.get('args', ()) if isinstance(a, list) and a and a[0] == 'i' and a[1] in small]
        if used and (i['op'] in ('icmp', 'select') or i['op'] == 'call' and 'min' in str(i.get('callee'))):
            out.append(i)
    return out

def min_parts(K, e):
    """the two sides of a minimum, as written or as chosen by the path"""
    if e[0] in ('umin', 'smin') and len(e) == 3:
        return e[1], e[2]
    return None

def unbuffer(C, m, name):
    """source_from_buffer: what is copied, how much, and what is left"""
    X = Fun(C, m, name)
    ds = m.structs.get('source_from_buffer_data')
    ob, ol = m.field('source_from_buffer_data', 'buffer'), m.field('source_from_buffer_data', 'length')
    if ds is None or ob is None or ol is None:
        raise Undecided('how the rest of a buffer is kept')
    A0, A1, A2 = ('arg', 0), ('arg', 1), ('arg', 2)
    b0, l0 = mkaddr(A0, ob['o'], ()), mkaddr(A0, ol['o'], ())
    B, L = ('ld', b0), ('ld', l0)
    for i in cut(X.fn, ol['o']):
        X.ob('buffer', 'width', False, 'the length that is left is cut to 32 bits before it is compared (line %s)' % (i.get('loc') or ['', '?'])[1])
    if any(p.end[0] == 'back' for p in X.paths):
        raise Undecided('loop in ' + name)
    for p in X.paths:
        if p.end[0] != 'ret':
            X.ob('buffer', 'end', False, 'does not return', p)
            continue
        K = Knows(p)
        r = p.end[1]
        rem, ptr = p.load(l0, 'i64'), p.load(b0)
        # how much is taken: what leaves the length
        taken = K.lin(L).add(K.lin(rem), -1)
        same = K.lin(r).add(taken, -1)
        if same.const() is None and r[0] in ('trunc', 'zext', 'sext'):
            same = K.lin(r[1]).add(taken, -1)
        X.ob('buffer', 'count', same.const() == 0, 'the amount returned is not the amount taken off the length', p)
        # it is the smaller of the length and what is wanted, or everything on a path that knows
        t = K.unlin(taken)
        mp = min_parts(K, t)
        def le(a, b):
            for pr, x, y, want in (('ult', a, b, True), ('ult', b, a, False), ('slt', a, b, True), ('slt', b, a, False)):
                if K.truth(('cmp', pr, x, y)) is want:
                    return True
            return None
        if mp is not None:
            okm = {bare_ext(x) for x in mp} == {L, A2}
        elif t == L or bare_ext(t) == A2:
            other = A2 if t == L else L
            okm = any(le(x, y) for x in forms(p, t) for y in forms(p, other)) or K.truth(('cmp', 'eq', L, ('c', 0))) is True and t == L
        elif t == ('c', 0):
            okm = any(K.truth(('cmp', 'eq', x, ('c', 0))) is True for x in [L] + forms(p, L) + forms(p, A2)) or any(
                K.truth(('cmp', pr, x, ('c', n))) is want for x in forms(p, A2) + [A2]
                for pr, n, want in (('slt', 1, True), ('slt', 0, True), ('sgt', 0, False), ('sgt', -1, False), ('ult', 1, True))) or any(
                f[0] == 'cmp' and f[1] == 'eq' and v and f[3] == ('c', 0) and f[2][0] in ('umin', 'smin') and {bare_ext(x) for x in f[2][1:]} == {L, A2} for f, v in p.facts.items())
        elif any(K.lin(t).add(K.lin(x), -1).const() for x in [L] + forms(p, A2)):
            okm = False
        else:
            if not any(x[:1] == ('low',) or x[:1] == ('and',) and any(y[0] == 'c' for y in x[1:]) for x in walk(t)):
                raise Undecided('how much %s takes' % name)
            okm = False
        X.ob('buffer', 'amount', okm, 'the amount taken is not the smaller of what is left and what is wanted', p)
        # copied
        cp = [e for e in p.events if e[0] == 'copy' or e[0] == 'call' and isinstance(e[1], str) and e[1] in ('memcpy', 'memmove', 'strncpy')]
        other = [e for j, e in written(p) if e[0] != 'copy' and e[1] not in (b0, l0) and e[1] != ('errno',)]
        if other:
            X.ob('buffer', 'writes', False, 'writes to something else', p)
        zero = t == ('c', 0) or any(f[0] == 'cmp' and f[1] == 'eq' and v and f[3] == ('c', 0) and bare_ext(f[2]) == bare_ext(t) for f, v in p.facts.items())
        if not cp:
            X.ob('buffer', 'copied', zero, 'returns a length without copying anything', p)
        elif len(cp) == 1 and cp[0][0] == 'copy':
            _, d, s, n = cp[0][:4]
            X.ob('buffer', 'copied', d == A1 and K.same(deref(s, b0), B), 'does not copy from the rest of the input to the start of the room', p)
            X.ob('buffer', 'length', K.lin(n).add(taken, -1).const() == 0 or bare_ext(n) == bare_ext(t), 'copies another amount than it returns', p)
        else:
            raise Undecided('how %s copies' % name)
        adv = K.lin(tolin(ptr)).add(K.lin(B), -1).add(taken, -1)
        if adv.const() is None:
            adv = K.lin(('c', 0)) if is_advance(ptr, B, t) else adv
        X.ob('buffer', 'advance', adv.const() == 0 or zero and ptr == B, 'the next call does not continue after what was copied', p)

def tolin(e):
    """an address as a sum"""
    if e[0] == 'addr':
        out = tolin(e[1])
        if e[2]:
            out = ('add', out, ('c', e[2]))
        for v, s in e[3]:
            out = ('add', out, v if s == 1 else ('mul', v, ('c', s)))
        return out
    return e

def is_advance(ptr, B, t):
    return ptr[0] == 'addr' and ptr[1] == B and ptr[2] == 0 and len(ptr[3]) == 1 and ptr[3][0][1] == 1 and bare_ext(ptr[3][0][0]) == bare_ext(t)

def deref(e, b0):
    return e if e[0] != 'ld' or len(e) < 3 else ('ld', e[1]) if e[1] == b0 else e

def bare_ext(e):
    while e[0] in ('zext', 'sext', 'trunc'):
        e = e[1]
    return ('ld', e[1]) if e[0] == 'ld' else e

def forms(p, e):
    """the ways e appears in what the path knows"""
    out = [e]
    for f in p.facts:
        for x in f[1:]:
            if isinstance(x, tuple) and x[0] in ('zext', 'sext', 'trunc') and bare_ext(x) == e:
                out.append(x)
    return out

def unstream(C, m, name):
    X = Fun(C, m, name)
    A0, A1 = ('arg', 0), ('arg', 1)
    for p in X.paths:
        if p.end[0] != 'ret':
            raise Undecided('loop in ' + name)
        K = Knows(p)
        r = p.end[1]
        calls = [e for e in p.events if e[0] == 'call']
        rd = [e for e in calls if e[1] in ('getc', 'fgetc', 'getc_unlocked', 'fgetc_unlocked', '_IO_getc')]
        fe = [e for e in calls if e[1] in ('ferror', 'ferror_unlocked')]
        if len(rd) != 1 or len(rd) + len(fe) != len(calls):
            if any(e[1] in ('fread', 'fgets', 'getline', 'read', 'fread_unlocked') or not isinstance(e[1], str) for e in calls) or len(rd) > 1:
                raise Undecided('how %s reads' % name)
            X.ob('stream', 'reads', len(rd) == 1, 'does not read one character', p)
            continue
        g = rd[0][3]
        X.ob('stream', 'from', rd[0][2] and rd[0][2][-1] == A0, 'does not read from the stream', p)
        end = K.truth(('cmp', 'eq', g, ('c', -1)))
        if end is None:
            neg = K.truth(('cmp', 'slt', g, ('c', 0)))
            end = neg
        w = [e for j, e in written(p) if e[1] != ('errno',)]
        if end is None:
            X.ob('stream', 'eof', False, 'the end of the stream is not told apart from a character', p)
        elif end:
            X.ob('stream', 'eofwrite', not w, 'stores something at the end of the stream', p)
            if not fe:
                X.ob('stream', 'ferror', False, 'the end of the stream is not told apart from a failure to read', p)
                continue
            fv = fe[0][3]
            known = K.truth(('cmp', 'eq', fv, ('c', 0)))
            for bad in (True, False):
                if known is not None and known == bad:
                    continue
                v = evalr(r, fv, bad)
                if v is None:
                    raise Undecided('what %s returns at the end' % name)
                X.ob('stream', 'failed' if bad else 'end', v < 0 if bad else v == 0,
                     'a failure to read is not reported' if bad else 'the end of the stream is reported as a failure', p)
        else:
            X.ob('stream', 'char', len(w) == 1 and w[0][0] == 'store' and w[0][1] == A1 and bare_ext(w[0][2]) == g, 'the character read is not handed over', p)
            X.ob('stream', 'one', K.n(r) == ('c', 1), 'the amount returned is not 1', p)

def evalr(e, fv, bad):
    if e[0] == 'c':
        return e[1]
    if e[0] in ('cmp',):
        a, b = evalr(e[2], fv, bad), evalr(e[3], fv, bad)
        if e[2] == fv and e[3] == ('c', 0):
            return int(not bad) if e[1] == 'eq' else int(bad) if e[1] == 'ne' else None
        if a is None or b is None:
            return None
        return {'eq': int(a == b), 'ne': int(a != b), 'slt': int(a < b)}.get(e[1])
    if e[0] in ('sub', 'add', 'mul'):
        xs = [evalr(x, fv, bad) for x in e[1:]]
        if None in xs:
            return None
        return xs[0] - xs[1] if e[0] == 'sub' else sum(xs) if e[0] == 'add' else xs[0] * xs[1]
    if e[0] in ('zext', 'trunc'):
        return evalr(e[1], fv, bad)
    if e[0] == 'sext':
        v = evalr(e[1], fv, bad)
        return -v if v in (0, 1) and e[1][0] == 'cmp' else v
    if e[0] == 'select':
        v = evalr(e[1], fv, bad)
        return None if v is None else evalr(e[2] if v else e[3], fv, bad)
    return None

class Ctx_:
    def __init__(self, m, own):
        self.st = None
        for n, s in m.structs.items():
            f = {x['n'] for x in s['m']}
            if n.startswith('_yycontext') and {'source', 'source_data', 'abort_env'} <= f and ('callback' in f) == own:
                self.st = s
        if self.st is None:
            raise Undecided('no parser context')
    def at(self, f):
        return mkaddr(('arg', 0), next(x['o'] for x in self.st['m'] if x['n'] == f), ())

def pull(C, m, name, ctx):
    """source: what the parser asks for is what the source delivers; failures end the parse"""
    X = Fun(C, m, name)
    A0, A1, A2, A3 = (('arg', k) for k in range(4))
    want = ('ld', ctx.at('source'))
    for p in X.paths:
        K = Knows(p)
        calls = [e for e in p.events if e[0] == 'call']
        rd = [e for e in calls if not isinstance(e[1], str)]
        nobuf = p.null(A1)
        if nobuf:
            X.ob('pull', 'null', not rd and p.end[0] == 'ret' and K.n(p.load(A2, 'i32')) == ('c', 0), 'reads although there is no room to read to', p)
            continue
        if len(rd) != 1:
            X.ob('pull', 'once', False, 'the source is asked %s' % ('more than once' if rd else 'never'), p)
            continue
        e = rd[0]
        X.ob('pull', 'args', e[1] == want and e[2][0] == ('ld', ctx.at('source_data')) and e[2][1] == A1 and bare_ext(e[2][2]) == A3,
             'the source is not asked to fill the room of the parser', p)
        r = e[3]
        X.ob('pull', 'result', K.same(p.load(A2, 'i32'), r), 'the parser is told another amount than the source delivered', p)
        s = sign(p, r)
        jumps = [c for c in calls if c[1] in ('siglongjmp', 'longjmp', '__longjmp_chk')]
        if s == '-':
            if not jumps:
                X.ob('pull', 'failed', False, 'a failure of the source does not end the parse', p)
                continue
            v = jumps[0][2][1]
            X.ob('pull', 'where', jumps[0][2][0] == ctx.at('abort_env'), 'the parse is not left through the place set up for it', p)
            nz = K.truth(('cmp', 'eq', v, ('c', 0)))
            X.ob('pull', 'errno', v[0] == 'c' and v[1] != 0 or nz is False, 'the parse may be left with an errno of 0', p)
            X.ob('pull', 'errnov', v[0] == 'c' or v[0] == 'ld' and v[1] == ('errno',), 'errno of the failure is not kept', p)
        elif '-' in s:
            X.ob('pull', 'failed', False, 'a failure of the source is not noticed', p)
        else:
            X.ob('pull', 'ok', not jumps and p.end[0] == 'ret', 'the parse is left although the source delivered', p)

def refill(C, m, name, ctx, own):
    """the generated parser asks for input at the end of what it has and takes note of it"""
    X = Fun(C, m, name, readonly=(own,))
    for p in X.paths:
        if p.end[0] != 'ret':
            continue
        rd = [e for e in p.events if e[0] == 'call' and e[1] == own]
        X.ob('refill', 'asks', len(rd) == 1 and rd[0][2][0] == ('arg', 0), 'the generated parser does not read through source()', p)

def safe(C, m, name, ctx):
    """a parse that is left early returns failure with the errno it was left with"""
    X = Fun(C, m, name)
    A0 = ('arg', 0)
    for p in X.paths:
        K = Knows(p)
        if p.end[0] != 'ret':
            raise Undecided('loop in ' + name)
        calls = [e for e in p.events if e[0] == 'call']
        sj = [e for e in calls if isinstance(e[1], str) and 'setjmp' in e[1]]
        yp = [e for e in calls if isinstance(e[1], str) and src(m, e[1]) in ('yyparsefrom',)]
        if len(sj) != 1:
            X.ob('abort', 'set', False, 'the place to leave the parse to is not set up', p)
            continue
        X.ob('abort', 'env', sj[0][2][0] == ctx.at('abort_env'), 'the place to leave the parse to is another one', p)
        left = K.truth(('cmp', 'eq', sj[0][3], ('c', 0)))
        if left is None:
            X.ob('abort', 'tested', False, 'whether the parse was left is not looked at', p)
        elif not left:
            X.ob('abort', 'again', not yp, 'the parser is entered again after it was left', p)
            v = p.load(('errno',), 'i32')
            X.ob('abort', 'errno', K.same(v, sj[0][3]), 'errno is not the one the parse was left with', p)
            X.ob('abort', 'fails', p.end[1] is not None and sign(p, p.end[1]) == '-' or p.end[1][0] == 'c' and p.end[1][1] < 0, 'a parse that was left does not fail', p)
        else:
            X.ob('abort', 'runs', len(yp) == 1 and yp[0][2][0] == A0, 'the parser is not entered once', p)
            if yp:
                X.ob('abort', 'result', p.end[1] == yp[0][3], 'the result of the parser is not returned', p)

def wiring(C, m, name, stream):
    """which source the public function installs, and over what"""
    fn = m.fn(name)
    C.anchor(fn is not None, name)
    X = Fun(C, m, name, limit=6000, peel=True, readonly=[n for n in m.raw if src(m, n) == 'input_position'])
    sname = 'source_from_stream' if stream else 'source_from_buffer'
    ok = 0
    for p in X.paths:
        wired = None
        for k, e in enumerate(p.events):
            if e[0] == 'store' and e[2][0] == 'g' and src(m, e[2][1]).startswith('source_from'):
                wired = (k, e)
                break
            if e[0] == 'call' and isinstance(e[1], str) and any(a[0] == 'g' and src(m, a[1]).startswith('source_from') for a in e[2]):
                wired = (k, e)
                break
        if wired is None:
            continue
        k, e = wired
        ok += 1
        if e[0] == 'call':
            a = [x[0] == 'g' and src(m, x[1]).startswith('source_from') for x in e[2]].index(True)
            fnv, data = e[2][a], e[2][a + 1]
        else:
            fnv = e[2]
            st = [s for n, s in m.structs.items() if n.startswith('_yycontext') and any(x['n'] == 'source' for x in s['m'])]
            d = next((x['o'] for x in st[0]['m'] if x['n'] == 'source_data'), None) - next(x['o'] for x in st[0]['m'] if x['n'] == 'source')
            b, o = (e[1][1], e[1][2]) if e[1][0] == 'addr' else (e[1], 0)
            data = None
            for q in range(k + 1, min(k + 40, len(p.events)) + 1):
                v = p.load_at(q, mkaddr(b, o + d, ())) if q < len(p.events) else p.load(mkaddr(b, o + d, ()))
                if v is not None and v[0] in ('arg', 'alloca') or v is not None and v[0] == 'addr' and v[1][0] == 'alloca':
                    data = v
                    break
            if data is None:
                raise Undecided('what the source of %s reads' % name)
        X.ob('wiring', 'which', src(m, fnv[1]) == sname, 'the input is read with %s' % src(m, fnv[1]), p)
        if stream:
            X.ob('wiring', 'stream', data == X.A('stream'), 'the source does not read the stream given', p)
        else:
            ob, ol = m.field('source_from_buffer_data', 'buffer'), m.field('source_from_buffer_data', 'length')
            X.ob('wiring', 'buffer', p.load_at(k, mkaddr(data, ob['o'], ())) == X.A('s') and p.load_at(k, mkaddr(data, ol['o'], ()), 'i64') == X.A('n'),
                 'the source does not read the buffer given, from its start and with its length', p)
    if not ok:
        raise Undecided('no source is installed in ' + name)

def n01(C):
    C.rule('buffer', 'input from memory is handed over in order, without loss, up to its length and no further', 8)
    C.rule('stream', 'input from a stream is handed over character by character; end and failure are told apart', 8)
    C.rule('pull', 'the parser gets exactly what the source delivers, and is left when the source fails', 8)
    C.rule('abort', 'a parse that is left returns failure with errno set', 4)
    C.rule('wiring', 'the public functions read the input they were given', 6)
    m = lib_module(KEEP_N)
    def each(rule, s, f, *a):
        names = m.by_src.get(s, [])
        if not names:
            C.undecided(rule, s, 'no function ' + s)
        for n in names:
            try:
                f(C, m, n, *a)
            except Undecided as e:
                C.undecided(rule, n, e)
    each('buffer', 'source_from_buffer', unbuffer)
    each('stream', 'source_from_stream', unstream)
    # which context a function works on: that of the file it is in
    for rule, s, f in (('pull', 'source', pull), ('abort', 'safe_yyparsefrom', safe)):
        names = m.by_src.get(s, [])
        if not names:
            C.undecided(rule, s, 'no function ' + s)
        for n in names:
            try:
                f(C, m, n, Ctx_(m, 'quick' in m.raw[n].get('file', '') ))
            except Undecided as e:
                C.undecided(rule, n, e)
    for n, st in (('cypher_uparse_each', 0), ('cypher_fparse_each', 1), ('cypher_uparse', 0), ('cypher_fparse', 1), ('cypher_quick_uparse', 0), ('cypher_quick_fparse', 1)):
        try:
            wiring(C, m, n, st)
        except Undecided as e:
            C.undecided('wiring', n, e)

PROPS = {'N01': n01}
