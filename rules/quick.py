"""The quick parser: Q01.  Where it splits the input (quick_parser.leg against spec/quick.leg), what a
segment holds, and how the parse goes on from one segment to the next."""
import re
import front, leg, lex, peg, lexical
from ir import *
from astmodel import lib_module, KEEP
from effects import effects, Mods
from pathkit import *
from segments import Parse, src, sign, flag, flag_values, reaches, is_load, truthy, boolfact_after, clamped, cleanup, may_be_positive
import positions

KEEP_Q = tuple(KEEP + ['yyrelease', 'yyparsefrom', 'safe_yyparsefrom', 'source_from_buffer', 'source_from_stream', 'input_position', 'line_start', 'backtrack_lines', 'segment'])
QUICK = 'lib/src/quick_parser.c'
QLEG = 'lib/src/quick_parser_leg.c'

def quickfns(m):
    return {m.raw[n]['src']: n for n in m.raw if m.raw[n]['file'] in (QUICK, QLEG)}

class Acts:
    """what the actions of quick_parser.leg do, from their IR"""
    def __init__(self, m, g):
        self.m, self.g = m, g
        self.q = quickfns(m)
        yy = [s for k, s in m.structs.items() if k.startswith('_yycontext@') and any(x['n'] == 'callback' for x in s['m'])]
        self.eof = next((x['o'] for s in yy for x in s['m'] if x['n'] == 'eof'), None) if len(yy) == 1 else None
        self.memo = {}

    def acts(self, rule, idx, text):
        k = (rule, idx)
        if k not in self.memo:
            self.memo[k] = self.one('yy_%d_%s' % (idx, rule))
        if isinstance(self.memo[k], Exception):
            raise self.memo[k]
        return self.memo[k]

    def one(self, n):
        fn = self.m.fn(self.q.get(n, n))
        if fn is None:
            return peg.PegError('no action ' + n)
        outs = set()
        try:
            for p in effects(fn, mods=Mods(self.m)):
                if p.end[0] != 'ret':
                    return peg.PegError('loop in action ' + n)
                out = []
                for e in p.events:
                    if e[0] == 'call' and isinstance(e[1], str) and self.m.raw.get(e[1], {}).get('src') == 'segment':
                        a = e[2][0]
                        if a[0] != 'c':
                            return peg.PegError('kind of segment in action ' + n)
                        out.append(('span', 'segment', 'statement' if a[1] & 1 else 'command'))
                    elif e[0] == 'store' and e[1] == mkaddr(('arg', 0), self.eof, ()) and e[2] == ('c', 1):
                        out.append(('out', 'eof'))
                    elif e[0] in ('store', 'copy', 'zero') and self.m is not None and root(e[1])[0] == 'alloca':
                        pass
                    else:
                        return peg.PegError('what action %s does' % n)
                outs.add(tuple(out))
        except Undecided as x:
            return peg.PegError(str(x))
        return list(outs.pop()) if len(outs) == 1 else peg.PegError('what action %s does' % n)

    def preds(self, text):
        if re.search(r'\bline_start\s*\(', text):
            return [('event', 'line')]
        return []

def mixed(e, inside=False):
    """a region opened while another is open"""
    k = e[0]
    if k == 'seq':
        for x in e[1]:
            if x[0] == 'eff':
                for y in x[1]:
                    if y[0] == 'open':
                        if inside:
                            return True
                        inside = True
                    elif y[0] == 'close':
                        inside = False
            elif mixed(x, inside):
                return True
        return False
    if k == 'alt':
        return any(mixed(x, inside) for x in e[1])
    if k in ('star', 'plus', 'opt', 'not', 'and'):
        return mixed(e[1], inside)
    if k == 'eff':
        return inside and any(y[0] == 'open' for y in e[1])
    return False

def share(conv, ref, top):
    """replaces the rules that are the same function as one of the reference by that one, so that
    the comparison of what uses them need not tell them apart"""
    todo = [n for n in conv.g.rules if n not in top]
    calls = {n: {e[1] for e in conv.g.walk(conv.g.rules[n]) if e[0] == 'rule'} for n in conv.g.rules}
    done = set()
    while todo:
        n = next((n for n in todo if not (calls[n] & set(todo)) - {n}), None)
        if n is None:
            return
        todo.remove(n)
        try:
            e = conv.peg(n)
        except peg.PegError:
            continue
        for r in ref.g.rules:
            if r in top:
                continue
            try:
                x = ref.peg(r)
                if sample(e) != sample(x):
                    continue
                if peg.equivalent(e, x, seconds=5)[0] is None:
                    conv.memo[n] = ref.rule(r)
                    break
            except peg.PegError:
                continue

def sample(e):
    """what the expression does with a few short inputs"""
    m = peg.Machine()
    f = m.expand('m', (e,))
    out = []
    for w in ('#', 'a#', '\n#', '#\n', ' #', '/#', "'#", '"#', '`#', ';#', '\\#', 'a#a', '/*#', '//#', '/**/#', "''#", '""#', '``#'):
        st = f
        for ch in w:
            st = m.delta(st, ch if ch == '#' else ord(ch))
        out.append(m.accepts(st))
    return out

def extent(C, m):
    g = leg.load('quick_parser.leg')
    A = Acts(m, g)
    if A.eof is None:
        raise Undecided('the context of the quick parser')
    conv = lex.Conv(g, A.acts, A.preds)
    ref = lex.Conv(lexical.reference('quick'), lex.ref_acts, lex.ref_preds)
    for n in ('statement', 'directive'):
        try:
            C.ob('extent', n + ': region', not mixed(lex.Conv(g, A.acts, A.preds).rule(n)), key=n + ':region', msg='the text of the segment is cut short by a region within it')
        except peg.PegError as x:
            C.undecided('extent', n + ': region', x)
    top = {'statement': 'statement', 'client_command': 'command', 'directive': 'directive'}
    share(conv, ref, top)
    for n, r in top.items():
        if n not in g.rules:
            if n != 'client_command':
                C.undecided('extent', n, 'no rule of that name')
            continue
        what = 'lib/src/quick_parser.leg:%s rule %s' % (g.line.get(n, '?'), n)
        try:
            w, states = peg.equivalent(conv.peg(n), ref.peg(r), seconds=120)
            C.cover['automaton states explored'] += states
            C.ob('extent', what, w is None, key=n, msg='differs from its definition on this input (\u2023 marks the end of the match, \u27e8\u27e9 what is delivered): %s' % repr(lexical.show(w)) if w is not None else None)
        except peg.PegError as x:
            C.undecided('extent', what, x)
        conv.memo[n] = ref.rule(r)      # what uses it is judged by itself
    lexical.lines(C, g, A.preds, ['directive', 'statement'], 'quick_parser')

def callsite(X, p):
    return [k for k, e in enumerate(p.events) if e[0] == 'call' and not isinstance(e[1], str)]

def built(C, m):
    """what the callback gets"""
    q = quickfns(m)
    yst = [s for k, s in m.structs.items() if k.startswith('_yycontext@') and any(x['n'] == 'callback' for x in s['m'])]
    sst = m.structs.get('cypher_quick_parse_segment')
    if len(yst) != 1 or sst is None or 'segment' not in q:
        raise Undecided('how a segment is built')
    yo = {x['n']: x['o'] for x in yst[0]['m']}
    so = {x['n']: x for x in sst['m']}
    fn = m.fn(q['segment'])
    ro = [n for n in m.raw if m.raw[n]['src'] == 'input_position']
    ps = effects(fn, limit=500, readonly=ro, mods=Mods(m), peel=True)
    class X: pass
    kw = next((k for k, t in enumerate(fn.params) if True and m.raw[fn.name] and k == fn.pindex('yy')), fn.pindex('yy'))
    ki = [k for k in range(len(fn.params)) if k != kw]
    if kw is None or len(ki) != 1:
        raise Undecided('the parameters of segment')
    yy, kind = ('arg', kw), ('arg', ki[0])
    at = lambda f, d=0: mkaddr(yy, yo[f] + d, ())
    def ob(key, ok, msg, p):
        C.ob('segment', 'segment', ok, key='segment:' + key, msg=msg, path=p.lines())
    ip = [m.field('cypher_input_position', f)['o'] for f in ('line', 'column', 'offset')]
    rs, re_ = (m.field('cypher_input_range', f)['o'] for f in ('start', 'end'))
    for p in ps:
        if p.end[0] != 'ret':
            raise Undecided('loop in segment')
        cs = [k for k, e in enumerate(p.events) if e[0] == 'call' and not isinstance(e[1], str)]
        eof = None
        for a, v, _ in p.order:
            x = a[1] if a[0] == 'bool' else a[2] if a[0] == 'cmp' and a[1] == 'eq' and a[3] == ('c', 0) else None
            if x is not None and is_load(truthy(x), at('eof')):
                eof = v if a[0] == 'bool' else not v
        def zero(f):
            for x in (('ld', at(f)),):
                v = p.facts.get(('cmp', 'eq', x, ('c', 0)))
                if v is not None:
                    return v
                v = p.facts.get(('cmp', 'slt', ('c', 0), x))
                if v is not None:
                    return not v
                v = p.facts.get(('cmp', 'slt', x, ('c', 1)))
                if v is not None:
                    return v
            return None
        if not cs:
            ob('skip', eof is True and zero('__end') is True, 'nothing is delivered although there is text or input left', p)
            ob('skipped', p.load(at('result'), 'i32') == ('c', 0), 'the value of an earlier callback is kept where nothing is delivered', p)
            continue
        if len(cs) > 1:
            ob('once', False, 'a segment is delivered twice', p)
            continue
        k = cs[0]
        e = p.events[k]
        ob('notempty', not (eof is True and zero('__end') is True), 'an empty segment is delivered at the end of the input', p)
        if e[1][0] != 'ld' or len(e[2]) != 2:
            raise Undecided('what segment calls')
        ob('callback', is_load(e[1], at('callback')), 'does not call the callback', p)
        ob('userdata', is_load(e[2][0], at('callback_data')), 'the callback does not get the user data', p)
        S = e[2][1]
        if S[0] != 'alloca':
            raise Undecided('where the segment is kept')
        K = Knows(p)
        def mem(f, d=0, ty='i64'):
            return p.load_at(k, mkaddr(S, so[f]['o'] + d, ()), ty)
        def isld(x, f):
            while x[0] in ('zext', 'sext', 'trunc'):
                x = x[1]
            return x[0] == 'ld' and x[1] == at(f)
        def posof(base, d):
            """the end of what the position is computed for"""
            lo, hi = (p.load_at(k, mkaddr(S, base + d + o, ()), 'i64') for o in (0, 8))
            return which(lo, hi)
        def which(lo, hi):
            if lo[0] == 'extractvalue' and hi[0] == 'extractvalue' and (lo[1], hi[1]) == ((0,), (1,)) and lo[2] == hi[2]:
                for j, x in enumerate(p.events):
                    if x[0] == 'call' and x[3] == lo[2] and x[1] in ro and x[2][0] == yy:
                        a = x[2][1]
                        for f in ('__begin', '__end', '__pos', '__thunkpos', '__limit'):
                            if isld(a, f):
                                return f, j
                        return '?', j
            return None, None
        kd = truthy(mem('is_statement', ty='i8'))
        ob('kind', kd == kind, 'the kind of the segment is not the one parsed', p)
        b = p.load_at(k, mkaddr(S, so['ptr']['o'], ()))
        okb = b[0] == 'addr' and b[2] == 0 and is_load(b[1], at('__buf')) and len(b[3]) == 1 and b[3][0][1] == 1 and isld(b[3][0][0], '__begin')
        ob('text', okb, 'the text does not start where the segment does', p)
        ln = mem('length')
        while ln[0] in ('zext', 'sext', 'trunc'):
            ln = ln[1]
        okl = ln[0] == 'sub' and isld(ln[1], '__end') and isld(ln[2], '__begin')
        if not okl:
            c = K.lin(ln).add(K.lin(('ld', at('__end'))), -1).add(K.lin(('ld', at('__begin'))))
            okl = c.const() == 0
        ob('length', okl, 'the length is not that of the text', p)
        got = {}
        for f, base, d, want, msg in (('start', so['range']['o'], rs, '__begin', 'the range does not start where the text does'),
                                      ('end', so['range']['o'], re_, '__end', 'the range does not end where the text does'),
                                      ('next', so['next']['o'], 0, '__pos', 'the next position is not the one behind what was parsed')):
            w, j = posof(base, d)
            got[f] = j
            ob(f, w == want, msg, p)
        ob('eof', is_load(truthy(mem('eof', ty='i8')), at('eof')), 'the end of input mark is not that of the parse', p)
        r = p.load(at('result'), 'i32')
        ob('result', r == e[3], 'the value returned by the callback is lost', p)
        lo, hi = (p.load(at('position_offset', o), 'i64') for o in (0, 8))
        w, j = which(lo, hi)
        if w is None:       # set before the callback, which does not get to see it
            w, j = which(*(p.load_at(k, at('position_offset', o), 'i64') for o in (0, 8)))
        ob('offset', w == '__pos', 'the next segment does not start at the position where this one ended', p)
        st = [j for j, x in enumerate(p.events) if x[0] in ('store', 'copy') and x[1][0] == 'addr' and x[1][1] == yy and yo['position_offset'] <= x[1][2] < yo['position_offset'] + 16]
        js = [j for j in got.values() if j is not None] + ([j] if j is not None else [])
        ob('order', not st or not js or max(js) < st[0], 'a position of the segment is computed after the state for the next one was set', p)

def getters(C, m):
    st = m.structs.get('cypher_quick_parse_segment')
    so = {x['n']: x for x in st['m']}
    A0 = ('arg', 0)
    at = lambda f, d=0: mkaddr(A0, so[f]['o'] + d, ())
    def fun(n):
        return Fun(C, m, 'cypher_quick_parse_segment_' + n)
    for n, f, ty in (('is_statement', 'is_statement', 'b'), ('is_command', 'is_statement', '!'), ('get_ptr', 'ptr', 'p'), ('get_length', 'length', 'l'),
                     ('get_range', 'range', 'm'), ('get_next', 'next', 'm'), ('is_eof', 'eof', 'b'), ('get_text', 'ptr', 't')):
        try:
            X = fun(n)
            for p in X.paths:
                if p.end[0] != 'ret':
                    raise Undecided('loop in ' + X.name)
                r = p.end[1]
                w = [e for j, e in written(p)]
                if ty == 't':
                    A1 = ('arg', 1)
                    if p.null(A1):
                        X.ob('getter', n, r == ('null',), 'does not refuse to store the length through NULL', p)
                        continue
                    X.ob('getter', n + ':n', p.load(A1, 'i64') == ('ld', at('length')), 'the length stored is not that of the text', p)
                    X.ob('getter', n, is_load(r, at('ptr')), 'does not return the text', p)
                    w = [e for e in w if e[1] != A1]
                elif ty == 'm':
                    out = [e for e in w if root(e[1]) == A0 and X.fn.params and r is None]
                    if r is not None:
                        ok = r[0] in ('insertvalue', 'struct') and has(r, ('ld', at(f))) and has(r, ('ld', at(f, 8)))
                        X.ob('getter', n, ok, 'does not return the position', p)
                    else:
                        # returned through the first parameter
                        A1 = ('arg', 1)
                        ok = all(p.load(mkaddr(A0, o, ()), 'i64') == ('ld', mkaddr(A1, so[f]['o'] + o, ())) for o in range(0, so[f]['s'], 8))
                        X.ob('getter', n, ok, 'does not return the range', p)
                        w = [e for e in w if root(e[1]) != A0]
                elif ty in 'b!':
                    neg, x = 0, r
                    while True:
                        if x[0] == 'cmp' and x[1] == 'eq' and x[3] == ('c', 0):
                            neg, x = 1 - neg, x[2]
                        elif x[0] == 'xor' and ('c', 1) in x[1:] or x[0] == 'xor' and ('c', -1) in x[1:] or x[0] == 'not':
                            neg, x = 1 - neg, [y for y in x[1:] if y[0] != 'c'][0]
                        elif truthy(x) != x:
                            x = truthy(x)
                        elif x[0] == 'ite' and len(x) == 4 and x[2][0] == x[3][0] == 'c':
                            neg, x = neg ^ (x[2][1] == 0), x[1]
                        else:
                            break
                    if x[0] == 'c':
                        v = boolfact_after(p, at(f), -1)
                        if v is None and not any(has(a, ('ld', at(f))) for a in p.facts):
                            X.ob('getter', n, False, 'does not return what the segment says', p)
                            continue
                        if v is None:
                            raise Undecided('what %s returns' % X.name)
                        X.ob('getter', n, (x[1] & 1 == 1) ^ neg == (v if ty == 'b' else not v), 'does not return what the segment says', p)
                    else:
                        X.ob('getter', n, is_load(x, at(f)) and neg == (ty == '!'), 'does not return what the segment says', p)
                else:
                    X.ob('getter', n, is_load(r, at(f)), 'does not return that member of the segment', p)
                X.ob('getter', n + ':pure', not w and not [e for e in p.events if e[0] == 'call'], 'does more than look at the segment', p)
        except Undecided as x:
            C.undecided('getter', n, x)

def has(e, x):
    if e == x:
        return True
    return isinstance(e, tuple) and any(has(y, x) for y in e if isinstance(y, tuple))

def rounds(C, m, name, stream, flags):
    P = Parse(m, name, True)
    fl = P.arg('flags')
    q = quickfns(m)
    names = set(q.values())
    parsers = reaches(m, [n for n in m.raw if src(m, n) == 'yyparsefrom' and n in names])
    def bad(rule, key, msg, p=None):
        C.ob(rule, name, False, key='%s:%s' % (name, key), msg=msg, path=p.lines() if p else None)
    def ob(rule, key, ok, msg, p):
        C.ob(rule, '%s: %s' % (name, key), ok, key='%s:%s' % (name, key), msg=msg, path=p.lines())
    yy = P.yy
    n = 0
    for p in P.paths:
        ev = p.events
        ret = p.end[1] if p.end[0] == 'ret' else None
        pc = [k for k, e in enumerate(ev) if e[0] == 'call' and isinstance(e[1], str) and e[1] in parsers and e[2] and e[2][0] == yy]
        if any(e[0] == 'call' and not isinstance(e[1], str) for e in ev):
            raise Undecided('call of an unknown function in ' + name)
        loops = [k for k, e in enumerate(ev) if e[0] == 'loop']
        if not pc:
            if p.end[0] == 'back':
                continue
            refused = any(p.null(P.arg(a)) for a in (['stream'] if stream else ['s']) + ['callback'])
            oom = failed(p, 0)
            if not (refused or oom):
                bad('rounds', 'refuse', 'returns without parsing although its arguments are valid and no allocation failed', p)
            else:
                ob('result', 'early', ret == ('c', -1), 'returns success without having parsed anything', p)
            continue
        if len(pc) > 1:
            bad('rounds', 'twice', 'the parser is entered twice for one segment', p)
            continue
        k0 = pc[0]
        call, rc = ev[k0], ev[k0][3]
        only = flag(p, fl, flags['CYPHER_PARSE_ONLY_STATEMENTS'])
        rule = call[2][1] if len(call[2]) > 1 else None
        if rule is not None and rule[0] == 'g' and only is None and not any(has(a, fl) for a in p.facts):
            bad('rule', 'rule', 'the parse starts at rule %s whether or not CYPHER_PARSE_ONLY_STATEMENTS is given' % src(m, rule[1])[3:], p)
        elif rule is None or rule[0] != 'g' or only is None:
            C.undecided('rule', name, 'the grammar rule is not selected by the flag in a way that is understood')
        else:
            want = 'yy_statement' if only else 'yy_directive'
            ob('rule', 'rule', src(m, rule[1]) == want, 'with%s CYPHER_PARSE_ONLY_STATEMENTS the parse starts at rule %s instead of %s' % ('' if only else 'out', src(m, rule[1])[3:], want[3:]), p)
        lk = [k for k in loops if k < k0]
        if len(lk) != 1:
            C.undecided('start', name, 'no single loop over the segments')
            continue
        L = lk[0]
        po = P.pos(p, L, P.at('position_offset'))
        z = ('g', 'cypher_input_position_zero')
        ob('start', 'position', P.is_pos(po, z) or [truthy(x) for x in po] == [('c', 1), ('c', 1), ('c', 0)], 'parsing does not start at the first line and column', p)
        ob('start', 'callback', p.load_at(L, P.at('callback')) == P.arg('callback') and p.load_at(L, P.at('callback_data')) == P.arg('userdata'),
           'the parser does not get the callback and its data', p)
        ob('start', 'source', p.load_at(L, P.at('source'))[0] == 'g', 'the input is not set before parsing', p)
        for f, ty in (('eof', 'i8'), ('result', 'i32')):
            ob('start', f, p.load_at(L, P.at(f), ty) == ('c', 0), '%s is not set before parsing' % f, p)
        lso = P.at('line_start_offsets')
        first = [e for e in ev[:L] if e[0] == 'call' and e[1] == 'cp_vector_push' and e[2][0] == lso]
        if len(first) == 1:
            k = ev.index(first[0])
            ob('start', 'lines', p.load_at(k, first[0][2][1], 'i32') == ('c', 0), 'the first line does not start at the start of the text', p)
        else:
            C.undecided('start', name, 'how the first line is started')
        s = sign(p, rc)
        if not set(s) <= {'+'} and not set(s) <= {'-', '0'}:
            bad('rounds', 'unchecked', 'the outcome of the parse is not looked at', p)
            continue
        if '+' not in s:
            if p.end[0] == 'back':
                if p.end[1] == ev[L][1]:
                    bad('rounds', 'failed', 'parsing continues after a failure', p)
                continue
            ob('result', 'failed', ret == ('c', -1) or ret == rc and s == '-', 'a failed parse is not reported as a failure', p)
            cleanup(C, P, p, L, bad)
            continue
        if p.end[0] == 'back' and p.end[1] != ev[L][1]:
            continue
        n += 1
        rv = None
        for a in p.facts:
            for x in subs(a):
                if x[0] == 'ld' and x[1] == P.at('result'):
                    rv = x
        rs = sign(p, rv) if rv is not None else '+-0'
        single = flag(p, fl, flags['CYPHER_PARSE_SINGLE'])
        eof = boolfact_after(p, P.at('eof'), k0)
        if p.end[0] == 'back':
            if rs != '0':
                bad('rounds', 'goon', 'parsing continues although the callback returned a value other than 0', p)
            if single is not False:
                bad('rounds', 'single', 'parsing continues after the first segment in spite of CYPHER_PARSE_SINGLE', p)
            if eof is not False:
                bad('rounds', 'eof', 'parsing continues after the end of the input', p)
            clr = [k for k, e in enumerate(ev) if k > k0 and e[0] == 'call' and e[1] == 'cp_vector_clear' and e[2] == (lso,)]
            psh = [k for k, e in enumerate(ev) if k > k0 and e[0] == 'call' and e[1] == 'cp_vector_push' and e[2][0] == lso]
            okl = len(clr) >= 1 and len(psh) == 1 and clr[-1] < psh[0] and p.load_at(psh[0], ev[psh[0]][2][1], 'i32') == ('c', 0)
            ob('next', 'lines', okl, 'the line starts of this segment are kept for the next one', p)
            st = [e for e in ev[k0 + 1:] if e[0] in ('store', 'copy', 'zero') and e[1][0] == 'addr' and e[1][1] == yy and
                  any(P.off(f) <= e[1][2] < P.off(f) + w for f, w in (('position_offset', 16), ('callback', 8), ('callback_data', 8), ('source', 8), ('source_data', 8)))]
            ob('next', 'state', not st, 'position, callback or input of the parse are changed between segments', p)
            ob('rounds', 'round', True, '', p)
            continue
        if p.end[0] != 'ret':
            continue
        if rv is not None and '0' not in rs and clamped(p, ret, rv):
            ob('result', 'clamp', True, '', p)
        elif rs == '+':
            ob('result', 'stop', ret == ('c', 0), 'a positive value of the callback does not end the parse successfully', p)
        elif rs == '-':
            ob('result', 'neg', ret is not None and ret == rv, 'the negative value of the callback is not returned', p)
        elif rs == '0':
            if failed(p, k0):
                ob('result', 'oom', ret == ('c', -1), 'running out of memory is not reported', p)
            elif single or eof:
                ob('result', 'done', ret == ('c', 0), 'reaching the end is reported as a failure', p)
            elif single is None and eof is None:
                C.undecided('rounds', name, 'why the parse ends is not understood')
            else:
                bad('rounds', 'short', 'parsing ends before the end of the input', p)
        elif rv is None or rs == '+-0':
            bad('rounds', 'ignored', 'the value returned by the callback is ignored', p)
        else:
            bad('rounds', 'sign', 'the value returned by the callback is not told apart (%s)' % rs, p)
        cleanup(C, P, p, L, bad)
    C.cover['paths'] += len(P.paths)
    C.cover['rounds'] += n

def subs(e):
    if isinstance(e, tuple):
        if e and isinstance(e[0], str):
            yield e
        for x in e:
            yield from subs(x)

def failed(p, k0):
    """does the path know that a call after k0 failed?"""
    for a, v in p.facts.items():
        if a[0] == 'cmp' and a[1] == 'eq' and a[2][0] == 'call' and isinstance(a[2][1], str) and any(e[0] == 'call' and e[3] == a[2] for e in p.events[k0 + (1 if k0 else 0):]):
            if (a[3] == ('c', 0) and not v) or (a[3] == ('null',) and v):
                return True
        if a[0] == 'cmp' and a[1] == 'slt' and v and a[3] == ('c', 0) and a[2][0] == 'call':
            return True
    return False

def q01(C):
    C.rule('extent', 'the grammar splits the input where spec/quick.leg says', 2)
    C.rule('newline', 'every newline that is matched is reported as the start of a line', 10)
    C.rule('spurious', 'the start of a line is reported only directly behind a newline', 10)
    C.rule('segment', 'the segment given to the callback is the one parsed', 10)
    C.rule('getter', 'every getter returns the named member', 8)
    C.rule('position', 'line, column and offset of a place in the text', 1)
    C.rule('rule', 'the flag selects the grammar rule at which the parse of every segment starts', 2)
    C.rule('start', 'the parse starts with the arguments at the first line and column', 2)
    C.rule('rounds', 'each segment is delivered once to the callback; what it returns decides whether parsing goes on', 2)
    C.rule('next', 'the next segment starts where this one ended', 2)
    C.rule('result', 'the value returned says whether the parse succeeded', 2)
    C.rule('release', 'everything the parser holds is released once on every way out', 2)
    m = lib_module(KEEP_Q)
    for f in (extent, built, getters):
        try:
            f(C, m)
        except Undecided as x:
            C.undecided({'extent': 'extent', 'built': 'segment', 'getters': 'getter'}[f.__name__], f.__name__, x)
    q = quickfns(m)
    names = {k: q[k] for k in ('input_position', 'line_start', 'backtrack_lines') if k in q}
    for f in (positions.position, positions.lines):
        try:
            f(C, m, names)
        except Undecided as x:
            C.undecided('position', f.__name__, x)
    flags = flag_values()
    for name, stream in (('cypher_quick_uparse', 0), ('cypher_quick_fparse', 1)):
        C.anchor(m.fn(name) is not None, name)
        try:
            rounds(C, m, name, stream, flags)
        except Undecided as x:
            C.undecided('rounds', name, x)

PROPS = {'Q01': q01}
