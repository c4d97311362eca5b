"""The linter reports every error and succeeds only when there are none: W01."""
import re
from ir import *
from astmodel import module
from pathkit import *
from positions import bare

KEEP = ('main', 'process', 'print_error')
SINGLE, ONLY = 1, 2

def ginit(m, name):
    for g in m.d['globals']:
        if g['name'] == name:
            return g.get('init')
    return None

def lin(e):
    """a linear form over loads without versions"""
    if e[0] == 'c':
        return Lin(e[1])
    if e[0] == 'null':
        return Lin(0)
    if e[0] in ('add', 'sub') and len(e) == 3:
        return lin(e[1]).add(lin(e[2]), 1 if e[0] == 'add' else -1)
    if e[0] == 'mul' and len(e) == 3:
        a, b = lin(e[1]), lin(e[2])
        if a.const() is not None:
            return b.mul(a.const())
        if b.const() is not None:
            return a.mul(b.const())
    if e[0] == 'shl' and e[2][0] == 'c':
        return lin(e[1]).mul(1 << e[2][1])
    if e[0] == 'addr':
        l = lin(e[1]).add(Lin(e[2]))
        for v, s in e[3]:
            l = l.add(lin(v).mul(s))
        return l
    if e[0] in ('sext', 'zext', 'trunc'):
        return lin(e[1])
    return Lin(0, {bare(e): 1})

def leq(a, b):
    d = lin(a).add(lin(b), -1)
    return d.c == 0 and not any(d.t.values())

def known_zero(p, e, depth=0):
    """True: the value is zero on the path, False: it is not, None: not known"""
    if e[0] == 'c':
        return e[1] == 0
    if e[0] == 'null':
        return True
    z = p.facts.get(('cmp', 'eq', e, ('c', 0)))
    if z is None:
        z = p.facts.get(('cmp', 'eq', e, ('null',)))
    if z is not None:
        return z
    if p.facts.get(('cmp', 'slt', e, ('c', 0))) or p.facts.get(('cmp', 'slt', ('c', 0), e)):
        return False
    if p.facts.get(('cmp', 'slt', e, ('c', 0))) is False and p.facts.get(('cmp', 'slt', ('c', 0), e)) is False:
        return True
    if depth < 3:
        for a, v in p.facts.items():
            if v and a[0] == 'cmp' and a[1] == 'eq' and a[3] in (('c', 0), ('null',)) and a[2] != e and covers(a[2], e, depth + 1) is True:
                return True
    return None

def covers(v, r, depth=0):
    """is v not zero whenever r is not? (None: not understood)"""
    if v == r:
        return True
    k = v[0]
    if k == 'c':
        return v[1] != 0
    if k == 'or':
        xs = [covers(x, r, depth) for x in v[1:]]
        return True if True in xs else None if None in xs else False
    if k in ('zext', 'sext'):
        return covers(v[1], r, depth)
    if k == 'cmp' and v[1] == 'ne' and v[3] in (('c', 0), ('null',)):
        return covers(v[2], r, depth)
    if k == 'select':
        c = v[1]
        if c == ('cmp', 'eq', r, ('c', 0)):
            return covers(v[3], r, depth)
        if c == ('cmp', 'ne', r, ('c', 0)):
            return covers(v[2], r, depth)
        xs = [covers(x, r, depth) for x in v[2:]]
        return True if xs == [True, True] else False if xs == [False, False] else None
    if k in ('phi', 'call'):
        return False
    return None

def only(m, fn, what):
    f = m.fn(fn)
    if f is None:
        raise Undecided('no function ' + fn)
    return f

# what the options mean: long name -> (short name, has an argument, {member: value})
OPTS = {'ast': ('a', 0, 'a'), 'colorize': (None, 0, 'c'), 'colorise': (None, 0, 'c'), 'colourise': (None, 0, 'c'),
        'no-colorize': (None, 0, 'n'), 'no-colorise': (None, 0, 'n'), 'no-colourise': (None, 0, 'n'), 'help': ('h', 0, 'h'),
        'only-statements': (None, 0, 'o'), 'output-width': (None, 1, 'w'), 'stream': (None, 0, 's'), 'version': (None, 0, 'v')}
DOES = {'1': 'parses only the first statement', 'a': 'dumps the AST', 'c': 'colours both outputs', 'n': 'colours neither output',
        'o': 'parses statements only', 'w': 'sets the width to its argument', 's': 'streams'}

def codes(C, m):
    """value of getopt_long -> what was asked for"""
    init = ginit(m, 'longopts')
    if init is None or init[0] != 'v':
        raise Undecided('the table of options')
    out, seen = {ord('1'): '1'}, {}
    for row in init[1]:
        if row[0] == 'z':
            continue
        if row[0] != 'v' or len(row[1]) < 4:
            raise Undecided('the table of options')
        name = m.gstr(tuple(row[1][0])) if row[1][0][0] == 'g' else None
        if name is None:
            break
        num = [x[1] if x[0] == 'c' else 0 for x in row[1][1:]]
        seen[name] = num[0], num[-1], row[1][2][0] in ('null', 'n', 'z')
    for n, (short, arg, what) in OPTS.items():
        C.ob('option', 'longopts', n in seen, key='missing:' + n, msg='the option --%s is not known' % n)
        if n not in seen:
            continue
        a, code, flagless = seen[n]
        C.ob('option', 'longopts', a == arg, key='arg:' + n, msg='--%s %s an argument' % (n, 'does not take' if arg else 'takes'))
        if not flagless:
            raise Undecided('an option that sets a flag itself')
        C.ob('option', 'longopts', code not in out or out[code] == what, key='code:' + n, msg='--%s is mistaken for another option' % n)
        out[code] = what
        if short:
            C.ob('option', 'longopts', code == ord(short), key='short:' + n, msg='--%s is not -%s' % (n, short))
            out.setdefault(ord(short), what)
    return out

def member(m, st, f):
    x = m.field(st, f)
    if x is None:
        raise Undecided('%s has no member %s' % (st, f))
    return x

def cfg(m, p, base, f, k=None):
    x = member(m, 'lint_config', f)
    a = mkaddr(base, x['o'], ())
    ty = 'i%d' % (8 * x['s'])
    return p.load(a, ty) if k is None else p.load_at(k, a, ty)

def value_of(p, call):
    """the value of getopt_long on the path (None: none of those tested; 'end': no more)"""
    eqs, nes, end = None, set(), None
    for a, v in p.facts.items():
        if a[0] != 'cmp':
            continue
        if a[1] == 'eq' and a[2] == call and a[3][0] == 'c':
            if a[3][1] == -1:
                end = v
            elif v:
                eqs = a[3][1]
            else:
                nes.add(a[3][1])
        elif a[1] == 'slt' and a[2] == ('c', -1) and a[3] == call:
            end = not v
        elif a[1] == 'slt' and a[2] == call and a[3] == ('c', 0):
            end = v
    if eqs is not None:
        return eqs
    if end:
        return 'end'
    return ('other', frozenset(nes))

def getopt_code(p):
    """(option taken on the path, the event after which it is acted on)"""
    go = p.calls('getopt_long')
    if not go:
        return None, None
    ids = [g[3] for g in go]
    for j, e in enumerate(p.events):
        if e[0] == 'loop':
            ph = [('phi', k) for k, v in e[2].items() if v in ids]
            if ph:
                return value_of(p, ph[0]), j
    return value_of(p, go[0][3]), p.events.index(go[0])

def no_more(p):
    """were all options taken before the end of the path?"""
    go = p.calls('getopt_long')
    return bool(go) and value_of(p, go[-1][3]) == 'end'

def options(C, m, X, table):
    n = 0
    seen = set()
    for p in X.paths:
        go = p.calls('getopt_long')
        if not go:
            if p.end[0] == 'back':
                continue
            continue
        if len(go) > 2:
            raise Undecided('calls of getopt_long')
        g = go[0]
        if g[2][0] != ('arg', 0) or g[2][1] != ('arg', 1):
            raise Undecided('arguments of getopt_long')
        sh = m.gstr(g[2][2]) if g[2][2][0] == 'g' else None
        if sh is None and g[2][2][0] == 'ld' and g[2][2][1][0] == 'g':
            i = ginit(m, g[2][2][1][1])
            sh = m.gstr(tuple(i)) if i and i[0] == 'g' else None
        if sh is None:
            raise Undecided('the short options')
        if not n:
            for c in '1ah':
                X.ob('option', 'short:' + c, re.search(re.escape(c) + '(?!:)', sh) is not None, 'the option -%s is not known, or takes an argument' % c)
        n += 1
        code, k = getopt_code(p)
        if code == 'end' or no_more(p) and p.end[0] == 'ret':
            continue
        if p.end[0] == 'back' and no_more(p):
            continue
        if isinstance(code, tuple):
            if p.end[0] == 'back' and not set(table) <= code[1]:
                continue
            if p.end[0] == 'ret':
                left = [c for c in table if c not in code[1]]
                if left:
                    raise Undecided('how options are told apart %s %s' % (left, sorted(code[1])))
                X.ob('option', 'unknown', known_zero(p, p.end[1]) is False, 'an unknown option is not an error', p)
            continue
        what = table.get(code)
        if what is None:
            continue
        seen.add(what)
        if what in 'hv':
            if p.end[0] != 'ret' or known_zero(p, p.end[1]) is None:
                raise Undecided('what asking for help or the version does')
            X.ob('option', 'info:' + what, known_zero(p, p.end[1]) is True, 'asking for help or the version is not a success', p)
            continue
        if p.end[0] != 'back':
            X.ob('option', 'stop:' + what, False, 'the options end after one that %s' % DOES[what], p)
            continue
        base = config_base(m, X)
        def now(f):
            return cfg(m, p, base, f)
        def told_by(v):
            """a value that depends on which option it is"""
            if v[0] in ('zext', 'sext', 'trunc'):
                return told_by(v[1])
            if v[0] == 'and' and ('c', 1) in v[1:]:
                return told_by([x for x in v[1:] if x != ('c', 1)][0])
            if v[0] == 'cmp' and v[1] in ('eq', 'ne') and v[3][0] == 'c' and v[2] in [g[3] for g in go] + [('phi', h) for h, _ in loopvars(p)] and (v[2] == go[0][3] or steps(p, v[2])[0] in [g[3] for g in go]):
                return ('c', int((v[3][1] == code) == (v[1] == 'eq')))
            if v[0] == 'select':
                c = told_by(v[1])
                if c[0] == 'c':
                    return told_by(v[2] if c[1] else v[3])
            return v
        def bit(v):
            v = told_by(v)
            return v[0] == 'c' and bool(v[1] & 1)
        def unset(v):
            return told_by(v) == ('c', 0)
        def flag(b):
            v, o = now('flags'), cfg(m, p, base, 'flags', k + 1)
            return v[0] == 'or' and ('c', b) in v[1:] and any(bare(x) == bare(o) for x in v[1:])
        ok = {'1': lambda: flag(SINGLE), 'o': lambda: flag(ONLY), 'a': lambda: bit(now('dump_ast')), 's': lambda: bit(now('stream')),
              'c': lambda: bit(now('colorize_output')) and bit(now('colorize_errors')),
              'n': lambda: all(unset(now(f)) for f in ('colorize_output', 'colorize_errors')),
              'w': lambda: any(e[3] == now('width') and e[2] and bare(e[2][0]) == ('ld', ('g', 'optarg')) for e in p.calls('atoi', 'strtol', 'strtoul'))}[what]
        try:
            r = ok()
        except TypeError:
            r = None
        if not r and what == 'w' and not p.calls('atoi', 'strtol', 'strtoul'):
            C.undecided('option', X.fn.where(), 'how the width is read')
            continue
        X.ob('option', 'does:' + what, bool(r), 'an option does not what it should: one that %s' % DOES[what], p)
        touch = {'1': ['flags'], 'o': ['flags'], 'a': ['dump_ast'], 's': ['stream'], 'w': ['width'],
                 'c': ['colorize_output', 'colorize_errors'], 'n': ['colorize_output', 'colorize_errors']}[what]
        st = m.structs['lint_config']
        for mem in st['m']:
            if mem['n'] in touch:
                continue
            a, b = mkaddr(base, mem['o'], ()), 'i%d' % (8 * mem['s'])
            was = p.load_at(k + 1, a, b) if k + 1 < len(p.events) else p.load(a, b)
            wrote = any(e[0] == 'store' and e[1] == a for e in p.events[k:])
            X.ob('option', 'only:%s:%s' % (what, mem['n']), not wrote or p.load(a, b) == was, 'an option that %s changes %s' % (DOES[what], mem['n']), p)
    for w in '1acnows':
        if w not in seen:
            C.ob('option', X.fn.where(), False, key='unhandled:' + w, msg='no code for the option that %s' % DOES[w])
    C.cover['paths that take an option'] += n

def config_base(m, X):
    for p in X.paths:
        for e in p.calls('process'):
            if len(e[2]) == 3:
                return e[2][2]
    raise Undecided('where the configuration is')

def steps(p, ph):
    """(entry, next) of a phi on the path"""
    for e in p.events:
        if e[0] == 'loop' and ph[1] in e[2]:
            return e[2][ph[1]], getattr(p, 'back', {}).get(ph[1])
    return None, None

def strings_equal(p, arg, m):
    """is the argument known to be (True) or not to be (False) '-'"""
    for e in p.calls('strcmp'):
        a, b = e[2]
        if b[0] != 'g':
            a, b = b, a
        if m.gstr(b) == '-' and bare(a) == bare(arg):
            return p.facts.get(('cmp', 'eq', e[3], ('c', 0)))
    # the comparison written out
    c0 = [(a, v) for a, v in p.facts.items() if a[0] == 'cmp' and a[1] == 'eq' and a[3] == ('c', 45) and a[2][0] == 'ld' and bare(a[2][1]) == bare(arg)]
    if c0 and c0[0][1] is False:
        return False
    return None

def inputs(C, m, X, table):
    """every argument is processed, and what happens to it decides the status"""
    failed = {}
    rounds = 0
    for p in X.paths:
        pr = p.calls('process')
        op = [e for e in p.calls('fopen')]
        for e in p.events:
            if e[0] == 'call' and e[1] in ('exit', '_exit'):
                X.ob('status', 'exit', e[2][0][0] == 'c' and e[2][0][1] != 0 or bool(pr) is False and known_zero(p, e[2][0]) is False, 'exits early with success', p)
        fails = []            # values that are not zero where something failed
        for e in pr:
            z = known_zero(p, e[3])
            fails.append((e[3], z, 'an input that could not be parsed without errors'))
        for e in op:
            if p.null(e[3]):
                fails.append((None, False, 'an input that could not be opened'))
                told = [x for x in p.events if x[0] == 'call' and (x[1] == 'perror' or x[1] in ('fprintf', 'fputs') and
                        ('ld', ('g', 'stderr')) in [bare(y) for y in x[2]])]
                X.ob('status', 'told', bool(told), 'a file that cannot be opened is not reported', p)
        # the file opened, or standard input, is what is processed
        for e in pr:
            s, name = e[2][0], e[2][1]
            rounds += 1
            if bare(s) == ('ld', ('g', 'stdin')):
                if bare(name) == ('null',):
                    X.ob('input', 'none', not p.calls('strcmp'), 'an argument is taken for no arguments', p)
                else:
                    ok = name[0] == 'g' and m.gstr(name) == '<stdin>'
                    arg = None
                    for y in p.calls('strcmp'):
                        arg = y[2][0] if y[2][0][0] != 'g' else y[2][1]
                    if arg is None:
                        raise Undecided('when standard input is read')
                    X.ob('input', 'stdin', strings_equal(p, arg, m) is True, 'an argument other than - is read from standard input', p)
            elif s[0] == 'call' and s[1] == 'fopen':
                o = [x for x in op if x[3] == s]
                X.ob('input', 'file', bool(o) and bare(o[0][2][0]) == bare(name), 'the errors of a file are reported for another', p)
                X.ob('input', 'file:mode', bool(o) and (m.gstr(o[0][2][1]) or '').startswith('r'), 'the file is not opened for reading', p)
                X.ob('input', 'file:null', p.null(s) is False, 'a file that could not be opened is read', p)
                X.ob('input', 'file:dash', strings_equal(p, name, m) is not True, 'the argument - is taken for a file', p)
            else:
                raise Undecided('what is processed')
        # status
        def leaves_zero(v):
            return known_zero(p, v)
        if p.end[0] == 'ret':
            v = p.end[1]
            z = known_zero(p, v)
            if z is None and v[0] not in ('or', 'phi', 'select', 'cmp', 'call', 'zext'):
                raise Undecided('the exit status')
            for r, rz, what in fails:
                if rz is True:
                    continue
                if z is False:
                    continue
                ok = rz is not False and z is None and covers(v, r)
                if rz is False and z is not True:
                    ok = covers(v, r) if r is not None else None
                if ok is None:
                    raise Undecided('how the exit status comes about')
                X.ob('status', 'fail', ok, 'succeeds in spite of %s' % what, p)
            # accumulated results
            if z is not False:
                failed.setdefault('zero', []).append(p)
            if z is False and not fails:
                pass
            # failure without a reason
            go = p.calls('getopt_long')
            if z is False and go and no_more(p):
                why = any(rz is False for r, rz, what in fails)
                acc = any(known_zero(p, x) is False for a, t in p.facts.items() if a[0] == 'cmp' for x in a[2:] if x[0] in ('phi', 'or', 'call') and
                          (x[0] != 'call' or x[1] == 'process'))
                maybe = [r for r, rz, what in fails if rz is None]
                if not why and not acc and maybe and not any(p.facts.get(('cmp', 'slt', ('c', 0), r)) is False or p.facts.get(('cmp', 'slt', r, ('c', 1))) for r in maybe):
                    C.undecided('status', X.fn.where(), 'why the status is a failure')
                else:
                    X.ob('status', 'success', why or acc, 'fails although every input was parsed without errors', p)
        elif p.end[0] == 'back' and (pr or op):
            phs = getattr(p, 'back', {})
            for r, rz, what in fails:
                if rz is True:
                    continue
                cov = [ph for ph, nv in phs.items() if (covers(nv, r) if r is not None else nv[0] == 'c' and nv[1] != 0 or nv[0] == 'or' and any(x[0] == 'c' and x[1] for x in nv[1:])) is True
                       or rz is False and known_zero(p, nv) is False]
                cov = [ph for ph in cov if integer_acc(X, ph)]
                mem = [e for e in p.events if e[0] == 'store' and e[1][0] in ('alloca', 'addr') and (e[2] == r or r is not None and covers(e[2], r) is True and e[2][0] != 'c')]
                if mem and not cov:
                    raise Undecided('results kept in memory')
                if not cov:
                    odd = [nv for ph, nv in phs.items() if nv[0] not in ('phi', 'c', 'addr', 'add', 'sub', 'or', 'call', 'select', 'cmp')] + \
                          [nv for ph, nv in phs.items() if r is not None and integer_acc(X, ph) and covers(nv, r) is None and mentions(nv, r)]
                    if odd:
                        raise Undecided('how results are combined')
                X.ob('status', 'kept', bool(cov), '%s is forgotten when there is another after it' % what, p)
                failed.setdefault('acc', set()).update(cov)
                for ph in cov:
                    failed.setdefault('by', {}).setdefault(ph, []).append(p)
    if not rounds:
        raise Undecided('no input is processed')
    C.cover['paths that process an input'] += rounds
    # an accumulator stays not zero, and ends up in the status
    acc = failed.get('acc', set())
    for ph in sorted(acc):
        for p in X.paths:
            if p.end[0] == 'back' and ph in getattr(p, 'back', {}) and ph in dict(loopvars(p)):
                nv = p.back[ph]
                c = covers(nv, ('phi', ph))
                if c is None and known_zero(p, nv) is False:
                    c = True
                if c is None:
                    raise Undecided('how results are combined')
                if not c and (known_zero(p, nv) is False or known_zero(p, ('phi', ph)) is True):
                    c = True
                X.ob('status', 'acc', c, 'a failure is forgotten when an input after it is parsed without errors', p)
            if p.end[0] == 'ret' and ph in dict(loopvars(p)):
                z = known_zero(p, p.end[1])
                if z is False:
                    continue
                r = known_zero(p, ('phi', ph)) is True or covers(p.end[1], ('phi', ph)) is True
                if not r and any(e for e in p.calls('process') if known_zero(p, e[3]) is None and covers_any(p, ph, e[3])):
                    r = True
                X.ob('status', 'ends', r, 'succeeds in spite of a failure with an earlier input', p)

def covers_any(p, ph, r):
    return False

def mentions(e, r):
    return e == r or isinstance(e, tuple) and any(mentions(x, r) for x in e)

def loopvars(p):
    for e in p.events:
        if e[0] == 'loop':
            for k, v in e[2].items():
                yield k, v

def integer_acc(X, ph):
    """does the phi start from zero, or from what an earlier input left?"""
    for p in X.paths:
        for k, v in loopvars(p):
            if k == ph:
                return v[0] == 'c'
    return False

def everything(C, m, X):
    """all arguments are gone through"""
    done = False
    for p in X.paths:
        pr = [e for e in p.calls('process') if bare(e[2][1]) != ('null',)]
        lv = dict(loopvars(p))
        names = [e[2][0] for e in p.calls('fopen')] + [e[2][0] if e[2][0][0] != 'g' else e[2][1] for e in p.calls('strcmp')]
        names = [x for x in names if x[0] == 'ld']
        if not names or not lv:
            continue
        loc = names[0][1]
        phis = [t for t in lin(loc).t if t[0] == 'phi' and lin(loc).t[t]]
        if len(phis) != 1:
            raise Undecided('how the arguments are gone through')
        ph = phis[0]
        scale = lin(loc).t[ph]
        def at(v):
            return lin(loc).add(Lin(0, {ph: scale}), -1).add(lin(v).mul(scale))
        want = lin(mkaddr(('arg', 1), 0, ((('ld', ('g', 'optind')), 8),)))
        d = at(lv[ph[1]]).add(want, -1)
        X.ob('input', 'first', d.c == 0 and not any(d.t.values()), 'the first argument is not what is processed first', p)
        nv = getattr(p, 'back', {}).get(ph[1]) if p.end[0] == 'back' else None
        if nv is not None:
            d = at(nv).add(lin(loc), -1)
            X.ob('input', 'next', d.c == 8 and not any(d.t.values()), 'an argument is left out, or processed twice', p)
            X.ob('input', 'once', len(pr) == 1 or bool(p.calls('fopen')) and p.null(p.calls('fopen')[0][3]) is True, 'an argument is not processed once', p)
            done = True
        elif p.end[0] == 'ret' and known_zero(p, p.end[1]) is not False and pr:
            # the place after this argument is the end
            nxt = lin(loc).add(Lin(8))
            end = lin(mkaddr(('arg', 1), 0, ((('arg', 0), 8),)))
            cnt = [k for k in lv if ('phi', k) != ph and lv[k][0] != 'c']
            # relation between the counter and the place
            ok = None
            for a, v in p.facts.items():
                if a[0] != 'cmp' or a[1] not in ('slt', 'eq', 'ult'):
                    continue
                for k in [ph[1]] + cnt:
                    if not mentions(a, ('phi', k)):
                        continue
                    l, r = lin(a[2]), lin(a[3])
                    diff = l.add(r, -1)              # a < b known false: a >= b; a == b known true
                    c = diff.t.get(('phi', k), 0)
                    if k != ph[1] and abs(c) == 1:
                        # counter: starts at argc - optind and is stepped by -1 (place + 8*counter is the end)
                        s = at(lv[ph[1]]).add(lin(lv[k]).mul(8)).add(end, -1)
                        st = [q.back[k] for q in X.paths if q.end[0] == 'back' and k in getattr(q, 'back', {})]
                        if any(s.t.values()) or s.c or any(lin(x).add(Lin(0, {('phi', k): 1}), -1).c != -1 for x in st):
                            continue
                        rest = diff.add(Lin(0, {('phi', k): c}), -1)
                        if any(rest.t.values()):
                            continue
                        # left after this one: counter - 1; the end: counter == 1
                        if a[1] == 'eq' and v:
                            ok = ok or (-rest.c * c == 1)
                        elif a[1] == 'slt' and not v and c == -1:      # x < counter is false: counter <= x
                            ok = ok or rest.c <= 1
                        elif a[1] == 'slt' and v and c == 1:           # counter < x
                            ok = ok or -rest.c <= 2
                    elif k == ph[1] and abs(c) in (1, 8):
                        f = 8 if abs(c) == 1 and scale == 8 else 1
                        if a[1] == 'slt' and not v and c > 0:          # place' < end' is false
                            e2 = diff.mul(f).add(nxt, -1).add(end)
                            ok = ok or (not any(e2.t.values()) and e2.c <= 0)
                        elif a[1] == 'eq' and v:
                            for sgn in (1, -1):
                                e2 = diff.mul(f * sgn).add(nxt, -1).add(end)
                                ok = ok or (not any(e2.t.values()) and e2.c == 0)
                        elif a[1] == 'slt' and not v and c < 0:
                            pass
            if ok is None:
                C.undecided('input', X.fn.where(), 'when the arguments have all been processed')
            else:
                X.ob('input', 'all', ok, 'ends with success before all arguments were processed', p)
    if not done:
        raise Undecided('how the arguments are gone through')

def bit_known(p, e):
    """truth of a bool in memory, by what the path knows"""
    for a, v in p.facts.items():
        if a[0] == 'cmp' and a[1] == 'eq' and a[3] == ('c', 0):
            x = a[2]
            if x[0] == 'and' and ('c', 1) in x[1:]:
                x = [y for y in x[1:] if y != ('c', 1)][0]
            if bare(x) == e:
                return not v
        elif a[0] == 'bool':
            if bare(a[1]) == e:
                return v
    return None

def errors_printed(X, p, src, what):
    """the loop that reports the errors of src, on a path that goes round it"""
    pe = p.calls('print_error')
    get = 'cypher_parse_%s_get_error' % what
    if len(pe) != 1:
        return False, 'does not report each error once'
    e = pe[0][2][0]
    lv = dict(loopvars(p))
    def index(x):
        if x[0] == 'call' and x[1] == get:
            c = [y for y in p.calls(get) if y[3] == x]
            if c:
                if bare(c[0][2][0]) != src:
                    return None
                return c[0][2][1]
        return None
    if e[0] == 'phi':
        i0, i1 = index(lv.get(e[1], ('c',))), index(p.back.get(e[1], ('c',)))
        if i0 is None or i1 is None:
            raise Undecided('which errors are reported')
        if i0 != ('c', 0):
            return False, 'does not report the first error'
        l = lin(i1)
        phs = [t for t in l.t if l.t[t]]
        if len(phs) != 1 or phs[0][0] != 'phi' or l.t[phs[0]] != 1:
            raise Undecided('which errors are reported')
        ph = phs[0]
        n = lin(p.back.get(ph[1], ('c', 0)))
        if l.c != n.c or any(n.add(l, -1).t.values()) or lv.get(ph[1], ('x',))[0] != 'c':
            raise Undecided('which errors are reported')
        # index of the error reported: ph + lv - 0 ...
        if lin(lv[ph[1]]).c + l.c != 1 or l.c != 1:
            return False, 'leaves out an error'
        return True, None
    i = index(e)
    if i is None:
        raise Undecided('which errors are reported')
    l = lin(i)
    phs = [t for t in l.t if l.t[t]]
    if len(phs) != 1 or phs[0][0] != 'phi' or l.t[phs[0]] != 1:
        raise Undecided('which errors are reported')
    ph = phs[0]
    i0 = lv.get(ph[1], ('x',))
    n = lin(p.back.get(ph[1], ('c', 0)))
    d = n.add(Lin(0, {ph: 1}), -1)
    if i0[0] != 'c' or any(d.t.values()):
        raise Undecided('which errors are reported')
    if i0[1] + l.c != 0:
        return False, 'does not report the first error'
    return d.c == 1, 'leaves out an error'

def errors_end(p, src, what):
    """the loop over the errors is left (or not entered) only when there are no more"""
    get, cnt = 'cypher_parse_%s_get_error' % what, 'cypher_parse_%s_nerrors' % what
    for e in p.calls(get):
        if bare(e[2][0]) == src and p.null(e[3]) is True:
            return True
    for e in p.calls(cnt):
        for a, v in p.facts.items():
            if mentions(a, e[3]) and a[0] == 'cmp':
                if a[1] == 'eq' and v or a[1] in ('ult', 'slt') and not v:
                    return True
    return None if p.calls(cnt) else False

def reported(C, X, src_of, what, fargs):
    """every path through a function reports the errors of a segment or result"""
    n = 0
    for p in X.paths:
        src = src_of(p)
        if src is None:
            continue
        n += 1
        if p.end[0] == 'back':
            if not p.calls('print_error'):
                raise Undecided('a loop of another kind')
            ok, msg = errors_printed(X, p, src, what)
            X.ob('report', 'each:' + what, ok, msg or 'reports its errors', p)
            a = p.calls('print_error')[0][2]
            if len(a) == 3:
                for k, nm in ((1, 'file name'),):
                    w = fargs(p)[k - 1]
                    if w is not None:
                        X.ob('report', 'arg%d:%s' % (k, what), bare(a[k]) in w, 'errors are reported with another %s' % nm, p)
        else:
            r = errors_end(p, src, what)
            if r is None:
                raise Undecided('when all errors have been reported')
            X.ob('report', 'all:' + what, r, 'not all errors are reported', p)
    return n

def dumped(C, m, X, p, src, what, config, width, colour):
    """prints the AST exactly when asked to"""
    fp = 'cypher_parse_%s_fprint_ast' % what
    st = m.field('lint_config', 'dump_ast')
    if st is None:
        raise Undecided('lint_config has no member dump_ast')
    want = bit_known(p, bare(('ld', mkaddr(config, st['o'], ()))))
    calls = p.calls(fp)
    if want is None:
        X.ob('dump', 'only:' + what, not calls, 'dumps the AST without being asked to', p)
        if not calls:
            C.undecided('dump', X.fn.where(), 'whether the AST is to be dumped')
        return None
    X.ob('dump', 'when:' + what, len(calls) == int(want), 'the AST is %s' % ('not dumped once' if want else 'dumped without being asked for'), p)
    for e in calls:
        X.ob('dump', 'what:' + what, bare(e[2][0]) == src and bare(e[2][1]) == ('ld', ('g', 'stdout')), 'the AST dumped is another, or not to standard output', p)
        X.ob('dump', 'width:' + what, bare(e[2][2]) == bare(width), 'the AST is not dumped with the width asked for', p)
        X.ob('dump', 'colour:' + what, bare(e[2][3]) in colour, 'the AST is not dumped with the colours asked for', p)
        return e
    return None

def failing(p, e):
    """did the call fail (return a value below zero)?"""
    for a, v in p.facts.items():
        if a == ('cmp', 'slt', e[3], ('c', 0)):
            return v
        if a == ('cmp', 'slt', ('c', -1), e[3]):
            return not v
    z = p.facts.get(('cmp', 'eq', e[3], ('c', 0)))
    if z is not None:
        return not z
    return None

def ldm(base, x):
    return bare(('ld', mkaddr(base, x['o'], ())))

def process(C, m):
    X = Fun(C, m, 'process')
    if len(X.fn.params) != 3:
        raise Undecided('parameters of process')
    cb, data = None, None
    mem = {f: member(m, 'lint_config', f) for f in ('flags', 'width', 'stream', 'dump_ast', 'colorize_output', 'colorize_errors')}
    A0, A1, A2 = ('arg', 0), ('arg', 1), ('arg', 2)
    ansi, none = ('ld', ('g', 'cypher_parser_ansi_colorization')), ('ld', ('g', 'cypher_parser_no_colorization'))
    def colours(p):
        out = {}
        for f in ('colorize_errors', 'colorize_output'):
            t = bit_known(p, ldm(A2, mem[f]))
            out[f] = {True: [ansi], False: [none, ('null',)], None: None}[t]
        return out
    def src(p):
        r = p.calls('cypher_fparse')
        return bare(r[0][3]) if r and p.null(r[0][3]) is False else None
    def fa(p):
        return [[A1]]
    for p in X.paths:
        new = p.calls('cypher_parser_new_config')
        each, all_ = p.calls('cypher_fparse_each'), p.calls('cypher_fparse')
        if len(new) != 1:
            raise Undecided('how the parser is configured')
        if p.null(new[0][3]) is True:
            if p.end[0] == 'ret':
                X.ob('parse', 'config', known_zero(p, p.end[1]) is False, 'succeeds although there is no memory', p)
            continue
        ps = each + all_
        X.ob('parse', 'once', len(ps) == 1, 'does not parse the input once', p)
        if len(ps) != 1:
            continue
        e = ps[0]
        X.ob('parse', 'stream', e[2][0] == A0, 'does not parse the stream given', p)
        X.ob('parse', 'config', e[2][-2] == new[0][3], 'does not parse with the configuration made', p)
        X.ob('parse', 'flags', bare(e[2][-1]) == ldm(A2, mem['flags']), 'does not parse with the flags asked for', p)
        last = e[2][-3]
        if last != ('null',):
            raise Undecided('where the last position goes')
        st, du = bit_known(p, ldm(A2, mem['stream'])), bit_known(p, ldm(A2, mem['dump_ast']))
        if st is not None and du is not False:
            X.ob('parse', 'streamed', st == bool(each), 'streams although not asked to, or does not although asked to', p)
        col = colours(p)
        sets = [y for y in p.events if y[0] == 'call' and y[1] == 'cypher_parser_config_set_error_colorization']
        if col['colorize_errors'] is not None:
            ok = bool(sets) and bare(sets[-1][2][1]) in col['colorize_errors'] if col['colorize_errors'] == [ansi] else all(bare(y[2][1]) in col['colorize_errors'] for y in sets)
            X.ob('parse', 'colours', ok, 'the messages of errors are not coloured as asked for', p)
            k = p.events.index(e)
            X.ob('parse', 'colours', all(p.events.index(y) < k for y in sets), 'the colours are set after parsing', p)
        if each:
            cb, dp = e[2][1], e[2][2]
            if cb[0] != 'g' or dp[0] != 'alloca':
                raise Undecided('the callback')
            k = p.events.index(e)
            def d(f):
                x = member(m, 'parse_callback_data', f)
                return p.load_at(k, mkaddr(dp, x['o'], ()), 'ptr' if x['s'] == 8 else 'i32')
            X.ob('parse', 'file', d('filename') == A1 and d('config') == A2, 'the callback is given another file name or configuration', p)
            if col['colorize_output'] is not None:
                X.ob('parse', 'output_colorization', bare(d('output_colorization')) in col['colorize_output'], 'the callback is given other colours', p)
            elif bare(d('output_colorization')) in (ansi, none, ('null',)) and du is not False:
                X.ob('parse', 'output_colorization', False, 'the colours of the AST are not those asked for', p)
            X.ob('parse', 'none', d('nerrors') == ('c', 0), 'errors are counted from another number than 0', p)
            if p.end[0] != 'ret':
                raise Undecided('a loop')
            bad = known_zero(p, e[3])
            z = known_zero(p, p.end[1])
            if bad is None:
                ok = covers(p.end[1], e[3])
                if ok is None:
                    raise Undecided('how a failure to parse is told')
                X.ob('status', 'parse', ok, 'succeeds although the input could not be parsed', p)
            elif bad is False:
                X.ob('status', 'parse', z is False, 'succeeds although the input could not be parsed', p)
                X.ob('status', 'parse:told', told(p), 'does not tell why the input could not be parsed', p)
            if bad is True or bad is None and z is None:
                x = member(m, 'parse_callback_data', 'nerrors')
                verdict(C, X, p, p.end[1], ('ld', mkaddr(dp, x['o'], ())))
        else:
            bad = p.null(e[3])
            if p.end[0] != 'ret':
                continue
            z = known_zero(p, p.end[1])
            if bad is None:
                raise Undecided('whether parsing failed')
            if bad:
                X.ob('status', 'parse', z is False, 'succeeds although the input could not be parsed', p)
                X.ob('status', 'parse:told', told(p), 'does not tell why the input could not be parsed', p)
                continue
            f = dumped(C, m, X, p, bare(e[3]), 'result', A2, ('ld', mkaddr(A2, mem['width']['o'], ())), col['colorize_output'] or [])
            if f is not None:
                bad = failing(p, f)
                if bad is None:
                    X.ob('status', 'dump', covers(p.end[1], f[3]) is not False, 'a failure to print the AST is ignored', p)
                elif bad:
                    X.ob('status', 'dump', z is False, 'a failure to print the AST is ignored', p)
                    continue
            ne = p.calls('cypher_parse_result_nerrors')
            if ne:
                verdict(C, X, p, p.end[1], bare(ne[-1][3]))
            elif counts(X, p):
                verdict(C, X, p, p.end[1], counts(X, p)[0])
            elif z is None or any(e[0] == 'loop' for e in p.events):
                C.undecided('status', X.fn.where(), 'whether there were errors')
            else:
                X.ob('status', 'errors', z != bool(p.calls('print_error')), 'succeeds although there were errors' if z else 'fails although there were no errors', p)
    n = reported(C, X, src, 'result', fa)
    if not n and cb is None:
        raise Undecided('what is parsed')
    return cb

def counts(X, p):
    """the variables that count the errors reported in a loop of the path"""
    out = []
    for e in p.events:
        if e[0] != 'loop':
            continue
        bk = [q for q in X.paths if q.end[0] == 'back' and (q.end[1][0] if isinstance(q.end[1], tuple) else q.end[1]) == e[1] and q.calls('print_error')]
        for h, init in e[2].items():
            if init == ('c', 0) and bk and all(h in q.back and lin(q.back[h]) == Lin(1, {('phi', h): 1}) for q in bk):
                out.append(('phi', h))
    return out

def told(p):
    return any(e[0] == 'call' and (e[1] == 'perror' or e[1] in ('fprintf', 'fputs') and any(bare(y) == ('ld', ('g', 'stderr')) for y in e[2])) for e in p.events)

def verdict(C, X, p, v, count):
    """the value returned is zero exactly when the count is"""
    z = known_zero(p, v)
    cz = None
    for a, t in p.facts.items():
        if a[0] == 'cmp' and a[1] == 'eq' and a[3] == ('c', 0) and bare(a[2]) == count:
            cz = t
        if a[0] == 'cmp' and a[1] == 'ult' and a[2] == ('c', 0) and bare(a[3]) == count:
            cz = not t
    if cz is not None and z is not None:
        X.ob('status', 'errors', z == cz, 'succeeds although there were errors' if z else 'fails although there were no errors', p)
        return
    b = bare(v)
    while b[0] in ('zext', 'sext'):
        b = b[1]
    if cz is None and z is None and (b == count or b == ('cmp', 'ne', count, ('c', 0)) or b == ('cmp', 'ult', ('c', 0), count)):
        X.ob('status', 'errors', True, '', p)
        return
    if cz is None and z is not None:
        X.ob('status', 'errors', False, 'what is returned does not depend on the number of errors', p)
        return
    if b[0] == 'cmp' and b[1] == 'ult' and b[2][0] == 'c' and b[2][1] > 0 and b[3] == count:
        X.ob('status', 'errors', False, 'succeeds although there were errors', p)
        return
    if b == ('cmp', 'eq', count, ('c', 0)):
        X.ob('status', 'errors', False, 'succeeds exactly when there were errors', p)
        return
    raise Undecided('how the errors decide the status')

def callback(C, m, cb):
    X = Fun(C, m, cb[1])
    D = {f: member(m, 'parse_callback_data', f) for f in ('filename', 'config', 'output_colorization', 'nerrors')}
    A0, A1 = ('arg', 0), ('arg', 1)
    conf = ('ld', mkaddr(A0, D['config']['o'], ()))
    w = member(m, 'lint_config', 'width')
    reported(C, X, lambda p: A1, 'segment', lambda p: [[ldm(A0, D['filename'])]])
    for p in X.paths:
        if p.end[0] != 'ret':
            continue
        na = mkaddr(A0, D['nerrors']['o'], ())
        st = [e for e in p.events if e[0] == 'store' and e[1] == na]
        rounds = bool([e for e in p.events if e[0] == 'loop']) and bool(p.calls('print_error'))
        if rounds:
            if not st:
                # not where the loop went round
                none = any(known_zero(p, c) for c in counts(X, p)) or any(
                    v and a[0] == 'cmp' and a[1] == 'eq' and a[3] == ('c', 0) and any(lin(a[2]).add(Lin(0, {c: 1}), -1).const() is not None for c in counts(X, p)) or
                    not v and a[0] == 'cmp' and a[1] == 'ult' and a[2] == ('c', 0) and any(lin(a[3]).add(Lin(0, {c: 1}), -1).const() is not None for c in counts(X, p))
                    for a, v in p.facts.items())
                if not none:
                    X.ob('status', 'count', False, 'errors are not counted', p)
            else:
                d = lin(bare(st[-1][2])).add(lin(bare(('ld', na))), -1)
                phs = [t for t in d.t if d.t[t]]
                cnt = [e for e in p.calls('cypher_parse_segment_nerrors')]
                lv = dict(loopvars(p))
                if not phs:
                    X.ob('status', 'count', d.c > 0 and lin(bare(st[-1][2])).t.get(bare(('ld', na)), 0) == 1, 'errors are not counted', p)
                elif len(phs) == 1 and phs[0][0] == 'phi' and d.t[phs[0]] == 1 and lv.get(phs[0][1], ('x',))[0] == 'c':
                    X.ob('status', 'count', d.c + lv[phs[0][1]][1] >= 1, 'errors are not counted', p)
                elif len(phs) == 1 and phs[0][0] == 'call' and phs[0][1] == 'cypher_parse_segment_nerrors' and d.t[phs[0]] == 1 and d.c == 0:
                    X.ob('status', 'count', True, '', p)
                elif phs == [bare(('ld', na))] and d.t[phs[0]] == -1:
                    X.ob('status', 'count', False, 'the errors of earlier segments are forgotten', p)
                elif any(x == bare(('ld', na)) for x in phs) and lin(bare(st[-1][2])).t.get(bare(('ld', na)), 0) == 0:
                    X.ob('status', 'count', False, 'the errors of earlier segments are forgotten', p)
                else:
                    raise Undecided('how errors are counted')
        elif st:
            v = bare(st[-1][2])
            l = lin(v)
            if l.t.get(bare(('ld', na)), 0) != 1:
                zero = any(p.facts.get(('cmp', 'eq', e[3], ('c', 0))) for e in p.calls('cypher_parse_segment_nerrors'))
                X.ob('status', 'count', False, 'the errors of earlier segments are forgotten', p)
        z = known_zero(p, p.end[1])
        f = dumped(C, m, X, p, A1, 'segment', conf, ('ld', mkaddr(conf, w['o'], ())), [ldm(A0, D['output_colorization'])])
        if f is not None:
            bad = failing(p, f)
            if bad is None:
                X.ob('status', 'dump', covers(p.end[1], f[3]) is not False, 'a failure to print the AST is ignored', p)
                continue
            if bad:
                X.ob('status', 'dump', z is False, 'a failure to print the AST is ignored', p)
                continue
        if z is None:
            v = p.end[1]
            if any(mentions(v, x) for x in [('phi', k) for k, _ in loopvars(p)] + [e[3] for e in p.calls('cypher_parse_segment_nerrors')]):
                z = False
            else:
                raise Undecided('what the callback returns')
        X.ob('report', 'goes on', z is True, 'stops parsing although nothing failed', p)

def tokens(m, p, stream):
    """what is written to the stream on the path, in order"""
    out = []
    def lit(s):
        if out and isinstance(out[-1], str):
            out[-1] += s
        elif s:
            out.append(s)
    for e in p.events:
        if e[0] != 'call' or e[1] in ('fflush',):
            continue
        n, a = e[1], e[2]
        if n in ('fprintf', 'fputs', 'fputc', 'putc'):
            s = a[0] if n == 'fprintf' else a[1]
            if bare(s) != stream:
                return None, 'something is not written to standard error'
            if n == 'fputs':
                t = m.gstr(a[0]) if a[0][0] == 'g' else None
                lit(t) if t is not None else out.append(('s', a[0]))
            elif n in ('fputc', 'putc'):
                if a[0][0] != 'c':
                    raise Undecided('what is written')
                lit(chr(a[0][1]))
            else:
                f = m.gstr(a[1]) if a[1][0] == 'g' else None
                if f is None:
                    raise Undecided('what is written')
                args, pos = list(a[2:]), 0
                for t in re.finditer(r'%%|%([-+ 0#]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j)?([a-zA-Z])|[^%]+', f):
                    if t.group(5) is None:
                        lit('%' if t.group(0) == '%%' else t.group(0))
                        continue
                    wd = args.pop(0) if t.group(2) == '*' else t.group(2)
                    pr = args.pop(0) if t.group(3) == '*' else t.group(3)
                    v = args.pop(0)
                    if t.group(5) == 's' and v[0] == 'g' and m.gstr(v) is not None and not m.gstr(v).strip(' ') and wd is not None:
                        out.append(('pad', wd, pr, m.gstr(v)))
                    elif wd is None and pr is None:
                        if t.group(5) == 's' and v[0] == 'g' and m.gstr(v) is not None:
                            lit(m.gstr(v))
                        else:
                            out.append(({'s': 's', 'u': 'n', 'd': 'n', 'i': 'n'}.get(t.group(5), t.group(5)), v))
                    else:
                        out.append(('other', f, wd, pr, v))
        elif n.startswith('cypher_parse_error_') or n == 'strlen':
            pass
        else:
            raise Undecided('what %s writes' % n)
    return out, None

def report_line(C, m):
    X = Fun(C, m, 'print_error')
    if len(X.fn.params) != 3:
        raise Undecided('parameters of print_error')
    err = ('ld', ('g', 'stderr'))
    n = 0
    for p in X.paths:
        if p.end[0] != 'ret':
            raise Undecided('a loop')
        out, bad = tokens(m, p, err)
        if out is None:
            X.ob('line', 'stream', False, bad, p)
            continue
        got = {x: [e[3] for e in p.calls('cypher_parse_error_' + x) if e[2] and e[2][0] == ('arg', 0)] for x in ('position', 'message', 'context', 'context_offset')}
        if any(e[0] == 'call' and e[1].startswith('cypher_parse_error_') and e[2] and ('arg', 0) not in e[2] for e in p.events):
            raise Undecided('which error is reported')
        def is_(v, x):
            v = bare(v)
            while v[0] in ('zext', 'trunc', 'sext'):
                v = v[1]
            if x in ('line', 'column'):
                for q in got['position']:
                    w = ('extractvalue', (0,), q)
                    if x == 'line' and v in (w, ('and', w, ('c', 0xffffffff)), ('and', ('c', 0xffffffff), w)) or x == 'column' and v == ('lshr', w, ('c', 32)):
                        return True
                return False
            return v in [bare(q) for q in got[x]]
        text, vals = '', []
        for t in out:
            if isinstance(t, str):
                text += t
            else:
                text += '\0'
                vals.append(t)
        known = p.null(('arg', 1))
        exp = '\0:\0:\0: \0\n\0\n\0^\n'
        exp0 = '<stdin>:\0:\0: \0\n\0\n\0^\n'
        n += 1
        if known is True:
            ok = text == exp0
            rest = vals
        elif known is False:
            ok = text == exp and vals[0][0] == 's' and bare(vals[0][1]) == ('arg', 1)
            rest = vals[1:]
        elif vals and vals[0][1][0] == 'select':
            s = vals[0][1]
            eq = s[1] == ('cmp', 'eq', ('arg', 1), ('null',))
            ne = s[1] == ('cmp', 'ne', ('arg', 1), ('null',))
            if not (eq or ne):
                raise Undecided('which file name is reported')
            a, b = (s[2], s[3]) if eq else (s[3], s[2])
            ok = text == exp and a[0] == 'g' and m.gstr(a) == '<stdin>' and b == ('arg', 1)
            rest = vals[1:]
        else:
            X.ob('line', 'stdin', False, 'the name of standard input is not reported', p)
            continue
        X.ob('line', 'form', ok, 'an error is not reported as file:line:column: message, its context and a marker', p)
        if not ok:
            continue
        X.ob('line', 'line', rest[0][0] in ('n', 'o') and is_(rest[0][1], 'line'), 'the line of an error is not reported', p)
        X.ob('line', 'column', is_(rest[1][1], 'column'), 'the column of an error is not reported', p)
        X.ob('line', 'message', rest[2][0] == 's' and is_(rest[2][1], 'message'), 'the message of an error is not reported', p)
        X.ob('line', 'context', rest[3][0] == 's' and is_(rest[3][1], 'context'), 'the context of an error is not reported', p)
        t = rest[4]
        ok = t[0] == 'pad' and not isinstance(t[1], str) and is_(t[1], 'context_offset')
        if ok and t[3]:
            # the padding may not be longer than the offset
            ok = t[2] is not None and (t[2] == '0' or not isinstance(t[2], str) and is_(t[2], 'context_offset'))
        X.ob('line', 'marker', ok, 'the marker is not below the place of the error', p)
    C.cover['ways to report an error'] += n

def w01(C):
    C.rule('option', 'each option in the usage text is known, changes what it is for and nothing else; help and the version are successes, an unknown option a failure')
    C.rule('input', 'each argument is opened (or standard input read for -) and processed once, in order, all before the program succeeds')
    C.rule('status', 'whatever fails makes the value returned and the exit status a failure, nothing else does, and no failure is forgotten')
    C.rule('parse', 'the input is parsed once with the flags, configuration and colours asked for')
    C.rule('report', 'the errors of a segment or result are reported one after another until there are no more')
    C.rule('dump', 'the AST is dumped to standard output exactly when asked for, with the width and colours asked for')
    C.rule('line', 'an error is written to standard error as file:line:column: message, its context, and a marker at its offset')
    m = module('linter', KEEP)
    C.anchor(m.fn('main') is not None, 'main of the linter')
    C.anchor(m.structs, 'structures of the linter')
    def tryit(rule, where, f):
        try:
            return f()
        except Undecided as e:
            C.undecided(rule, where, e)
        except (IndexError, TypeError, KeyError) as e:
            C.undecided(rule, where, 'not understood (%s)' % e)
    X = tryit('option', 'main', lambda: Fun(C, m, 'main'))
    if X:
        tb = tryit('option', 'longopts', lambda: codes(C, m))
        if tb:
            tryit('option', 'main', lambda: options(C, m, X, tb))
        tryit('status', 'main', lambda: inputs(C, m, X, tb))
        tryit('input', 'main', lambda: everything(C, m, X))
    cb = tryit('parse', 'process', lambda: process(C, m))
    if cb:
        tryit('report', 'callback', lambda: callback(C, m, cb))
    else:
        C.undecided('report', 'callback', 'the callback')
        C.undecided('dump', 'callback', 'the callback')
    tryit('line', 'print_error', lambda: report_line(C, m))

PROPS = {'W01': w01}
