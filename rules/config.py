"""Configurations and the defaults of the parser: C01."""
import re
import front
from ir import *
from astmodel import lib_module, KEEP
from pathkit import *
from positions import bare

WRAP = '''
int vp_w1(const char *s, cypher_parser_segment_callback_t b, void *d, struct cypher_input_position *l, cypher_parser_config_t *c, uint_fast32_t f);
int vp_w1(const char *s, cypher_parser_segment_callback_t b, void *d, struct cypher_input_position *l, cypher_parser_config_t *c, uint_fast32_t f)
{ return cypher_parse_each(s, b, d, l, c, f); }
cypher_parse_result_t *vp_w2(const char *s, struct cypher_input_position *l, cypher_parser_config_t *c, uint_fast32_t f);
cypher_parse_result_t *vp_w2(const char *s, struct cypher_input_position *l, cypher_parser_config_t *c, uint_fast32_t f)
{ return cypher_parse(s, l, c, f); }
int vp_w3(const char *s, cypher_parser_quick_segment_callback_t c, void *u, uint_fast32_t f);
int vp_w3(const char *s, cypher_parser_quick_segment_callback_t c, void *u, uint_fast32_t f)
{ return cypher_quick_parse(s, c, u, f); }
'''

def ginit(m, name):
    for g in m.d['globals']:
        if g['name'] == name:
            return g.get('init')
    return None

def flat(init):
    """scalar members of an initialiser, in order"""
    if init is None:
        return None
    if init[0] == 'v':
        out = []
        for x in init[1]:
            f = flat(x)
            if f is None:
                return None
            out += f
        return out
    return [tuple(init)]

def defaults(C, m):
    std = flat(ginit(m, 'cypher_parser_std_config'))
    C.anchor(m.structs.get('cypher_parser_config') is not None, 'cypher_parser_config')
    if std is None or len(std) != 5:
        raise Undecided('the default configuration')
    num = [x[1] if x[0] == 'c' else 0 if x[0] == 'z' else None for x in std[:4]]
    C.ob('defaults', 'cypher_parser_std_config', num == [1, 1, 0, 0], key='std', msg='parsing does not start at line 1, column 1, offset 0 and ordinal 0 by default')
    none = flat(ginit(m, 'cypher_parser_no_colorization'))
    C.ob('defaults', 'cypher_parser_std_config', none is not None and std[4] == none[0], key='std:colour', msg='errors are coloured by default')
    zero = flat(ginit(m, 'cypher_input_position_zero'))
    if zero is None:
        raise Undecided('cypher_input_position_zero')
    C.ob('defaults', 'cypher_input_position_zero', [x[1] if x[0] == 'c' else 0 for x in zero] == [1, 1, 0], key='zero', msg='the zero position is not line 1, column 1, offset 0')
    # colours: nothing where there are none; where there are some, what is switched on is switched off
    st = m.structs.get('cypher_parser_colorization')
    for pub in ('cypher_parser_no_colorization', 'cypher_parser_ansi_colorization'):
        i = flat(ginit(m, pub))
        if not i or i[0][0] != 'g':
            C.undecided('colours', pub, 'which colours these are')
            continue
        v = flat(ginit(m, i[0][1]))
        if v is None or st is None or len(v) != 2 * len(st['m']):
            C.undecided('colours', pub, 'its members')
            continue
        t = [m.gstr(('g', x[1])) if x[0] == 'g' else None for x in v]
        C.cover['colours'] += len(v)
        for k, mem in enumerate(st['m']):
            on, off = t[2 * k:2 * k + 2]
            what = '%s.%s' % (pub, mem['n'])
            if on is None or off is None:
                C.ob('colours', what, False, key=what, msg='%s is not set' % what)
            elif pub.endswith('no_colorization'):
                C.ob('colours', what, on == '' and off == '', key=what, msg='something is written for %s although there are no colours' % mem['n'])
            else:
                ok = re.fullmatch(r'(\x1b\[\d+(;\d+)*m)*', on) and re.fullmatch(r'(\x1b\[\d*m)?', off)
                reset = on in ('', '\x1b[0m') or off in ('\x1b[0m', '\x1b[m')
                C.ob('colours', what, bool(ok), key=what, msg='%s is not an escape sequence for colours' % what)
                C.ob('colours', what, reset, key=what + ':off', msg='the colour of %s is not switched off after it' % mem['n'])

def setters(C, m):
    size = m.structs['cypher_parser_config']['size']
    def mem(f):
        x = m.field('cypher_parser_config', f)
        if x is None:
            raise Undecided('configurations have no member ' + f)
        return x
    for f in ('initial_position', 'initial_ordinal', 'error_colorization'):
        X = Fun(C, m, 'cypher_parser_config_set_' + f)
        x = mem(f)
        for p in X.paths:
            if p.end[0] != 'ret':
                raise Undecided('loop in ' + X.name)
            if p.null(('arg', 0)):
                continue
            w = [e for j, e in written(p) if e[1] != ('errno',)]
            lo, hi = x['o'], x['o'] + x['s']
            n = 0
            for e in w:
                b, o = (e[1][1], e[1][2]) if e[1][0] == 'addr' else (e[1], 0)
                inside = b == ('arg', 0) and lo <= o < hi
                X.ob('setters', 'only', inside, 'changes something other than its setting', p)
            if f == 'initial_position':
                if len(X.fn.params) == 3:
                    whole = p.load(mkaddr(('arg', 0), lo, ()), 'i64') == ('arg', 1)
                    parts = p.load(mkaddr(('arg', 0), lo, ()), 'i32') == ('arg', 1) and p.load(mkaddr(('arg', 0), lo + 4, ()), 'i32') == ('lshr', ('arg', 1), ('c', 32))
                    X.ob('setters', 'value', (whole or parts) and p.load(mkaddr(('arg', 0), lo + 8, ()), 'i64') == ('arg', 2), 'does not set the position given', p)
                else:
                    raise Undecided('how the position is passed')
            else:
                got = p.load(mkaddr(('arg', 0), lo, ()), 'i32' if x['s'] == 4 else 'ptr')
                X.ob('setters', 'value', got == ('arg', 1), 'does not set the value given', p)
    X = Fun(C, m, 'cypher_parser_new_config')
    for p in X.paths:
        al = [e for e in p.events if e[0] == 'call' and e[1] in ('malloc', 'calloc')]
        if len(al) != 1:
            raise Undecided('how a configuration is allocated')
        a = al[0]
        if p.null(a[3]):
            X.ob('setters', 'oom', p.end[1] in (('null',), a[3]), 'does not report that there is no memory', p)
            continue
        X.ob('setters', 'new', p.end[1] == a[3], 'does not return the configuration', p)
        sz = a[2][-1] if a[1] == 'malloc' else ('c', a[2][0][1] * a[2][1][1]) if a[2][0][0] == a[2][1][0] == 'c' else None
        X.ob('setters', 'size', sz is not None and sz[0] == 'c' and sz[1] >= size, 'does not allocate the whole configuration', p)
        std = ('g', 'cypher_parser_std_config')
        ini = flat(ginit(m, 'cypher_parser_std_config'))
        ip = m.field('cypher_parser_config', 'initial_position')['o']
        sc = [(ip, 'i32'), (ip + 4, 'i32'), (ip + 8, 'i64'), (mem('initial_ordinal')['o'], 'i32'), (mem('error_colorization')['o'], 'ptr')]
        if any(e[0] == 'call' and e is not a for e in p.events):
            raise Undecided('how a configuration gets its defaults')
        for k, (o, ty) in enumerate(sc):
            v = bare(p.load(mkaddr(a[3], o, ()), ty))
            ok = v == ('ld', mkaddr(std, o, ())) or ini is not None and v[0] == 'c' and ini[k][0] == 'c' and v[1] == ini[k][1] or ini is not None and v[0] == 'g' and v == ini[k] or \
                v == ('c', 0) and ini is not None and ini[k][0] == 'z'
            z = ('g', 'cypher_input_position_zero')
            if not ok and k < 3:
                zi = flat(ginit(m, z[1]))
                ok = zi is not None and ini is not None and [tuple(x) for x in zi][k] == ini[k] and \
                    (v == ('ld', mkaddr(z, o - ip, ())) or k < 2 and bare(p.load(mkaddr(a[3], ip, ()), 'i64')) == ('ld', z))
            if not ok and o == ip + 4:
                w = bare(p.load(mkaddr(a[3], ip, ()), 'i64'))
                ok = w == ('ld', mkaddr(std, ip, ()))
            if not ok and v[0] in ('ld', 'call', 'part', 'lshr', 'or') and not (v[0] == 'ld' and root(v[1]) in (std, a[3])):
                raise Undecided('how a configuration gets its defaults')
            X.ob('setters', 'defaults:%d' % k, ok, 'does not start with all the defaults', p)
    X = Fun(C, m, 'cypher_parser_config_free')
    for p in X.paths:
        fr = [e for e in p.events if e[0] == 'call']
        X.ob('setters', 'free', p.null(('arg', 0)) or len(fr) == 1 and fr[0][1] == 'free' and fr[0][2] == (('arg', 0),), 'does not release the configuration', p)

def macros(C):
    raw = front.load('lib', keep=tuple(list(KEEP) + ['parse', 'parse_each', 'uparse', 'uparse_each', 'vp_w1', 'vp_w2', 'vp_w3']), append={'lib/src/parser_config.c': WRAP})
    m = Module(raw)
    for w, mac, fn in (('vp_w1', 'cypher_parse_each', 'cypher_uparse_each'), ('vp_w2', 'cypher_parse', 'cypher_uparse'), ('vp_w3', 'cypher_quick_parse', 'cypher_quick_uparse')):
        f = m.fn(w)
        if f is None:
            C.undecided('strings', mac, 'not found')
            continue
        for p in effects(f, mods=Mods(m)):
            calls = [e for e in p.events if e[0] == 'call']
            cl = [e for e in calls if e[1] == fn]
            sl = [e for e in calls if e[1] == 'strlen']
            key = mac
            if len(cl) != 1:
                C.undecided('strings', mac, 'does not call ' + fn)
                continue
            a = cl[0][2]
            n = len(f.params)
            length = a[1]
            isl = length[0] == 'call' and length[1] == 'strlen' and (not sl or sl[0][2] == (('arg', 0),)) and (isinstance(length[2], int) or length[2] == ('arg', 0))
            ok = a[0] == ('arg', 0) and isl and a[2:] == tuple(('arg', k) for k in range(1, n)) and p.end[1] == cl[0][3]
            C.ob('strings', mac, ok, key=key, msg='%s does not parse the whole string with the arguments given' % mac, path=p.lines())

def c01(C):
    C.rule('defaults', 'parsing starts at line 1, column 1, offset 0, ordinal 0, without colours, unless configured', 3)
    C.rule('colours', 'no colours are no text, and every colour switched on is switched off', 18)
    C.rule('setters', 'a new configuration has the defaults; each setter changes its setting and nothing else', 8)
    C.rule('strings', 'the functions for strings parse the whole string with the same arguments', 3)
    m = lib_module()
    for rule, n, f in (('defaults', 'defaults', defaults), ('setters', 'cypher_parser_config', setters)):
        try:
            f(C, m)
        except Undecided as e:
            C.undecided(rule, n, e)
    try:
        macros(C)
    except Undecided as e:
        C.undecided('strings', 'macros', e)

PROPS = {'C01': c01}
