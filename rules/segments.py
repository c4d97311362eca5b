"""How a parse proceeds: S01 (segments and callback), N01 (input), Q02 (quick parser)."""
import re
import front, header
from ir import *
from astmodel import lib_module, KEEP
from effects import effects, Mods

KEEP_S = tuple(KEEP + ['block_free', 'cypher_parse_segment', 'cypher_parse_segment_release', 'cp_et_init', 'cp_et_cleanup', 'cp_errors_vcleanup', 'input_position',
                       'block_start', 'cp_sb_cleanup', 'cypher_parse_result_free', 'cp_result_merge_segment', 'yyrelease', 'safe_yyparsefrom', 'source_from_buffer', 'source_from_stream'])

def flag_values():
    s = open(front.REPO + '/lib/src/cypher-parser.h.in').read()
    out = {}
    for m in re.finditer(r'#define\s+(CYPHER_PARSE_\w+)\s+(?:\(\s*(\d+)\s*<<\s*(\d+)\s*\)|\(?(0x[0-9a-fA-F]+|\d+)\)?)\s*$', s, re.M):
        out[m.group(1)] = int(m.group(2)) << int(m.group(3)) if m.group(2) else int(m.group(4), 0)
    return out

def reaches(m, names):
    """functions from which a function of `names` is called"""
    up = {}
    for fn in m.fns():
        for b in fn.blocks:
            for i in b:
                if i['op'] == 'call' and i.get('callee'):
                    up.setdefault(i['callee'], set()).add(fn.name)
    out, work = set(), list(names)
    while work:
        n = work.pop()
        if n in out:
            continue
        out.add(n)
        work += up.get(n, ())
    return out

def src(m, n):
    """source name of a function of the module"""
    return m.raw[n]['src'] if n in m.raw else n

class Parse:
    """a public parse function: the paths through it and the objects on them"""
    def __init__(self, m, name, each):
        self.m, self.name, self.each = m, name, each
        self.fn = m.fn(name)
        if self.fn is None:
            raise Undecided('no function ' + name)
        self.yyid = None
        for b in self.fn.blocks:
            for i in b:
                if i['op'] == 'alloca' and re.match(r'%struct\._yycontext(\.\d+)?$', i.get('aty', '')):
                    self.yyid, self.size = i['id'], i['asz']
        if self.yyid is None:
            raise Undecided('the parser context is not local to %s' % name)
        self.yy = ('alloca', self.yyid)
        self.st = m.structs.get('_yycontext@%d' % self.size)
        if self.st is None:
            raise Undecided('no description of the parser context')
        self.ro = [n for n in m.raw if src(m, n) == 'input_position']
        self.paths = effects(self.fn, limit=6000, readonly=self.ro, mods=Mods(m), peel=True)
        self.po = [(self.member('cypher_input_position', f), w) for f, w in (('line', 'i32'), ('column', 'i32'), ('offset', 'i64'))]

    def pos(self, p, k, addr):
        """the three members of the position at addr before event k (None: at the end)"""
        return [p.load(mkaddr(addr, o, ()), w) if k is None else p.load_at(k, mkaddr(addr, o, ()), w) for o, w in self.po]
    def is_pos(self, got, addr):
        return all(is_load(g, mkaddr(addr, o, ())) for g, (o, w) in zip(got, self.po))
    def call_of(self, got):
        """the call whose result (a position) the members are"""
        def word(g, o):
            if o % 8 and g[0] == 'part' and g[2] == o % 8:
                g = g[1]
            elif o % 8 and g[0] == 'lshr' and g[2] == ('c', 8 * (o % 8)):
                g = g[1]
            elif o % 8:
                return None
            return g[2] if g[0] == 'extractvalue' and g[1] == (o // 8,) else None
        cs = {word(g, o) for g, (o, w) in zip(got, self.po)}
        return cs.pop() if len(cs) == 1 else None
    def off(self, f):
        for x in self.st['m']:
            if x['n'] == f:
                return x['o']
        raise Undecided('parser context has no member ' + f)
    def at(self, f, more=0):
        return mkaddr(self.yy, self.off(f) + more, ())
    def arg(self, n):
        k = self.fn.pindex(n)
        if k is None:
            raise Undecided('%s has no parameter %s' % (self.name, n))
        return ('arg', k)
    def member(self, struct, f):
        x = self.m.field(struct, f)
        if x is None:
            raise Undecided('no member %s of %s' % (f, struct))
        return x['o']

def is_load(e, addr):
    return e is not None and e[0] == 'ld' and e[1] == addr

def truthy(e):
    """strip the normalisations of a bool"""
    while True:
        if e[0] == 'cmp' and e[1] == 'ne' and e[3] == ('c', 0):
            e = e[2]
        elif e[0] == 'and' and e[1] == ('c', 1):
            e = e[2]
        elif e[0] in ('zext', 'trunc'):
            e = e[1]
        else:
            return e

def sign(p, v):
    """'+', '-', '0', '?' of an int on the path"""
    gt = p.facts.get(('cmp', 'slt', ('c', 0), v))
    ge = p.facts.get(('cmp', 'slt', ('c', -1), v))
    lt = p.facts.get(('cmp', 'slt', v, ('c', 0)))
    le = p.facts.get(('cmp', 'slt', v, ('c', 1)))
    eq = p.facts.get(('cmp', 'eq', v, ('c', 0)))
    s = {'+', '0', '-'}
    for f, t, no in ((gt, '+', '0-'), (ge, '+0', '-'), (lt, '-', '0+'), (le, '-0', '+'), (eq, '0', '+-')):
        if f is True:
            s &= set(t)
        elif f is False:
            s &= set(no)
    return ''.join(sorted(s))

def flag(p, arg, bit):
    """is the flag set on the path: True, False or None"""
    for a, v in p.facts.items():
        if a[0] == 'cmp' and a[1] == 'eq' and a[3] == ('c', 0) and a[2][0] == 'and' and set(a[2][1:]) == {arg, ('c', bit)}:
            return not v
        if a[0] == 'cmp' and a[1] == 'eq' and a[3] == ('c', bit) and a[2][0] == 'and' and set(a[2][1:]) == {arg, ('c', bit)}:
            return v
    return None

def boolfact(p, addr):
    """what the path knows of the bool stored at addr (from the last test)"""
    out = None
    for a, v, _ in p.order:
        e = a
        neg = False
        if e[0] == 'bool':
            e = e[1]
        elif e[0] == 'cmp' and e[1] == 'eq' and e[3] == ('c', 0):
            e, neg = e[2], True
        else:
            continue
        if is_load(truthy(e), addr):
            out = v != neg
    return out

PURE_SCALARS = ('llvm.', 'free')

def check_parse(C, P, stream, each, flags):
    m, fn, yy = P.m, P.fn, P.yy
    parsers = reaches(m, [n for n in m.raw if src(m, n) == 'yyparsefrom'])
    mergers = reaches(m, ['cp_result_merge_segment'])
    A = P.arg
    fail = ('c', -1) if each else ('null',)
    fl = A('flags')
    config = A('config')
    nseg = m.structs.get('cypher_parse_segment')
    def bad(rule, key, msg, p=None):
        C.ob(rule, P.name, False, key='%s:%s' % (P.name, key), msg=msg, path=p.lines() if p else None)
    stats = dict(paths=len(P.paths), rounds=0)
    for p in P.paths:
        ev = p.events
        conf = ('g', 'cypher_parser_std_config') if p.null(config) else config
        loops = [k for k, e in enumerate(ev) if e[0] == 'loop']
        pc = [k for k, e in enumerate(ev) if e[0] == 'call' and isinstance(e[1], str) and e[1] in parsers and e[2] and e[2][0] == yy]
        cb = []
        for k, e in enumerate(ev):
            if e[0] != 'call':
                continue
            if each and not isinstance(e[1], str) and e[1] == A('callback'):
                cb.append(k)
            elif not each and isinstance(e[1], str) and e[1] in mergers:
                cb.append(k)
            elif not isinstance(e[1], str):
                raise Undecided('call of an unknown function in ' + P.name)
        segs = [k for k, e in enumerate(ev) if e[0] == 'call' and isinstance(e[1], str) and src(m, e[1]) == 'cypher_parse_segment']
        ret = p.end[1] if p.end[0] == 'ret' else None
        C.n['_paths'] = C.n.get('_paths', 0)
        if not pc:
            if p.end[0] == 'back':
                continue      # a round of a loop of the preparation or of a loop that frees
            # nothing was parsed: the arguments are refused or memory ran out
            if cb:
                bad('rounds', 'early', 'the callback is called before anything is parsed', p)
            req = [A('stream' if stream else 's')] + ([A('callback')] if each else [])
            refused = any(p.null(a) for a in req)
            oom = any((a[0] == 'cmp' and a[1] == 'eq' and a[2][0] == 'call' and (v if a[3] == ('null',) else not v)) for a, v in p.facts.items() if a[0] == 'cmp' and a[1] == 'eq')
            if not (refused or oom):
                bad('rounds', 'refuse', 'returns without parsing although its arguments are valid and no allocation failed', p)
            elif ret != fail:
                bad('result', 'early', 'returns success without having parsed anything', p)
            else:
                C.ob('result', '%s: refused' % P.name, True)
            continue
        if len(pc) > 1:
            bad('rounds', 'twice', 'the parser is entered twice for one segment', p)
            continue
        k0 = pc[0]
        call = ev[k0]
        direct = src(m, call[1])
        rc = call[3]
        s = sign(p, rc)
        # which rule, from what state
        rule = call[2][1] if len(call[2]) > 1 else None
        only = flag(p, fl, flags['CYPHER_PARSE_ONLY_STATEMENTS'])
        if rule is not None and rule[0] == 'g' and only is None and not any(fl in walk(a) for a in p.facts):
            bad('rule', 'rule', 'the parse starts at rule %s whether or not CYPHER_PARSE_ONLY_STATEMENTS is given' % src(m, rule[1])[3:], p)
        elif rule is None or rule[0] != 'g' or only is None:
            C.undecided('rule', P.name, 'the grammar rule is not selected by the flag in a way that is understood')
        else:
            want = 'yy_statement' if only else 'yy_directive'
            C.ob('rule', '%s: %s' % (P.name, rule[1]), src(m, rule[1]) == want, key=P.name + ':rule',
                 msg='with%s CYPHER_PARSE_ONLY_STATEMENTS the parse starts at rule %s instead of %s' % ('' if only else 'out', src(m, rule[1])[3:], want[3:]), path=p.lines())
        r0, e0 = p.load_at(k0, P.at('result')), p.load_at(k0, P.at('eof'), 'i8')
        C.ob('reset', P.name, r0 in (('null',), ('c', 0)) and e0 == ('c', 0), key=P.name + ':reset',
             msg='the directive or the end of input mark of the previous segment is still set when the next one is parsed', path=p.lines())
        # the state at the first round
        lk = [k for k in loops if k < k0]
        if len(lk) != 1:
            C.undecided('start', P.name, 'no single loop over the segments')
            continue
        L = lk[0]
        def before(f, more=0):
            return p.load_at(L, P.at(f, more))
        # position and ordinal come from the configuration
        got = P.pos(p, L, P.at('position_offset'))
        ip = P.member('cypher_parser_config', 'initial_position')
        own = mkaddr(p.load_at(L, P.at('config')), ip, ())
        C.ob('start', P.name, P.is_pos(got, mkaddr(conf, ip, ())) or P.is_pos(got, own), key=P.name + ':position', msg='parsing does not start at the initial position of the configuration', path=p.lines())
        src_ok = before('source')
        C.ob('start', P.name, src_ok[0] == 'g' and before('source_data')[0] in ('alloca', 'arg'), key=P.name + ':source', msg='the input is not set before parsing', path=p.lines())
        inits = [k for k, e in enumerate(ev[:L]) if e[0] == 'call' and isinstance(e[1], str) and src(m, e[1]) == 'cp_et_init']
        if len(inits) == 1:
            c = ev[inits[0]][2][1]
            ok = c[0] == 'ld' and c[1][0] == 'addr' and c[1][2] == P.member('cypher_parser_config', 'error_colorization') and \
                (c[1][1] == conf or is_load(c[1][1], P.at('config')))
            C.ob('start', P.name, ok, key=P.name + ':colour', msg='errors are not coloured by the colorization of the configuration', path=p.lines())
        else:
            C.undecided('start', P.name, 'cp_et_init is not called once')
        # success of the parse call
        if 'safe' in direct or direct == 'yyparsefrom':
            okk, nok = '+', '-0'
        elif direct == 'parse_one':
            okk, nok = '0', '+-'
        else:
            raise Undecided('unknown parse function ' + direct)
        if not set(s) <= set(okk) and not set(s) <= set(nok):
            bad('rounds', 'unchecked', 'the outcome of the parse is not looked at', p)
            continue
        if set(s) <= set(nok):
            if cb:
                bad('rounds', 'failed', 'the callback is called for a segment that failed to parse', p)
            elif p.end[0] == 'back':
                if p.end[1] == ev[L][1]:
                    bad('rounds', 'failed', 'parsing continues after a failure', p)
            else:
                C.ob('result', '%s: failed parse' % P.name, ret == fail, key=P.name + ':failed', msg='a failed parse is not reported as a failure', path=p.lines())
            if p.end[0] == 'ret':
                cleanup(C, P, p, L, bad)
            continue
        cons = P.at('consumed')
        cz = None
        for a, v in p.facts.items():
            if a[0] == 'cmp' and a[1] == 'eq' and a[3] == ('c', 0) and is_load(a[2], cons):
                cz = v
        if cz is None:
            C.undecided('rounds', P.name, 'the amount consumed is not tested')
            continue
        if cz:
            if cb or segs:
                bad('rounds', 'empty', 'a segment is delivered although nothing was consumed', p)
            elif p.end[0] == 'ret':
                C.ob('result', '%s: end of input' % P.name, ret == ('c', 0) if each else ret is not None and ret[0] == 'call', key=P.name + ':end',
                     msg='the end of the input is reported as a failure', path=p.lines())
                cleanup(C, P, p, L, bad)
            elif p.end[0] == 'back' and p.end[1] == ev[L][1]:
                bad('rounds', 'endless', 'parsing continues although nothing was consumed', p)
            continue
        if p.end[0] == 'back' and p.end[1] != ev[L][1]:
            continue
        stats['rounds'] += 1
        if len(segs) != 1 or len(ev[segs[0]][2]) != 8:
            C.undecided('segment', P.name, 'the segment is not built by one call of cypher_parse_segment')
            continue
        ks = segs[0]
        sa, seg = ev[ks][2], ev[ks][3]
        # what the segment is built from
        hdr = ev[L][2]
        def is_end(got):
            """is it the position after the consumed text?"""
            c = P.call_of(got)
            return c is not None and posof(c)
        def posof(c):
            for k, e in enumerate(ev):
                if e[0] == 'call' and e[3] == c and e[1] in P.ro:
                    return e[2][0] == yy and is_load(e[2][1], cons)
            return False
        def poscall(got):
            c = P.call_of(got)
            for k, e in enumerate(ev):
                if e[0] == 'call' and e[3] == c:
                    return k
        C.ob('segment', P.name, sa[0][0] == 'phi' and sa[0][1] in hdr, key=P.name + ':ordinal', msg='the ordinal of the segment is not the one the previous segment ended with', path=p.lines())
        ro = {f: P.member('cypher_input_range', f) for f in ('start', 'end')}
        rend = P.pos(p, ks, mkaddr(sa[1], ro['end'], ()))
        C.ob('segment', P.name, P.is_pos(P.pos(p, ks, mkaddr(sa[1], ro['start'], ())), P.at('position_offset')), key=P.name + ':start',
             msg='the range of the segment does not start where the previous one ended', path=p.lines())
        endok = is_end(rend)
        C.ob('segment', P.name, endok, key=P.name + ':endpos', msg='the range of the segment does not end after the text it consumed', path=p.lines())
        et = P.off('error_tracking')
        eo = {f: P.member('cp_error_tracking', f) for f in ('errors', 'nerrors')}
        C.ob('segment', P.name, is_load(sa[2], mkaddr(yy, et + eo['errors'], ())) and is_load(sa[3], mkaddr(yy, et + eo['nerrors'], ())),
             key=P.name + ':errors', msg='the segment does not get all the errors recorded', path=p.lines())
        tops = [e[3] for e in ev[:L] if e[0] == 'call' and isinstance(e[1], str) and src(m, e[1]) == 'block_start']
        if len(tops) != 1:
            C.undecided('segment', P.name, 'no single top-most block')
            continue
        top = tops[0]
        co = P.member('block', 'children')
        vo = {f: P.member('cp_vector', f) for f in m_vec(m)}
        C.ob('segment', P.name, is_load(sa[4], mkaddr(top, co + vo['elements'], ())) and is_load(sa[5], mkaddr(top, co + vo['length'], ())),
             key=P.name + ':roots', msg='the segment does not get all the nodes parsed', path=p.lines())
        C.ob('segment', P.name, is_load(sa[6], P.at('result')), key=P.name + ':directive', msg='the directive of the segment is not the one parsed', path=p.lines())
        C.ob('segment', P.name, is_load(truthy(sa[7]), P.at('eof')), key=P.name + ':eof', msg='the end of input mark of the segment is not that of the parse', path=p.lines())
        # the last position
        last = A('last')
        ln = p.null(last)
        kl = [k for k, e in enumerate(ev) if e[0] in ('store', 'copy') and (e[1] == last or e[1][0] == 'addr' and e[1][1] == last)]
        lst = P.pos(p, kl[-1] + 1 if kl[-1] + 1 < len(ev) else None, last) if kl else [('none',)] * 3
        if ln is None:
            bad('last', 'unchecked', 'the position is stored through `last` without testing it for NULL' if is_end(lst) else '`last` is not set', p)
        elif not ln:
            C.ob('last', P.name, is_end(lst), key=P.name + ':last', msg='*last is not the position after the text consumed', path=p.lines())
        # out of memory for the segment
        if p.null(seg) is None:
            bad('rounds', 'segnull', 'the segment is used although its allocation may have failed', p)
            continue
        if p.null(seg):
            if cb:
                bad('rounds', 'segnull', 'the callback is called without a segment', p)
            else:
                C.ob('result', '%s: no memory' % P.name, p.end[0] == 'ret' and ret == fail, key=P.name + ':oom', msg='running out of memory is not reported', path=p.lines())
                handed = [e for e in ev[ks:] if e[0] == 'store' and e[1] == mkaddr(yy, et + eo['nerrors'], ())]
                C.ob('handover', P.name, not handed, key=P.name + ':lost', msg='errors are forgotten although no segment holds them', path=p.lines())
            if p.end[0] == 'ret':
                cleanup(C, P, p, L, bad)
            continue
        # the segment now owns errors and roots
        tail = ev[ks + 1:]
        h1 = any(e[0] == 'store' and e[1] == mkaddr(yy, et + eo['nerrors'], ()) and e[2] == ('c', 0) for e in tail) or \
            any(e[0] == 'call' and isinstance(e[1], str) and src(m, e[1]) in ('cp_et_clear_errors', 'cp_et_extract_errors') for e in tail)
        h2 = any(e[0] == 'call' and e[1] == 'cp_vector_clear' and e[2] == (mkaddr(top, co, ()),) for e in tail) or \
            any(e[0] == 'store' and e[1] == mkaddr(top, co + vo['length'], ()) and e[2] == ('c', 0) for e in tail)
        C.ob('handover', P.name, h1, key=P.name + ':errors', msg='the errors stay with the parser after the segment has taken them', path=p.lines())
        C.ob('handover', P.name, h2, key=P.name + ':roots', msg='the nodes stay with the parser after the segment has taken them', path=p.lines())
        # the callback
        if len(cb) != 1:
            bad('rounds', 'callback', 'the callback is called %s for a segment' % ('more than once' if cb else 'not at all'), p)
            continue
        kc = cb[0]
        args = ev[kc][2]
        if each:
            C.ob('rounds', P.name, args == (A('userdata'), seg), key=P.name + ':cbargs', msg='the callback does not get the user data and the segment', path=p.lines())
        else:
            res = args[0]
            C.ob('rounds', P.name, args[1] == seg and res[0] == 'call' and res[1] in ('calloc',), key=P.name + ':cbargs', msg='the segment is not merged into the result', path=p.lines())
        rel = [k for k, e in enumerate(ev) if e[0] == 'call' and e[1] == 'cypher_parse_segment_release' and e[2] == (seg,)]
        C.ob('rounds', P.name, len(rel) == 1 and rel[0] > kc, key=P.name + ':release',
             msg='the segment is released %s' % ('before the callback' if rel and rel[0] < kc else 'twice' if rel else 'never'), path=p.lines())
        if rel:
            for e in ev[rel[0]:]:
                for x in (walk_all(e)):
                    pass
        rcv = ev[kc][3]
        s = sign(p, rcv)
        if s == '+-0' or s == '+-' or len(s) > 1 and not each and False:
            if s == '+-0':
                bad('rounds', 'unchecked', 'the value returned by the callback is ignored', p)
                continue
        single = flag(p, fl, flags['CYPHER_PARSE_SINGLE'])
        eof = boolfact_after(p, P.at('eof'), ks)
        if p.end[0] == 'ret':
            ok_ret = ret == ('c', 0) if each else ret is not None and ret == args[0]
            if each and '0' not in s and clamped(p, ret, rcv):
                C.ob('result', '%s: clamped' % P.name, True)
            elif s == '+' and not each:
                if may_be_positive(m, ev[kc][1]):
                    bad('rounds', 'stopped', 'the parse may end before the end of the input', p)
            elif s == '+':
                C.ob('result', '%s: stopped' % P.name, ok_ret, key=P.name + ':stop', msg='a positive value of the callback does not end the parse successfully', path=p.lines())
            elif s == '-':
                C.ob('result', '%s: callback failed' % P.name, ret == rcv if each else ret == fail, key=P.name + ':neg', msg='the negative value of the callback is not returned', path=p.lines())
            elif s == '0':
                oom = any(a[0] == 'cmp' and a[1] == 'eq' and a[2][0] == 'call' and isinstance(a[2][1], str) and a[3] == ('c', 0) and not v and
                          any(e[0] == 'call' and e[3] == a[2] for e in ev[kc + 1:]) for a, v in p.facts.items())
                if oom:
                    C.ob('result', '%s: no memory' % P.name, ret == fail, key=P.name + ':oom2', msg='a failure after the callback is not reported', path=p.lines())
                elif single or eof:
                    C.ob('result', '%s: done' % P.name, ok_ret, key=P.name + ':done', msg='reaching the end is reported as a failure', path=p.lines())
                elif single is None and eof is None:
                    C.undecided('rounds', P.name, 'why the parse ends is not understood')
                else:
                    bad('rounds', 'short', 'parsing ends before the end of the input', p)
            else:
                bad('rounds', 'sign', 'the value returned by the callback is not told apart (%s)' % s, p)
            cleanup(C, P, p, L, bad)
        elif p.end[0] == 'back':
            if s != '0':
                bad('rounds', 'goon', 'parsing continues although the callback returned a value other than 0', p)
                continue
            if single is not False:
                bad('rounds', 'single', 'parsing continues after the first segment in spite of CYPHER_PARSE_SINGLE', p)
            if eof is not False:
                bad('rounds', 'eof', 'parsing continues after the end of the input', p)
            # state for the next round
            po = P.pos(p, None, P.at('position_offset'))
            C.ob('next', P.name, is_end(po), key=P.name + ':offset', msg='the next segment does not start at the position where this one ended', path=p.lines())
            lso = P.at('line_start_offsets')
            clr = [k for k, e in enumerate(ev) if k > k0 and e[0] == 'call' and e[1] == 'cp_vector_clear' and e[2] == (lso,)]
            psh = [k for k, e in enumerate(ev) if k > k0 and e[0] == 'call' and e[1] == 'cp_vector_push' and e[2][0] == lso]
            okl = len(clr) >= 1 and len(psh) == 1 and clr[-1] < psh[0] and p.load_at(psh[0], ev[psh[0]][2][1], 'i32') == ('c', 0)
            C.ob('next', P.name, okl, key=P.name + ':lines', msg='the line starts of this segment are kept for the next one', path=p.lines())
            if okl and endok:
                used = [poscall(x) for x in (rend,) + ((lst,) if ln is False and is_end(lst) else ()) + ((po,) if is_end(po) else ())]
                st = [k for k, e in enumerate(ev) if k > k0 and (e[0] == 'copy' and e[1] == P.at('position_offset') or e[0] == 'store' and e[1] == P.at('position_offset'))]
                C.ob('next', P.name, max(used) < clr[0] and (not st or max(used) < st[0]), key=P.name + ':order',
                     msg='a position of this segment is computed after the state for the next one was set', path=p.lines())
            back = p.back
            ph = sa[0]
            if ph[0] == 'phi' and ph[1] in back:
                nx = back[ph[1]]
                want = mkaddr(seg, P.member('cypher_parse_segment', 'nnodes'), ())
                ok = nx[0] == 'add' and len(nx) == 3 and ph in nx[1:] and any(is_load(x, want) for x in nx[1:])
                C.ob('next', P.name, ok, key=P.name + ':ordinal', msg='the ordinals of the next segment do not continue after the nodes of this one', path=p.lines())
                ld = [x for x in nx[1:] if is_load(x, want)] if ok else []
                if ld and rel:
                    C.ob('next', P.name, not used_after(p, ld[0], rel[0]), key=P.name + ':released', msg='the segment is read after its release', path=p.lines())
                init = hdr[ph[1]]
                oa = P.member('cypher_parser_config', 'initial_ordinal')
                C.ob('start', P.name, init[0] == 'ld' and init[1][0] == 'addr' and init[1][2] == oa and (init[1][1] == conf or is_load(init[1][1], P.at('config'))),
                     key=P.name + ':ordinal', msg='numbering does not start at the initial ordinal of the configuration', path=p.lines())
    C.cover['paths'] += stats['paths']
    C.cover['rounds with a segment'] += stats['rounds']

def clamped(p, ret, rv):
    """is it the value if that is negative, and 0 otherwise?"""
    if ret is None:
        return False
    if ret[0] == 'smin' and set(ret[1:]) == {rv, ('c', 0)}:
        return True
    if ret[0] == 'ite' and len(ret) == 4 and ret[1][0] == 'cmp':
        c, a, b = ret[1:]
        neg = c == ('cmp', 'slt', rv, ('c', 0)) or c == ('cmp', 'slt', rv, ('c', 1)) and p.facts.get(('cmp', 'eq', rv, ('c', 0))) is False
        pos = c == ('cmp', 'slt', ('c', 0), rv) or c == ('cmp', 'slt', ('c', -1), rv)
        return neg and (a, b) == (rv, ('c', 0)) or pos and (a, b) == (('c', 0), rv)
    return False

def may_be_positive(m, n):
    return any(p.end[0] == 'ret' and p.end[1] is not None and not (p.end[1][0] == 'c' and p.end[1][1] <= 0) and
               sign(p, p.end[1]).find('+') >= 0 and not (p.end[1][0] == 'call' and p.end[1][1] in m.raw and p.end[1][1] != n and not may_be_positive(m, p.end[1][1]))
               for p in effects(m.fn(n), limit=6000))

def m_vec(m):
    return ('elements', 'length')

def walk_all(e):
    return ()

def used_after(p, ld, k):
    """was the load made after event k (its version says so)?"""
    if len(ld) < 3 or ld[2][0] != 'after':
        return False
    for e in p.events[k:]:
        if e[0] == 'call' and e[3][0] == 'call' and len(e[3]) > 2 and e[3][2] == ld[2][1]:
            return True
    return False

def boolfact_after(p, addr, k):
    out = None
    for a, v, kk in p.order:
        if kk <= k:
            continue
        e, neg = a, False
        if e[0] == 'bool':
            e = e[1]
        elif e[0] == 'cmp' and e[1] == 'eq' and e[3] == ('c', 0):
            e, neg = e[2], True
        else:
            continue
        if is_load(truthy(e), addr):
            out = v != neg
    return out

def cleanup(C, P, p, L, bad):
    """everything the parser holds is released once on the way out"""
    m, ev = P.m, p.events
    held = [e[2][0] for e in ev if e[0] == 'call' and e[1] == 'cp_vector_init' and e[2][0][0] == 'addr' and e[2][0][1] == P.yy]
    rel = {}
    for e in ev[L:]:
        if e[0] == 'call' and isinstance(e[1], str):
            n = src(m, e[1])
            if n in ('cp_vector_cleanup', 'cp_et_cleanup', 'cp_sb_cleanup', 'yyrelease', 'block_free', 'cypher_parse_result_free'):
                rel.setdefault((n, e[2][0]), 0)
                rel[(n, e[2][0])] += 1
    want = [('cp_vector_cleanup', a, 'a vector of the parser') for a in held]
    want.append(('yyrelease', P.yy, 'the input buffer'))
    if 'cp_et_cleanup' in m.raw and any(x['n'] == 'error_tracking' for x in P.st['m']):
        want.append(('cp_et_cleanup', P.at('error_tracking'), 'the error tracking'))
    if any(src(m, n) == 'cp_sb_cleanup' for n in m.raw) and any(x['n'] == 'string_buffer' for x in P.st['m']):
        want.append(('cp_sb_cleanup', P.at('string_buffer'), 'the string buffer'))
    tops = [e[3] for e in ev[:L] if e[0] == 'call' and isinstance(e[1], str) and src(m, e[1]) == 'block_start']
    for t in tops:
        want.append(('block_free', t, 'the top-most block'))
    for n, a, what in want:
        k = rel.get((n, a), 0)
        C.ob('release', '%s: %s' % (P.name, what), k == 1, key='%s:%s:%s' % (P.name, n, a[2] if a[0] == 'addr' else ''),
             msg='%s is released %s on the way out' % (what, 'more than once' if k else 'not'), path=p.lines())
    if not P.each:
        res = [e[3] for e in ev if e[0] == 'call' and e[1] == 'calloc']
        if res and p.end[0] == 'ret':
            k = rel.get(('cypher_parse_result_free', res[0]), 0)
            C.ob('release', '%s: result' % P.name, k == (1 if p.end[1] == ('null',) else 0), key=P.name + ':result',
                 msg='the result is %s' % ('not released when the parse fails' if p.end[1] == ('null',) else 'released although it is returned'), path=p.lines())

def s01(C):
    C.rule('rule', 'the flag selects the grammar rule at which the parse of every segment starts', 4)
    C.rule('start', 'position, ordinal, colours and input are those of the configuration and the arguments', 4)
    C.rule('reset', 'directive and end of input mark are reset before each segment', 4)
    C.rule('rounds', 'each segment is delivered once to the callback; what it returns decides whether parsing goes on', 4)
    C.rule('segment', 'a segment is built from exactly what its parse left in the parser', 4)
    C.rule('last', 'the position after the last segment is stored through `last`', 4)
    C.rule('handover', 'errors and nodes belong to the segment once it exists', 4)
    C.rule('next', 'the next segment starts with the position and ordinal at which this one ended', 4)
    C.rule('result', 'the value returned says whether the parse succeeded', 4)
    C.rule('release', 'everything the parser holds is released once on every way out', 4)
    m = lib_module(KEEP_S)
    flags = flag_values()
    C.anchor('CYPHER_PARSE_SINGLE' in flags and 'CYPHER_PARSE_ONLY_STATEMENTS' in flags, 'parse flags')
    for name, stream, each in (('cypher_uparse_each', 0, 1), ('cypher_fparse_each', 1, 1), ('cypher_uparse', 0, 0), ('cypher_fparse', 1, 0)):
        C.anchor(m.fn(name) is not None, name)
        try:
            P = Parse(m, name, each)
            check_parse(C, P, stream, each, flags)
        except Undecided as e:
            C.undecided('rounds', name, e)

PROPS = {'S01': s01}
