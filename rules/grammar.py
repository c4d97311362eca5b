"""The grammar and its actions: what the parser builds (G01-G04)."""
import os, re
import front, gact, header, leg
from astmodel import *
from memo import spec

_res = {}

class Result:
    pass

def entry_rules(g):
    """the rules parsing starts from: those parser.c names"""
    s = ''
    for f in ('lib/src/parser.c',):
        p = os.path.join(front.REPO, f)
        if os.path.exists(p):
            s += open(p, encoding='latin1').read()
    out = []
    for x in re.findall(r'\byy_(\w+)\b', s):
        if x in g.rules and x not in out:
            out.append(x)
    return out

def syntax():
    out = {}
    for l in open(os.path.join(front.VERIF, 'spec/syntax.txt')):
        l = l.strip()
        if not l or l.startswith('#'):
            continue
        n, rest = l.split(':', 1)
        need, may, flags, roles = set(), set(), {}, {}
        inb = False
        for w in rest.split():
            if w.startswith('['):
                inb, w = True, w[1:]
            end = inb and w.endswith(']')
            if end:
                w = w[:-1]
            if '<-' in w and not inb:
                p, x = w.split('<-')
                flags[p] = (x.startswith('!'), x.lstrip('!').split(','))
            elif '@' in w and not inb:
                p, x = w.split('@')
                roles[p] = x
            elif w:
                (may if inb else need).add(w)
            if end:
                inb = False
        out['cypher_ast_' + n] = dict(need=need, may=may, flags=flags, roles=roles)
    return out

def opstrings(m):
    """CYPHER_OP_x -> text, precedence, associativity"""
    out = {}
    for n, g in m.globals.items():
        if not re.match(r'CYPHER_OP_\w+$', n) or not g.get('init'):
            continue
        i = g['init']
        t = m.globals.get(i[1]) if i[0] == 'g' else None
        if not t or not t.get('init') or t['init'][0] != 'v':
            continue
        v = t['init'][1]
        num = [x[1] if x[0] == 'c' else 0 for x in v if x[0] in ('c', 'z')]
        st = [m.gstr(x) for x in v if x[0] in ('g', 'ge')]
        out[n] = (st[0] if st else None, num)
    return out

def analyse():
    R = machine()
    if not R.solved:
        R.solved = True
        R.rounds = R.M.solve(R.starts)
    return R

def machine():
    if 'r' in _res:
        return _res['r']
    R = Result()
    R.solved = False
    m = R.m = lib_module(('@all',))
    tt = R.tt = TypeTable(m)
    g = R.g = leg.load('parser.leg')
    R.tokens = gact.token_text(g)
    R.reports = {}
    def report(rule, cur, key, msg, tr):
        R.reports.setdefault((rule, cur, msg), tr)
    R.syn = syntax()
    R.ops = opstrings(m)
    M = R.M = gact.Exec(m, g, spec('ast')['ctors'], tt, None, R.tokens, report)
    anc = {t: tt.ancestors(t) for t in tt.types}
    M.setup(front.generated('parser'), header.cached(), anc, tt.names, gact.macros_of(os.path.join(front.REPO, 'lib/src/parser.c')))
    M.flags = frozenset(w for s in R.syn.values() for w in s['need'] | s['may'])
    M.roles = frozenset(w for s in R.syn.values() for w in s['roles'].values())
    M.optoks = frozenset(t for t, _ in R.ops.values() if t)
    R.unknown = set()
    R.builds, R.thunks, R.pushes, R.opsof = {}, set(), {}, {}
    enum = direction_values()
    def hook(what, S, data):
        if what == 'build':
            n, got, B, cur = data
            R.builds.setdefault((cur, n), 0)
            R.builds[(cur, n)] += 1
            ov = [x for x in got.values() if x[0] == 'op']
            for x in ov:
                R.opsof.setdefault((cur, n), set()).update(x[1])
            if any(x[0] == 'opsat' for x in got.values()):
                for x in S.ops:
                    R.opsof.setdefault((cur, n), set()).update(x)
            syn = R.syn.get(n)
            if syn is None or B is None:
                return
            words = B.toks
            def bad(rule, msg):
                report(rule, cur, None, msg, S.path())
            for w in sorted(syn['need'] - words):
                bad('keyword', '%s is built without %s having been parsed' % (n, w))
            for w in sorted(words - syn['need'] - syn['may']):
                bad('keyword', '%s is built although %s was parsed' % (n, w))
            for p, (neg, ws) in syn['flags'].items():
                v = got.get(p)
                want = any(w in words for w in ws) != neg
                if v is None or v[0] != 'c':
                    if v is not None and v[0] in ('undef', 'E'):
                        bad('flag', '%s: %s is not decided by the syntax' % (n, p))
                    else:
                        R.unknown.add((cur, n, p))
                elif bool(v[1]) != want:
                    bad('flag', '%s: %s is %s although %s was%s parsed' % (n, p, 'true' if v[1] else 'false', ' or '.join(ws), '' if any(w in words for w in ws) else ' not'))
            for p, w in syn['roles'].items():
                v = got.get(p)
                if v is not None and v[0] == 'node' and v[4] != w:
                    bad('role', '%s: %s is not the operand after %s' % (n, p, w))
            if n == 'cypher_ast_rel_pattern' and enum:
                v = got.get('direction')
                want = {(True, False): 'CYPHER_REL_INBOUND', (False, True): 'CYPHER_REL_OUTBOUND'}.get(('<' in words, '>' in words), 'CYPHER_REL_BIDIRECTIONAL')
                if v is not None and v[0] == 'c' and v[1] != enum.get(want):
                    bad('flag', '%s: the direction is not %s for %s' % (n, want, ' '.join(sorted(words & {'<', '>'})) or 'no arrow head'))
        elif what == 'op_push':
            R.pushes.setdefault(M.cur, set()).add((data, S.last))
    M.events.append(hook)
    R.starts = entry_rules(g)
    _res['r'] = R
    return R

def direction_values():
    s = open(os.path.join(front.REPO, 'lib/src/cypher-parser.h.in'), encoding='latin1').read()
    x = re.search(r'enum cypher_rel_direction\s*\{(.*?)\}', s, re.S)
    out, k = {}, 0
    if x:
        body = re.sub(r'/\*.*?\*/|//[^\n]*', '', x.group(1), flags=re.S)
        for part in body.split(','):
            y = re.match(r'\s*(\w+)\s*(?:=\s*(\d+))?\s*$', part)
            if y:
                k = int(y.group(2)) if y.group(2) else k
                out[y.group(1)] = k
                k += 1
    return out

TEXT = {
    'type': 'an operand of a node is a node of a kind the node type allows; a required operand is never missing',
    'member': 'an operand of a node is among the children of the block the node is made of',
    'children': 'a node gets all children of its block, and a list operand all collected nodes',
    'undefined': 'an operand was set on every path that reaches the constructor',
    'null': 'a missing value is never collected in a list',
    'text': 'the text of a terminal is that collected since the buffer was reset, or that of its block',
    'dropped': 'every operand that was parsed is part of the node built of the block',
    'sequence': 'every node collected is passed to the node built of the block',
    'lost': 'children of a block go to a node or to the enclosing block before the block is released',
    'owner': 'a node is the child of one block only',
    'terminal': 'a node without children is made of a block without children',
    'order': 'operands of one kind are passed and collected in the order in which they were parsed',
    'block': 'a node is made of the block that was closed last, which has not been released',
    'operators': 'every matched operator is passed to the node it belongs to',
    'final': 'a complete parse leaves one open block, no collected nodes, no closed block and no operators',
    'keyword': 'a node is built exactly for the keywords of its syntax',
    'flag': 'a flag of a node says whether its keyword was parsed',
    'role': 'an operand is the one that stands after the keyword of its role',
}

def emit(c, R, rules):
    g, M = R.g, R.M
    c.anchor(R.starts, 'the rules parsing starts from (yy_... in parser.c)')
    sp = spec('ast')['ctors']
    for r in rules:
        c.rule(r, TEXT[r], floor=2 if r == 'final' else 20)
    seen = set()
    for (rule, cur, msg), tr in R.reports.items():
        if rule in rules:
            what = 'lib/src/parser.leg:%s rule %s %s' % (g.line.get(cur[0], '?'), cur[0], cur[1])
            c.ob(rule, what, False, key='%s:%s' % (cur[0], msg), msg=msg, path=tr)
            seen.add((rule, cur))
    n = 0
    for (cur, ctor) in sorted(R.builds):
        n += 1
        for r in rules:
            if r in ('final',) or (r, cur) in seen:
                continue
            if r in ('keyword', 'flag', 'role') and ctor not in R.syn:
                continue
            if r == 'flag' and not R.syn[ctor]['flags'] and ctor != 'cypher_ast_rel_pattern' or r == 'role' and not R.syn[ctor]['roles']:
                continue
            c.ob(r, '%s in rule %s' % (ctor, cur[0]), True)
    for cur, ctor, p in sorted(R.unknown) if 'flag' in rules else ():
        c.undecided('flag', '%s in rule %s' % (ctor, cur[0]), 'value of %s' % p)
    for r, why in sorted(M.undecided.items()):
        c.undecided(rules[0], 'rule ' + r, why)
    c.cover['grammar rules followed'] = len(M.reach(R.starts))
    c.cover['rule summaries computed'] = R.rounds
    c.cover['node constructions'] = n
    c.cover['abstract constructions judged'] = sum(R.builds.values())
    c.assume.append('leg runs the actions of the elements that matched, in order, and drops those of alternatives that failed')

def final(c, R):
    M = R.M
    for r in R.starts:
        if r not in M.sum:
            c.undecided('final', 'rule ' + r, M.undecided.get(r, 'not followed'))
            continue
        for t in M.sum[r]:
            w = 'rule ' + r
            c.ob('final', w, t.frames == (0,), key=r + ':frames', msg='blocks are opened and closed unevenly', path=t.path())
            c.ob('final', w, t.prev in ('E', None), key=r + ':closed', msg='a closed block is left over', path=t.path())
            c.ob('final', w, not t.ops, key=r + ':ops', msg='operators are left over', path=t.path())
            c.ob('final', w, t.heap[0].seq.n == 0, key=r + ':seq', msg='collected nodes are left over', path=t.path())
            ok = t.result[0] == 'null' or t.result[0] == 'node' and t.result[3] in t.heap[0].unref
            c.ob('final', w, ok, key=r + ':result', msg='the directive reported is neither NULL nor one of the roots', path=t.path())

def G01(c):
    R = analyse()
    emit(c, R, ['type', 'member', 'children', 'undefined', 'null', 'text'])
    for r in R.starts:
        for t in R.M.sum.get(r, ()):
            c.ob('text', 'rule ' + r, not t.need, key=r, msg='the string buffer is not reset before text is collected', path=t.path())

def G02(c):
    R = analyse()
    emit(c, R, ['dropped', 'sequence', 'lost', 'owner', 'terminal', 'order', 'block', 'operators', 'final'])
    final(c, R)

def G03(c):
    emit(c, analyse(), ['keyword', 'flag', 'role'])

PROPS = {'G01': G01, 'G02': G02, 'G03': G03}
