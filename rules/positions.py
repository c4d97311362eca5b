"""Line, column and offset of everything parsed: P01."""
import re
from ir import *
from astmodel import lib_module, KEEP
from pathkit import *

KEEP_P = tuple(KEEP + ['input_position', 'backtrack_lines', 'line_start', 'block_free', 'block_start_action', 'block_end_action', 'block_replace_action',
                       'block_merge_action', 'cp_et_note_potential_error', '_err', 'finished', 'line_context'])

class Parser:
    """the members of the parser context"""
    def __init__(self, m, want='line_start_offsets', quick=False):
        self.m = m
        self.st = None
        for n, s in m.structs.items():
            f = {x['n'] for x in s['m']}
            if n.startswith('_yycontext') and want in f and ('error_tracking' in f) != quick:
                self.st = s
        if self.st is None:
            raise Undecided('no parser context with ' + want)
    def off(self, f):
        for x in self.st['m']:
            if x['n'] == f:
                return x['o']
        raise Undecided('parser context has no member ' + f)
    def at(self, f, more=0, base=('arg', 0)):
        return mkaddr(base, self.off(f) + more, ())

def vec(m, f):
    x = m.field('cp_vector', f)
    if x is None:
        raise Undecided('vectors have no member ' + f)
    return x['o']

def posf(m, f):
    x = m.field('cypher_input_position', f)
    if x is None:
        raise Undecided('positions have no member ' + f)
    return x['o']

def halves(K, w):
    """low and high part of a 64 bit word put together from two 32 bit values"""
    if w[0] != 'or':
        return None
    lo = hi = None
    for x in w[1:]:
        l = K.lin(x)
        if l.c % (1 << 32) == 0 and l.t and all(c % (1 << 32) == 0 for c in l.t.values()):
            hi = Lin(l.c >> 32, {a: c >> 32 for a, c in l.t.items()})
        else:
            lo = l
    return (lo, hi) if lo is not None and hi is not None else None

def known(K, pr, a, b):
    """what the path knows of `a pr b` (linear forms), comparing differences"""
    d = a.add(b, -1)
    d = {x: c for x, c in d.t.items() if c}, d.c
    for f, v in K.p.facts.items():
        if f[0] != 'cmp':
            continue
        e = K.lin(f[2]).add(K.lin(f[3]), -1)
        e1 = {x: c for x, c in e.t.items() if c}, e.c
        e2 = {x: -c for x, c in e.t.items() if c}, -e.c
        if pr == 'eq' and f[1] == 'eq' and d in (e1, e2):
            return v
        if pr == 'ult' and f[1] in ('ult', 'slt') and d == e1:
            return v
        if pr == 'ult' and f[1] in ('ugt', 'sgt') and d == e2:
            return v
        if pr == 'ult' and f[1] in ('uge', 'sge') and d == e1:
            return not v
        if pr == 'ult' and f[1] in ('ule', 'sle') and d == e2:
            return not v
    if not d[0] and pr == 'eq':
        return d[1] == 0
    return None

def elem_loads(e, out):
    if isinstance(e, tuple):
        if e and e[0] == 'ld':
            out.append(e)
        for x in e:
            elem_loads(x, out)

def tidy(e, po):
    """the parser's invariant (there is a line start) and parts of words"""
    if not isinstance(e, tuple):
        return e
    if e and e[0] == 'usub.sat' and e[2] == ('c', 1):
        return ('add', tidy(e[1], po), ('c', -1))
    if e and e[0] == 'lshr' and e[2] == ('c', 32) and e[1][0] == 'ld':
        return ('ld', mkaddr(e[1][1], 4, ())) + e[1][2:]
    return tuple(tidy(x, po) for x in e)

def position(C, m, names=None):
    """input_position(pos): the last line start at or before pos"""
    X = Fun(C, m, (names or {}).get('input_position', 'input_position'))
    P = Parser(m, quick=bool(names))
    V, po = P.off('line_start_offsets'), P.off('position_offset')
    A0, A1 = ('arg', 0), ('arg', 1)
    els, size, num = (mkaddr(A0, V + vec(m, f), ()) for f in ('elements', 'element_size', 'length'))
    oline, ocol, ooff = (mkaddr(A0, po + posf(m, f), ()) for f in ('line', 'column', 'offset'))
    pos = Lin(0, {A1: 1})
    ld = lambda a: Lin(0, {('ld', a): 1})
    inits = {}
    for p in X.paths:
        for e in p.events:
            if e[0] == 'loop':
                inits.update(e[2])
            elif e[0] in ('store', 'copy', 'zero') and root(e[1])[0] != 'alloca':
                X.ob('position', 'writes', False, 'changes something', p)
    n = 0
    for p in X.paths:
        if p.end[0] not in ('ret', 'back'):
            continue
        p.facts = {tidy(f, po): v for f, v in p.facts.items()}
        K = Knows(p)
        if any(f[0] == 'cmp' and f[1] == 'ult' and f[3] == ('ld', num) and not v for f, v in p.facts.items()):
            continue        # an element that does not exist: there is always one, and the first is 0
        seen = []
        for f in list(p.facts) + ([tidy(p.end[1], po)] if p.end[0] == 'ret' else []):
            elem_loads(f, seen)
        E = {}
        for e in seen:
            if e[1][0] == 'addr' and e[1][1] == ('ld', els) or e[1] == ('ld', els):
                ix = index(K, e[1], els, size)
                if ix is None:
                    raise Undecided('which line start input_position looks at')
                E[str(ix)] = (ix, K.lin(e))
        if not E:
            continue        # an element that does not exist: there is always one, and the first is 0
        E = list(E.values())
        if any((E[0][0].add(x[0], -1)).const() is None for x in E):
            raise Undecided('the line starts on a path of input_position')
        e0 = E[0][0]
        E.sort(key=lambda x: -x[0].add(e0, -1).const())
        if any(E[k][0].add(E[k + 1][0], -1).const() != 1 for k in range(len(E) - 1)):
            raise Undecided('the line starts on a path of input_position')
        zero = {k: isfirst(K, x[0]) for k, x in enumerate(E)}
        if any(z == 'no' for z in zero.values()) or any(known(K, 'eq', x[0], Lin(-1)) for x in E):
            continue        # no line with such a number
        after = [known(K, 'ult', pos, x[1]) for x in E]
        if any(a and zero[k] for k, a in enumerate(after)):
            continue        # the first line starts at 0
        # the loop: which line start is looked at first
        ph = [a for a, c in E[0][0].t.items() if c == 1 and a[0] == 'phi']
        if ph and ph[0][1] in inits:
            i0 = K.lin(inits[ph[0][1]]).add(Lin(E[0][0].c))
            if set(i0.t) != {('ld', num)}:
                raise Undecided('where input_position begins')
            X.ob('position', 'begin', i0 == ld(num).add(Lin(-1)), 'does not begin with the last line', p)
        if p.end[0] == 'back':
            n += 1
            X.ob('position', 'goes on', all(a is True for a in after), 'goes past a line that starts at or before the position', p)
            if not ph or ph[0][1] not in p.back:
                raise Undecided('the order in which input_position looks at lines')
            d = K.lin(p.back[ph[0][1]]).add(Lin(E[0][0].c)).add(E[-1][0], -1).const()
            if d is None:
                raise Undecided('the order in which input_position looks at lines')
            X.ob('position', 'step', d == -1, 'does not look at the preceding line next', p)
            continue
        r = tidy(p.end[1], po)
        w = {}
        while r is not None and r[0] == 'insertvalue':
            w.setdefault(r[1][0], r[3])
            r = r[2]
        if set(w) != {0, 1}:
            raise Undecided('the position that input_position returns')
        h = halves(K, w[0])
        if h is None:
            raise Undecided('line and column that input_position returns')
        line, col = h
        n += 1
        last_ix, Le = E[-1]
        X.ob('position', 'passed', all(a is True for a in after[:-1]), 'goes past a line that starts at or before the position', p)
        first = zero[len(E) - 1]
        if after[-1] is None and not first:
            X.ob('position', 'compare', False, 'does not compare the position with the start of the line', p)
            continue
        X.ob('position', 'stop', not after[-1], 'takes a line that starts after the position', p)
        at = [a for a, c in last_ix.t.items() if c == 1]
        sub = lambda l: l.add(last_ix, -1) if first and at and l.t.get(at[0]) == 1 else l
        X.ob('position', 'line', sub(line) == (Lin(0) if first else last_ix).add(ld(oline)), 'the line is not that of the first position plus the number of lines started since', p)
        if first is None:
            X.ob('position', 'column', False, 'the column does not depend on whether the position is on the first line', p)
        else:
            want = pos.add(Le, -1).add(ld(ocol) if first else Lin(1))
            X.ob('position', 'column', col == want or first and col == pos.add(ld(ocol)),
                 'the column on %s is not %s plus the distance from the start of the line' % (('the first line', 'that of the first position') if first else ('a further line', '1')), p)
        X.ob('position', 'offset', K.lin(w[1]) == pos.add(ld(ooff)), 'the offset is not the offset of the first position plus the distance from it', p)
    if not n:
        raise Undecided('paths of input_position')

def isfirst(K, ix):
    """is the index that of the first line: True, False, None, or 'no' if there is no such line"""
    e = known(K, 'eq', ix, Lin(0))
    l = known(K, 'ult', ix, Lin(1))
    if l is None:
        l = known(K, 'ult', Lin(0), ix)
        l = None if l is None else not l
    if l is None:
        return e
    if l and e is False:
        return 'no'
    return l if e is None else e

def index(K, a, els, size):
    """index of an element of the vector of line starts"""
    if bare(a) == ('ld', els):
        return Lin(0)
    if a[0] != 'addr' or bare(a[1]) != bare(('ld', els)):
        return None
    sz = bare(('ld', size))
    tot = Lin(a[2])
    for v, s in a[3]:
        tot = tot.add(K.lin(v).mul(s))
    out = Lin(0)
    for t, c in list(tot.t.items()) + ([(None, tot.c)] if tot.c else []):
        if t is None:
            return None
        t = bare(t)
        if t == sz:
            out = out.add(Lin(c))
        elif t is not None and t[0] == 'mul' and sz in t[1:]:
            o = [x for x in t[1:] if x != sz]
            if len(o) != 1:
                return None
            out = out.add(K.lin(o[0]).mul(c))
        else:
            return None
    return out

def lines(C, m, names=None):
    """line_start and backtrack_lines"""
    N = lambda n: (names or {}).get(n, n)
    P = Parser(m, quick=bool(names))
    V = P.off('line_start_offsets')
    A0 = ('arg', 0)
    els, size, num = (mkaddr(A0, V + vec(m, f), ()) for f in ('elements', 'element_size', 'length'))
    cur = ('ld', P.at('__pos'))
    X = Fun(C, m, N('line_start'))
    ro = 0
    for p in X.paths:
        K = Knows(p)
        bt = [e for e in p.calls(N('backtrack_lines'))]
        push = [e for e in p.calls('cp_vector_push')]
        if not bt and not any(q.calls('cp_vector_pop', 'cp_vector_npop') or any(e[0] == 'store' and e[1] == num for e in q.events) for q in X.paths):
            X.ob('lines', 'drop', False, 'line starts after the current position are not dropped', p)
            continue
        if not bt:
            raise Undecided('line_start does not use backtrack_lines')
        X.ob('lines', 'drop', len(bt) == 1 and base(K, bt[0][2][1]) == cur, 'line starts after the current position are not dropped', p)
        same = known(K, 'eq', K.lin(bt[0][3]), K.lin(bt[0][2][1]))
        if not push:
            if p.end[0] == 'ret':
                X.ob('lines', 'missing', same is True, 'the start of a line is not recorded', p)
            continue
        X.ob('lines', 'once', same is False, 'the start of a line is recorded although it already is', p)
        e = push[0]
        v = p.load_at(p.events.index(e), e[2][1], 'i32')
        X.ob('lines', 'record', len(push) == 1 and e[2][0] == mkaddr(A0, V, ()) and base(K, v) == cur, 'what is recorded is not the current position as the start of a line', p)
        z = K.truth(('cmp', 'eq', e[3], ('c', 0)))
        X.ob('lines', 'failed', z is not None and (z or p.end[0] == 'stop') and not (z and p.end[0] == 'stop'), 'a failure to record the start of a line is not noticed', p)
    X = Fun(C, m, N('backtrack_lines'))
    A1 = ('arg', 1)
    ends, carried = [], False
    for p in X.paths:
        K = Knows(p)
        if p.end[0] not in ('ret', 'back'):
            continue
        seen = []
        for f in list(p.facts) + ([p.end[1]] if p.end[0] == 'ret' else []):
            elem_loads(f, seen)
        E = {bare(e) for e in seen if isload(e[1], els)}
        if not E:
            continue        # no line start at all: there always is one
        pops = p.calls('cp_vector_pop')
        npop = p.calls('cp_vector_npop')
        if npop:
            raise Undecided('how backtrack_lines drops line starts')
        at = [k for k, e in enumerate(p.events) if e in pops or e[0] == 'store' and e[1] == num]
        heads = [k for k, e in enumerate(p.events) if e[0] == 'loop']
        # what is known of the last line start between one drop and the next
        part = [None] * (len(at) + 1)
        fresh = [False] * (len(at) + 1)     # known since the head of the loop
        never = False
        for f, v, j in p.order:
            k = sum(1 for i in at if i < j)
            was = part[k]
            if f[0] == 'cmp' and f[1] == 'eq' and bare(f[2]) in E and f[3] == ('c', 0) and v:
                part[k] = False     # no line starts before it
            if f[0] == 'cmp' and f[1] == 'ult':
                if f[2] == A1 and bare(f[3]) in E:
                    part[k] = v
                if f[3] == A1 and bare(f[2]) in E:
                    part[k] = False if v else 'maybe' if part[k] is None else part[k]
                if f[2] == A1 and f[3] == ('c', 0) and v:
                    never = True
                for x, y, after in ((f[2], f[3], True), (f[3], f[2], False)):
                    # compared with another place: start > pos + d, or start < pos + d
                    d = shifted(x, A1) if bare(y) in E else None
                    if d is None:
                        continue
                    if after:
                        part[k] = (True if d >= 0 else part[k]) if v else (False if d <= 1 else 'beyond %d' % d)
                    else:
                        part[k] = (False if d <= 2 else 'beyond %d' % (d - 1)) if v else (True if d >= 1 else part[k])
            if part[k] != was and (not heads or heads[-1] < j):
                fresh[k] = True
        if never:
            continue
        for k, i in enumerate(at):
            e = p.events[i]
            if e[0] == 'call':
                X.ob('lines', 'backtrack:one', e[2][0] == mkaddr(A0, V, ()), 'drops something other than the last line start', p)
            if part[k] is None:
                X.ob('lines', 'backtrack:cond', False, 'drops a line start without comparing it with the position', p)
            else:
                X.ob('lines', 'backtrack:keep', part[k] is True, 'drops a line start at or before the position', p)
            if heads and heads[-1] < i and not fresh[k]:
                carried = True
        last = part[-1]
        if p.end[0] == 'back':
            ends.append((last, p))
        elif isinstance(last, str) and last.startswith('beyond'):
            X.ob('lines', 'backtrack:drop', False, 'keeps a line start after the position', p)
        elif last is None or last == 'maybe':
            if not at:
                raise Undecided('when backtrack_lines stops')
        else:
            X.ob('lines', 'backtrack:drop', last is False, 'keeps a line start after the position', p)
            X.ob('lines', 'backtrack:value', bare(p.end[1]) in E or p.end[1] == ('c', 0), 'does not return the last line start at or before the position', p)
    for last, p in ends:
        # a drop at the start of a round relies on what the round before it found
        if carried:
            X.ob('lines', 'backtrack:round', last is True, 'goes on without having found a line start after the position', p)

def shifted(x, a):
    """x = a + d: d"""
    if x[0] == 'add' and len(x) == 3:
        for u, w in (x[1:], x[1:][::-1]):
            if u == a and w[0] == 'c' and w[1]:
                return w[1]
    return None

def isload(a, els):
    r = a
    while r[0] == 'addr':
        r = r[1]
    return r[0] == 'ld' and r[1] == els

def bare(e):
    if not isinstance(e, tuple):
        return e
    if e and e[0] == 'ld':
        return ('ld', bare(e[1]))
    return tuple(bare(x) for x in e)

def base(K, e):
    """a value without conversions, loads without versions"""
    return bare(K.n(e))

class Block:
    """offsets of the members of a block"""
    def __init__(self, m):
        for s in ('block', 'struct.block'):
            if s in m.structs:
                break
        else:
            raise Undecided('no struct block')
        self.o = {x['n']: x['o'] for x in m.structs[s]['m']}
        rs = {x['n']: x['o'] for x in m.structs['cypher_input_range']['m']}
        for n in ('buffer_start', 'buffer_end', 'range', 'children', 'sequence'):
            if n not in self.o:
                raise Undecided('blocks have no member ' + n)
        self.start, self.end = self.o['range'] + rs['start'], self.o['range'] + rs['end']

def last(p, addr, ty='i64', upto=None):
    """the value last stored at addr (None: unchanged)"""
    addr = bare(addr)
    for k in range((len(p.events) if upto is None else upto) - 1, -1, -1):
        e = p.events[k]
        if e[0] == 'store' and bare(e[1]) == addr:
            return e[2]
        if e[0] == 'copy' and e[3][0] == 'c':
            d = bare(e[1])
            db, do = ((d[1], d[3]), d[2]) if d[0] == 'addr' else ((d, ()), 0)
            ab, ao = ((addr[1], addr[3]), addr[2]) if addr[0] == 'addr' else ((addr, ()), 0)
            if db == ab and do <= ao < do + e[3][1]:
                return p.load_at(k, mkaddr(e[2], ao - do, ()), ty)
        if e[0] == 'zero' and root(bare(e[1])) == root(addr):
            return ('c', 0)
    return None

def is_position(p, k, addr, call):
    """was the position at addr, before event k, last set to the one the call returned"""
    return last(p, addr, upto=k) == ('extractvalue', (0,), call) and last(p, mkaddr(addr, 8, ()), upto=k) == ('extractvalue', (1,), call)

def blocks(C, m):
    P = Parser(m)
    B = Block(m)
    BL, PREV = P.at('blocks'), P.at('prev_block')
    A2 = ('arg', 2)
    for name, push, pop in (('block_start_action', 1, 0), ('block_end_action', 0, 1), ('block_replace_action', 1, 1), ('block_merge_action', 0, 1)):
        try:
            action(C, m, name, push, pop, B, BL, PREV)
        except Undecided as e:
            C.undecided('blocks', name, e)

def action(C, m, name, npush, npop, B, BL, PREV):
    X = Fun(C, m, name, readonly=('input_position',), limit=6000)
    A0, A2 = ('arg', 0), ('arg', 2)
    n = 0
    for p in X.paths:
        K = Knows(p)
        push = [e for e in p.calls('cp_vector_push') if e[2][0] == BL]
        pop = [e for e in p.calls('cp_vector_pop') if e[2][0] == BL]
        if any(p.null(e[3]) for e in pop):
            continue        # there is always an open block (G02)
        if any(p.null(K.n(popped(p, e))) for e in pop):
            continue
        alloc = [e for e in p.calls('malloc', 'calloc')]
        if any(p.null(e[3]) for e in alloc):
            X.ob('blocks', 'memory', p.end[0] != 'ret', 'goes on without the block for lack of memory', p)
            continue
        if push and K.truth(('cmp', 'eq', push[-1][3], ('c', 0))) is False:
            X.ob('blocks', 'room', p.end[0] != 'ret', 'goes on without the block for lack of memory', p)
            continue
        if p.end[0] != 'ret':
            continue
        n += 1
        ip = [e for e in p.calls('input_position') if e[2][0] == A0 and K.same(e[2][1], A2)]
        if not ip:
            X.ob('blocks', 'position', False, 'does not determine the input position of the place', p)
            continue
        pc = [e[3] for e in ip]
        X.ob('blocks', 'balance', len(push) == npush and len(pop) == npop, 'opens %d and closes %d blocks, not %d and %d' % (len(push), len(pop), npush, npop), p)
        if len(push) != npush or len(pop) != npop:
            continue
        old = popped(p, pop[0]) if pop else None
        if old:
            o = lambda f: mkaddr(old, f, ())
            X.ob('blocks', 'end:text', same(K, last(p, o(B.o['buffer_end'])), A2), 'the text of the block closed does not end here', p)
            X.ob('blocks', 'end:range', any(is_position(p, None, o(B.end), c) for c in pc), 'the range of the block closed does not end here', p)
            for f, t in ((B.o['buffer_start'], 'i64'), (B.start, 'i64'), (B.start + 8, 'i64')):
                v = last(p, o(f), t)
                X.ob('blocks', 'end:keep', v is None or bare(v) == bare(('ld', o(f))), 'the start of the block closed is changed', p)
            X.ob('blocks', 'end:last', bare(last(p, PREV)) == bare(old), 'the block closed is not the last one closed', p)
        else:
            X.ob('blocks', 'start:last', last(p, PREV) is not None and p.null(last(p, PREV)) is True, 'a closed block remains after another was opened', p)
        if push:
            k = p.events.index(push[0])
            new = p.load_at(k, push[0][2][1])
            if new is None or new[0] != 'call' or new not in [e[3] for e in alloc]:
                raise Undecided('what block is opened')
            a = lambda f: mkaddr(new, f, ())
            X.ob('blocks', 'start:text', same(K, last(p, a(B.o['buffer_start'])), A2), 'the text of the block opened does not start here', p)
            if old:
                ok = all(bare(last(p, a(B.start + d))) == bare(('ld', mkaddr(old, B.start + d, ()))) for d in (0, 8))
                X.ob('blocks', 'start:range', ok, 'the range of the block opened does not start where that of the block closed did', p)
            else:
                X.ob('blocks', 'start:range', any(is_position(p, None, a(B.start), c) for c in pc), 'the range of the block opened does not start here', p)
    if not n:
        raise Undecided('paths of ' + name)

def same(K, a, b):
    return a is not None and K.same(a, b)

def merging(C, m):
    """closing a block into its parent moves all children there, in order"""
    P, B = Parser(m), Block(m)
    BL = P.at('blocks')
    X = Fun(C, m, 'block_merge_action', readonly=('input_position',), limit=6000)
    V = lambda a, f: mkaddr(a, vec(m, f), ())
    inits = {}
    for p in X.paths:
        for e in p.events:
            if e[0] == 'loop':
                inits.update(e[2])
    n = 0
    for p in X.paths:
        K = Knows(p)
        pop = [e for e in p.calls('cp_vector_pop') if e[2][0] == BL]
        if p.end[0] == 'stop' or len(pop) != 1 or p.null(pop[0][3]):
            continue
        old = bare(popped(p, pop[0]))
        if p.null(K.n(popped(p, pop[0]))):
            continue
        CH = mkaddr(old, B.o['children'], ())
        num = Lin(0, {('ld', V(CH, 'length')): 1})
        none = None
        for f, v in p.facts.items():
            if f[0] == 'cmp' and f[1] == 'eq' and bare(f[2]) == ('ld', V(CH, 'length')) and f[3] == ('c', 0):
                none = v
        push = [e for e in p.calls('cp_vector_push')]
        if not push:
            if p.end[0] == 'ret' and none is not True:
                bl = ('ld', V(BL, 'length'))
                if any(f[0] == 'cmp' and f[1] == 'eq' and bare(f[2]) == bl and v for f, v in p.facts.items()):
                    continue        # there is always a parent (G02)
                X.ob('children', 'lost', False, 'loses the children of the block it closes', p)
            continue
        n += 1
        e = push[0]
        t = bare(e[2][0])
        par = t[1] if t[0] == 'addr' and t[2] == B.o['children'] and not t[3] else None
        if par is None:
            X.ob('children', 'to', False, 'children are not added to the children of a block', p)
            continue
        if par[0] != 'ld' or par == old:
            if par == ('null',):
                continue
            X.ob('children', 'to', par != old, 'children are added to the block that is closed', p)
            continue
        ix = index(K, par[1], V(BL, 'elements'), V(BL, 'element_size'))
        if ix is None:
            raise Undecided('which block gets the children')
        X.ob('children', 'to', ix == Lin(-1, {('ld', V(BL, 'length')): 1}), 'the children are not added to the enclosing block', p)
        v = bare(p.load_at(p.events.index(e), e[2][1]))
        if v in (('null',), ('c', 0)):
            continue        # no such element: not within the bounds of the loop
        ei = index(K, v[1], V(CH, 'elements'), V(CH, 'element_size')) if v[0] == 'ld' else None
        ph = [a for a, c in ei.t.items() if a[0] == 'phi'] if ei is not None else []
        if len(ph) == 1 and ei.t[ph[0]] == -1 and K.lin(p.back[ph[0][1]] if p.end[0] == 'back' else ph[0]).add(Lin(1 if p.end[0] != 'back' else 0)) == Lin(1, {ph[0]: 1}):
            X.ob('children', 'order', False, 'adds the children in reverse order', p)
            continue
        if len(ph) != 1 or ei.t[ph[0]] != 1 or len(push) != 1:
            raise Undecided('which child is added')
        ph = ph[0]
        i0 = K.lin(inits.get(ph[1], ('?',)))
        if i0.const() is None:
            raise Undecided('which child is added first')
        X.ob('children', 'first', i0.const() + ei.c == 0 and len([c for c in ei.t.values() if c]) == 1, 'does not begin with the first child', p)
        nx = None
        for f, v in p.facts.items():
            if f[0] != 'cmp' or f[1] not in ('ult', 'eq', 'slt'):
                continue
            a, b = bare_lin(K, f[2]), bare_lin(K, f[3])
            if b == num and set(x for x, c in a.t.items() if c) == {ph} and a.t[ph] == 1 and a.add(ei, -1) != Lin(0):
                nx = (a.add(ei, -1).const(), v if f[1] != 'eq' else not v)
        if p.end[0] == 'back':
            st = K.lin(p.back.get(ph[1], ('?',))).add(Lin(0, {ph: 1}), -1)
            X.ob('children', 'next', st.const() == 1, 'does not go on with the next child', p)
        elif p.end[0] == 'ret':
            if nx is None:
                raise Undecided('when all children are added')
            X.ob('children', 'all', nx == (1, False), 'stops before all children are added, or after', p)
            clr = any(x[2][0] == e2 for x in p.calls('cp_vector_clear') for e2 in (x[2][0],) if bare(e2) == CH) or \
                same(K, last(p, V(CH, 'length'), 'i32'), ('c', 0))
            X.ob('children', 'moved', clr, 'the block closed keeps the children that were added to its parent', p)
    if not n:
        raise Undecided('paths of block_merge_action')

def bare_lin(K, e):
    l = K.lin(e)
    out = Lin(l.c)
    for t, c in l.t.items():
        out = out.add(Lin(0, {bare(t): c}))
    return out

def popped(p, e):
    """the block popped by the call e: read from the memory it points to"""
    k = p.events.index(e)
    return p.load_at(k + 1, e[3]) if k + 1 < len(p.events) else p.load(e[3])

def errors(C, m):
    """where an error is, and what is found there"""
    P = Parser(m)
    X = Fun(C, m, '_err', readonly=('input_position',))
    A0 = ('arg', 0)
    cur, buf, lim = ('ld', P.at('__pos')), ('ld', P.at('__buf')), ('ld', P.at('__limit'))
    n = 0
    for p in X.paths:
        K = Knows(p)
        note = p.calls('cp_et_note_potential_error')
        if not note:
            if p.end[0] == 'ret':
                X.ob('error', 'noted', False, 'does not note the error', p)
            continue
        n += 1
        a = note[0][2]
        X.ob('error', 'into', a[0] == P.at('error_tracking') and a[-1] == ('arg', 1) and len(note) == 1, 'the label is not noted in the errors of this parser', p)
        pc = [e[3] for e in p.calls('input_position') if base(K, e[2][1]) == cur]
        ok = len(a) == 5 and any(a[1] == ('extractvalue', (0,), c) and a[2] == ('extractvalue', (1,), c) for c in pc)
        X.ob('error', 'position', ok, 'the error is not at the current position', p)
        if len(a) != 5:
            raise Undecided('arguments of cp_et_note_potential_error')
        inside = None
        for f, v in p.facts.items():
            if f[0] == 'cmp' and f[1] in ('slt', 'ult') and bare(f[2]) == cur and bare(f[3]) == lim:
                inside = v
            if f[0] == 'cmp' and f[1] in ('slt', 'ult') and bare(f[2]) == lim and bare(f[3]) == cur and v:
                inside = False
        c = bare(K.n(a[3]))
        if inside is None:
            X.ob('error', 'limit', False, 'does not look whether the input ends at the error', p)
        elif inside:
            X.ob('error', 'char', c == bare(('ld', mkaddr(buf, 0, ((cur, 1),)))), 'the character of the error is not that at the current position', p)
        else:
            X.ob('error', 'end', c == ('c', 0), 'the error at the end of the input has a character', p)
        z = K.truth(('cmp', 'eq', note[0][3], ('c', 0)))
        X.ob('error', 'failed', z is not None and (z or p.end[0] == 'stop'), 'a failure to note the error is not noticed', p)
    if not n:
        raise Undecided('paths of _err')

def finish(C, m):
    """a segment ends at the current position; its errors get their context"""
    P = Parser(m)
    X = Fun(C, m, 'finished')
    A0 = ('arg', 0)
    E = 'cypher_parse_error'
    cur = ('ld', P.at('__pos'))
    n = 0
    for p in X.paths:
        K = Knows(p)
        if p.end[0] not in ('ret', 'back', 'stop'):
            continue
        n += 1
        st = [e for e in p.events if e[0] == 'store' and e[1] == P.at('consumed')]
        if p.end[0] == 'ret':
            v = bare(p.load(P.at('consumed'), 'i32'))
            X.ob('consumed', 'consumed', bool(st) and bare(K.n(st[-1][2])) == cur, 'the segment does not end at the current position', p)
        for e in p.calls('line_context'):
            k = p.events.index(e)
            a = e[2]
            z = p.null(e[3])
            if p.end[0] in ('ret', 'back'):
                X.ob('consumed', 'context:null', z is False, 'goes on without the context of an error', p)
            d = K.lin(p.load_at(k, a[2], 'i64'))
            ts = sorted((bare(t), c) for t, c in d.t.items() if c)
            po = bare(('ld', P.at('position_offset', posf(m, 'offset'))))
            eo = m.field(E, 'position')['o'] + posf(m, 'offset')
            pl = [t for t, c in ts if c == 1]
            mi = [t for t, c in ts if c == -1]
            if len(a) != 4 or len(ts) != 2:
                raise Undecided('arguments of line_context')
            X.ob('consumed', 'context:offset', mi == [po] and len(pl) == 1 and pl[0][0] == 'ld', 'the context is not taken at the offset of the error within the input read', p)
            if p.end[0] in ('ret', 'back') and z is False and len(pl) == 1 and pl[0][0] == 'ld':
                ea = pl[0][1]
                cx = mkaddr(ea, m.field(E, 'context')['o'] - eo, ())
                co = mkaddr(ea, m.field(E, 'context_offset')['o'] - eo, ())
                w = {bare(K.n(s[1])): s for s in p.events if s[0] == 'store'}
                X.ob('consumed', 'context:store', bare(K.n(cx)) in w and w[bare(K.n(cx))][2] == e[3], 'the context is not kept with its error', p)
                X.ob('consumed', 'context:place', bare(K.n(co)) in w, 'the place in the context is not kept with its error', p)
    if not n:
        raise Undecided('paths of finished')

def P01(C):
    C.rule('position', 'the position of an offset is found from the last line that starts at or before it: line and column count from the first position, columns of further lines from 1', 4)
    C.rule('lines', 'line starts are recorded once, in order, and those after the current position are dropped', 4)
    C.rule('blocks', 'the range of a block starts and ends at the input positions of the places it was opened and closed at', 8)
    C.rule('children', 'a block closed into its parent hands all of its children over, in order', 4)
    C.rule('error', 'an error is noted at the current position with the character found there', 4)
    C.rule('consumed', 'a segment ends where the parser stands when it is complete, and each of its errors gets its context', 2)
    m = lib_module(KEEP_P)
    for rule, f in (('position', position), ('lines', lines), ('blocks', blocks), ('children', merging), ('error', errors), ('consumed', finish)):
        try:
            f(C, m)
        except Undecided as e:
            C.undecided(rule, f.__name__, e)

PROPS = {'P01': P01}
