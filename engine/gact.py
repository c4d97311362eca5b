"""Abstract machine for the actions of parser.leg.

The grammar is executed abstractly: every rule is followed along all orders in which its
elements can match (ordered choices, options and repetitions taken in every way), and the
thunks that the derivation leaves behind are applied to an abstract parser state: the stack
of open blocks, the last closed block, the values of the rule's variables, the operator
stack and the state of the string buffer.  The thunks themselves are not described by hand:
what the action functions of parser.c do is read off their intermediate representation
(engine/effects.py), helper functions included; only the vector, string buffer and
allocation primitives and the AST constructors are taken by contract (their contracts are
checked by other rules)."""
import re
from ir import *
from effects import *
import leg, front

class NeedInline(Exception):
    pass

class Bad(Exception):
    def __init__(self, rule, key, msg):
        self.rule, self.key, self.msg = rule, key, msg
        Exception.__init__(self, msg)

NOISE = {'CYPHER_AST_COMMENT', 'CYPHER_AST_LINE_COMMENT', 'CYPHER_AST_BLOCK_COMMENT', 'CYPHER_AST_ERROR'}
CAP = 3

class Seq:
    """a sequence of nodes: number of elements (exact below CAP), parity, types at the even
    and the odd positions, which types may follow each other, where the elements live"""
    __slots__ = ('n', 'par', 'even', 'odd', 'adj', 'first', 'last', 'locs', 'vids', 'lastord')
    def __init__(self, n=0, par=0, even=frozenset(), odd=frozenset(), adj=frozenset(), first=frozenset(), last=frozenset(), locs=frozenset(), vids=frozenset(), lastord=None):
        self.n, self.par, self.even, self.odd, self.adj, self.first, self.last, self.locs, self.vids, self.lastord = n, par, even, odd, adj, first, last, locs, vids, lastord
    def key(self):
        return (self.n, self.par, self.even, self.odd, self.adj, self.first, self.last, self.locs, self.vids, self.lastord)
    def add(self, types, loc, vid, order):
        t = frozenset(types)
        e, o = (self.even | t, self.odd) if self.par == 0 else (self.even, self.odd | t)
        adj = self.adj | frozenset((a, b) for a in self.last for b in t)
        return Seq(min(self.n + 1, CAP), self.par ^ 1, e, o, adj, self.first if self.n else t, t, self.locs | {loc}, self.vids | {vid}, order)
    def concat(self, s):
        """s's elements after ours; locations of s are renamed by the caller"""
        if s.n == 0:
            return self
        e, o = (s.even, s.odd) if self.par == 0 else (s.odd, s.even)
        adj = self.adj | s.adj | frozenset((a, b) for a in self.last for b in s.first)
        return Seq(min(self.n + s.n, CAP), self.par ^ s.par, self.even | e, self.odd | o, adj, self.first if self.n else s.first, s.last,
                   self.locs | s.locs, self.vids | s.vids, s.lastord if s.lastord is not None else None)
    def types(self):
        return self.even | self.odd
    def rename(self, f, g):
        return Seq(self.n, self.par, self.even, self.odd, self.adj, self.first, self.last, frozenset(f(x) for x in self.locs), frozenset(g(x) for x in self.vids) - {None}, self.lastord)

class Block:
    __slots__ = ('seq', 'noise', 'unref', 'orphans', 'toks', 'since', 'opbad', 'built')
    def __init__(self):
        self.seq = Seq()
        self.noise = False              # may have comment or error children
        self.unref = {}                 # vid -> types of nodes that are children here
        self.orphans = frozenset()      # types of further children
        self.toks = frozenset()
        self.since = 0                  # operators pushed since the last node was collected
        self.opbad = False              # ... other than one between two nodes
        self.built = False              # a node has taken the children
    def copy(self):
        b = Block()
        b.seq, b.noise, b.unref, b.orphans, b.toks, b.since, b.opbad, b.built = self.seq, self.noise, dict(self.unref), self.orphans, self.toks, self.since, self.opbad, self.built
        return b
    def key(self):
        return (self.seq.key(), self.noise, tuple(sorted(self.unref.items())), self.orphans, self.toks, self.since, self.opbad, self.built)
    def kids(self):
        return self.noise or bool(self.unref) or bool(self.orphans)

NULLV = ('null',)
# node values: ('node', types, nullable, vid, kw)   -- where it lives is found by vid

class State:
    def __init__(self):
        self.heap = {0: Block()}
        self.frames = (0,)
        self.prev = 'E'           # 'E': whatever the caller left; None; block id
        self.freedE = False
        self.scopes = ({},)
        self.ret = ('E',)         # $$: 'E' whatever it was
        self.ops = ()
        self.sb = 'E'
        self.need = False         # text is used that relies on the caller for the reset
        self.last = '^'           # text of the last token
        self.result = ('E',)
        self.nv = 0
        self.ord = {}             # vid -> creation / binding order
        self.kw = {}
        self.gone = frozenset()
        self.trace = None
    def copy(self):
        s = State()
        s.heap = {k: b.copy() for k, b in self.heap.items()}
        s.frames, s.prev, s.freedE = self.frames, self.prev, self.freedE
        s.scopes = tuple(dict(d) for d in self.scopes)
        s.ret, s.ops, s.sb, s.last, s.result, s.nv = self.ret, self.ops, self.sb, self.last, self.result, self.nv
        s.ord, s.gone, s.trace, s.need = dict(self.ord), self.gone, self.trace, self.need
        return s
    def note(self, what):
        self.trace = (what, self.trace)
    def path(self, limit=14):
        out, t = [], self.trace
        while t is not None and len(out) < limit:
            out.append(t[0])
            t = t[1]
        return out[::-1]
    def loc(self, vid):
        for k, b in self.heap.items():
            if vid in b.unref:
                return k
        return 'gone'
    def live(self):
        vs = set()
        for d in self.scopes:
            for v in d.values():
                if v[0] == 'node':
                    vs.add(v[3])
        for v in (self.ret, self.result):
            if v[0] == 'node':
                vs.add(v[3])
        return vs
    def normal(self):
        """drop unreachable blocks, renumber blocks and values, in place"""
        keep = list(self.frames) + ([self.prev] if isinstance(self.prev, int) else [])
        bm = {b: i for i, b in enumerate(keep)}
        live = self.live()
        for b in keep:
            live |= set()
        # values no longer held by a variable: children of unknown name
        heap = {}
        for b in keep:
            x = self.heap[b]
            for vid in list(x.unref):
                if vid not in live:
                    if vid not in x.seq.vids:
                        x.orphans |= x.unref[vid]
                    else:
                        x.seq = x.seq.rename(lambda l: l, lambda v, vid=vid: None if v == vid else v)
                    del x.unref[vid]
            heap[bm[b]] = x
        vs = sorted(live, key=lambda v: (self.ord.get(v, -1), v))
        # sequence order marks take part in the ranking
        marks = sorted({self.ord.get(v, -1) for v in vs} | {b.seq.lastord for b in heap.values() if b.seq.lastord is not None})
        rank = {o: i for i, o in enumerate(marks)}
        vm = {v: i for i, v in enumerate(vs)}
        lf = lambda l: bm.get(l, 'gone') if isinstance(l, int) else l
        for x in heap.values():
            x.unref = {vm[v]: t for v, t in x.unref.items()}
            x.seq = x.seq.rename(lf, lambda v: vm.get(v))
            if x.seq.lastord is not None:
                x.seq.lastord = rank[x.seq.lastord]
        rv = lambda v: v[:3] + (vm[v[3]],) + v[4:] if v[0] == 'node' else v
        self.scopes = tuple({k: rv(v) for k, v in d.items()} for d in self.scopes)
        self.ret, self.result = rv(self.ret), rv(self.result)
        self.ord = {vm[v]: rank[self.ord.get(v, -1)] for v in vs}
        self.nv = len(vs)
        self.gone = frozenset(vm[v] for v in self.gone if v in vm)
        self.heap = heap
        self.frames = tuple(bm[b] for b in self.frames)
        if isinstance(self.prev, int):
            self.prev = bm[self.prev]
        return self
    def key(self):
        return (tuple((k, self.heap[k].key()) for k in sorted(self.heap)), self.frames, self.prev, self.freedE,
                tuple(tuple(sorted(d.items())) for d in self.scopes), self.ret, self.ops, self.sb, self.need, self.last, self.result, tuple(sorted(self.ord.items())), self.gone)
    def shape(self):
        """the state without its node types"""
        vs = lambda v: ('node', v[2], v[3], v[4]) if v[0] == 'node' else v
        hb = tuple((k, b.seq.n, b.seq.par, b.seq.locs, b.seq.vids, b.seq.lastord, b.noise, tuple(sorted(b.unref)), bool(b.orphans), b.toks, b.since, b.opbad, b.built)
                   for k, b in sorted(self.heap.items()))
        return (hb, self.frames, self.prev, self.freedE, tuple(tuple(sorted((k, vs(v)) for k, v in d.items())) for d in self.scopes), vs(self.ret),
                len(self.ops), self.sb, self.need, self.last, vs(self.result), tuple(sorted(self.ord.items())), self.gone)
    def join(self, o):
        """adds the node types of o, a state of the same shape; True when that adds something"""
        ch = False
        for k, b in self.heap.items():
            c = o.heap[k]
            if c.orphans - b.orphans:
                b.orphans |= c.orphans
                ch = True
            for v, t in c.unref.items():
                if t - b.unref[v]:
                    b.unref[v] |= t
                    ch = True
            p, q = b.seq, c.seq
            if q.even - p.even or q.odd - p.odd or q.adj - p.adj or q.first - p.first or q.last - p.last:
                b.seq = Seq(p.n, p.par, p.even | q.even, p.odd | q.odd, p.adj | q.adj, p.first | q.first, p.last | q.last, p.locs, p.vids, p.lastord)
                ch = True
        def jv(v, w):
            nonlocal ch
            if v[0] == 'node' and w[1] - v[1]:
                ch = True
                return (v[0], v[1] | w[1]) + v[2:]
            return v
        for d, e in zip(self.scopes, o.scopes):
            for k in d:
                d[k] = jv(d[k], e[k])
        self.ret, self.result = jv(self.ret, o.ret), jv(self.result, o.result)
        n = tuple(a | b for a, b in zip(self.ops, o.ops))
        ch |= n != self.ops
        self.ops = n
        return ch
    def clock(self):
        return max([o for o in self.ord.values()] + [b.seq.lastord for b in self.heap.values() if b.seq.lastord is not None] + [0]) + 1
    def new(self, types, nullable=False, kw='^', order=None):
        vid = self.nv
        self.nv += 1
        self.ord[vid] = self.clock() if order is None else order
        return ('node', frozenset(types), nullable, vid, kw)

def dedup(states):
    """states of one shape become one state that allows the node types of them all"""
    out = {}
    for s in states:
        k = s.normal().shape()
        if k not in out:
            out[k] = s
        else:
            out[k].join(s)
    return list(out.values())

class Machine:
    def __init__(self, m, g, cspec, tt, ctypes, tokens, report, csrc='parser.c', limit=4000):
        """m: IR module; g: grammar; cspec: constructor spec; tt: type table; ctypes: ctor -> node type;
        tokens: rule -> canonical token text or None; report(rule, key, msg, trace)"""
        self.m, self.g, self.cspec, self.tt, self.tokens = m, g, cspec, tt, tokens
        self.report = report
        self.limit = limit
        self.sum = {}
        self.inline = set()
        self.fx = {}
        self.builds = []       # (rule, action, ctor)
        self.cur = None
        self.ncalls = 0
        self.undecided = {}
        self.csrc = csrc
        self.fns = {}
        for n, f in m.raw.items():
            self.fns.setdefault(f.get('src', n), []).append(n)
        self.yyf = None
        self.actfn = {}
        self.slots = {}
        self.events = []       # hooks: (what, state, data)
        self.preds = {}
        self.roles, self.flags, self.optoks = frozenset(), frozenset(), frozenset()

    # ---- C side
    def cfn(self, name):
        if name in self.m.raw and self.m.fn(name) is not None:
            return self.m.fn(name)
        return None

    def paths(self, name):
        if name not in self.fx:
            fn = self.cfn(name)
            if fn is None:
                raise Undecided('no body for ' + name)
            ps = effects(fn)
            self.fx[name] = (fn, ps)
        return self.fx[name]

    def yyoff(self, field):
        f = self.m.field('_yycontext', field)
        if f is None:
            raise Undecided('no field yycontext.' + field)
        return f['o']

    def boff(self, field):
        f = self.m.field('block', field)
        if f is None:
            raise Undecided('no field block.' + field)
        return f['o']

    def run(self, name, args, S, depth=0):
        """[(state, return value)] for the C function `name`"""
        if depth > 8:
            raise Undecided('call depth in ' + name)
        fn, ps = self.paths(name)
        out = []
        for p in ps:
            if p.end[0] == 'stop':
                continue
            if p.end[0] == 'back':
                continue
            out.extend(self.follow(fn, ps, p, args, S.copy(), depth))
        return out

    def follow(self, fn, ps, p, args, S, depth):
        work = [(S, Env(self, fn, args, S), 0)]
        byev = {}
        for a, v, k in p.order:
            byev.setdefault(k, []).append((a, v))
        res = []
        while work:
            S, env, k = work.pop()
            dead = False
            while True:
                for a, v in byev.get(k, ()):
                    t = env.truth(a, S)
                    if t is not None and t != v:
                        dead = True
                        break
                    if t is None and not env.refine(a, v, S):
                        dead = True
                        break
                if dead or k >= len(p.events):
                    break
                e = p.events[k]
                r = self.event(fn, ps, p, e, k, S, env, depth)
                k += 1
                if r is not None:
                    if len(r) == 0:
                        dead = True
                        break
                    for S2, env2 in r[1:]:
                        work.append((S2, env2, k))
                    S, env = r[0]
            if not dead:
                rv = env.ev(p.end[1], S) if p.end[1] is not None else None
                res.append((S, rv))
        return res

    def event(self, fn, ps, p, e, k, S, env, depth):
        if e[0] == 'store':
            self.store(env.ev(e[1], S), env.ev(e[2], S), S, e)
            return None
        if e[0] == 'copy':
            d = env.ev(e[1], S)
            if d[0] == 'loc':
                env.mem[d[1]] = ('at', env.ev(e[2], S))
            return None
        if e[0] == 'zero':
            return None
        if e[0] == 'loop':
            return self.loop(fn, ps, p, e, k, S, env)
        if e[0] != 'call':
            return None
        name = e[1]
        if not isinstance(name, str):
            raise Undecided('indirect call in ' + fn.src)
        a = [env.ev(x, S) for x in e[2]]
        r = self.primitive(name, a, S, env, e, fn)
        if r is not None:
            outs = []
            for S2, val in r:
                env2 = env.fork()
                env2.vals[e[3]] = val
                env2.snap(('id', e[4]['id']), S2)
                outs.append((S2, env2))
            return outs
        f = self.cfn(name)
        if f is None or not (self.m.raw[name].get('file', '').endswith(('parser.c', 'parser_leg.c'))):
            raise Undecided('%s calls %s' % (fn.src, name))
        outs = []
        for S2, val in self.run(name, a, S, depth + 1):
            env2 = env.fork()
            env2.vals[e[3]] = val if val is not None else ('?',)
            env2.snap(('id', e[4]['id']), S2)
            outs.append((S2, env2))
        return outs

    def store(self, a, v, S, e):
        if a[0] == 'blk':
            a = ('blkf', a[1], self.bfield(0))
        if a[0] == 'yy':
            f = a[1]
            if f == 'prev_block':
                if v == NULLV:
                    if isinstance(S.prev, int):
                        self.lose(S, S.prev, 'the closed block is dropped')
                    S.prev = None
                elif v[0] == 'blk':
                    if isinstance(S.prev, int) and S.prev != v[1]:
                        self.lose(S, S.prev, 'the closed block is dropped')
                    S.prev = v[1]
                else:
                    raise Undecided('prev_block = ' + v[0])
            elif f == '__':
                S.ret = v
            elif f == 'result':
                S.result = v
            elif f == 'eof' or f == 'consumed':
                S.note('%s set' % f)
            else:
                raise Undecided('store to yy->' + str(f))
        elif a[0] == 'var':
            S.scopes[-1][a[1]] = v
        elif a[0] in ('blkf', 'loc', 'errno'):
            if a[0] == 'loc':
                pass
        else:
            raise Undecided('store to ' + a[0])

    def lose(self, S, b, why):
        x = S.heap[b]
        if x.unref or x.orphans - NOISE or x.noise:
            self.bad('lost', 'nodes of the block are lost: ' + why, S)
        for v in x.unref:
            S.gone |= {v}
        x.unref = {}

    def bad(self, rule, msg, S, key=None):
        self.report(rule, self.cur, key, msg, S.path())

    # ---- loops in the action functions
    def loop(self, fn, ps, p, e, k, S, env):
        backs = [q for q in ps if q.end[0] == 'back' and q.end[1] == e[1]]
        body = []
        for q in backs:
            i = next((j for j, x in enumerate(q.events) if x[0] == 'loop' and x[1] == e[1]), None)
            if i is None:
                raise Undecided('loop in ' + fn.src)
            body.append((q, [x for x in q.events[i + 1:] if x[0] in ('store', 'copy', 'zero') or x[0] == 'call' and x[1] not in PURE_CALLS and x[1] not in PURE_LIB
                             and x[1] not in ('astnodes_get', 'astnodes_size', 'astnodes_elements', 'cp_sb_data', 'cp_sb_length')]))
        env.snap(('loop', e[1]), S)
        for ph, init in e[2].items():
            env.phis[ph] = ('phi', env.ev(init, S))
        if all(not b for q, b in body):
            # nothing changes in the loop: a scan
            self.scan(fn, ps, p, e, k, S, env, [q for q, b in body])
            return None
        # the children of a block are moved to another one
        if len(body) == 1 and len(body[0][1]) == 1 and body[0][1][0][0] == 'call' and body[0][1][0][1] == 'astnodes_push':
            q, (push,) = body[0]
            env2 = env.fork()
            dst = env2.ev(push[2][0], S)
            # element pushed
            src = push[2][1]
            get = next((x for x in q.events if x[0] == 'call' and x[3] == src), None)
            ev = None
            if get is not None and get[1] == 'astnodes_get':
                ev = (env2.ev(get[2][0], S), get[2][1])
            elif src[0] == 'ld' and src[1][0] == 'addr' and len(src[1][3]) == 1 and src[1][3][0][1] == 8:
                b = env2.ev(src[1][1], S)
                if b[0] == 'kidp':
                    ev = (('blkf', b[1], 'children'), src[1][3][0][0])
            if ev and ev[0][0] == 'blkf' and ev[0][2] == 'children' and ev[1][0] == 'phi' and dst[0] == 'blkf' and dst[2] == 'children':
                ph = ev[1][1]
                full = e[2].get(ph) == ('c', 0) and q.back.get(ph) in (('add', ('c', 1), ('phi', ph)), ('add', ('phi', ph), ('c', 1)))
                # left at the number of children
                at = [a for a, v, j in q.order if j > 0 and a[0] == 'cmp' and a[1] in ('ult', 'slt', 'eq')]
                bound = None
                for a in at:
                    if a[2] in (('add', ('c', 1), ('phi', ph)), ('phi', ph)):
                        bound = env2.ev(a[3], S)
                if full and bound == ('kidn', ev[0][1]):
                    env.vals[push[3]] = ('c', 0)
                    env.skip.add(push[3])
                    if get is not None:
                        env.skip.add(get[3])
                    self.move(S, ev[0][1], dst[1])
                    env.dec['moved'] = ev[0][1]
                    return None
                raise Undecided('the children loop of %s is not understood' % fn.src)
        raise Undecided('loop in ' + fn.src)

    def move(self, S, src, dst):
        a, b = S.heap[src], S.heap[dst]
        b.built = False
        b.noise |= a.noise
        b.orphans |= a.orphans
        b.unref.update(a.unref)
        b.toks |= a.toks
        b.seq = b.seq.rename(lambda l: dst if l == src else l, lambda v: v)
        a.seq = a.seq.rename(lambda l: dst if l == src else l, lambda v: v)
        S_moved = set(a.unref)
        a.noise, a.orphans, a.unref = False, frozenset(), {}

    def scan(self, fn, ps, p, e, k, S, env, backs):
        """a counting loop over the front of a sequence: while (n < size && instanceof(seq[n], T)) n++"""
        for ph in e[2]:
            if e[2][ph] != ('c', 0):
                continue
            T = None
            for q in backs:
                if q.back.get(ph) not in (('add', ('c', 1), ('phi', ph)), ('add', ('phi', ph), ('c', 1))):
                    T = None
                    break
                for a, v, j in q.order:
                    if a[0] == 'bool' and a[1][:2] == ('call', 'cypher_astnode_instanceof') and a[1][3][0] == 'c':
                        el = env.elem(a[1][2], S)
                        if el and el[1] == ('phi', ph):
                            t = (el[0], self.vt_name(a[1][3][1]), v)
                            T = t if T in (None, t) else False
            if T and T[1]:
                env.phis[ph] = ('prefix',) + T

    def vt_name(self, k):
        return self.typeconst.get(k)

    # ---- primitives
    def primitive(self, n, a, S, env, e, fn):
        one = lambda v=('?',): [(S, v)]
        if n == 'blocks_last':
            if not S.frames:
                raise NeedInline('no open block')
            return one(('blk', S.frames[-1]))
        if n == 'blocks_pop':
            if len(S.frames) == 1 and S.frames[0] == 0 and not getattr(S, 'inlined', False):
                raise NeedInline('closes a block of its caller')
            if not S.frames:
                raise NeedInline('closes a block of its caller')
            b = S.frames[-1]
            S.frames = S.frames[:-1]
            return one(('blk', b))
        if n == 'blocks_push':
            if a[1][0] != 'blk':
                raise Undecided('blocks_push of ' + a[1][0])
            S.frames += (a[1][1],)
            return one(('c', 0))
        if n == 'blocks_size':
            return one(('?n',))
        if n == 'malloc':
            b = max(list(S.heap) + [0]) + 1
            S.heap[b] = Block()
            return one(('blk', b))
        if n == 'free':
            return one()
        if n == 'block_free':
            x = a[0]
            if x == NULLV:
                return one()
            if x[0] == 'E':
                S.freedE = True
                return one()
            if x[0] != 'blk':
                raise Undecided('block_free of ' + x[0])
            self.lose(S, x[1], 'the block is released while it still has children')
            if S.heap[x[1]].seq.n and S.heap[x[1]].seq.types() - NOISE:
                self.bad('sequence', 'collected nodes (%s) are dropped with their block' % ', '.join(sorted(S.heap[x[1]].seq.types()))[:80], S)
            if S.prev == x[1]:
                S.prev = 'F'
            S.heap[x[1]].seq = Seq()
            return one()
        if n in ('astnodes_init', 'astnodes_cleanup', 'input_position', 'offsets_last', 'cp_sb_data', 'cp_sb_length', '__ctype_b_loc', 'isspace', 'strlen'):
            if n == 'cp_sb_data':
                return one(('sbp',))
            if n == 'cp_sb_length':
                return one(('sbn',))
            return one()
        if n == '__errno_location':
            return one(('errno',))
        if n in ('astnodes_elements', 'astnodes_size', 'astnodes_clear', 'astnodes_push', 'astnodes_get', 'astnodes_npop', 'astnodes_last', 'astnodes_pop'):
            x = a[0]
            if x[0] == 'blkfE':
                raise NeedInline('uses a block of its caller')
            if x[0] != 'blkf':
                raise Undecided('%s on %s' % (n, x[0]))
            b, f = x[1], x[2]
            B = S.heap[b]
            if n == 'astnodes_elements':
                return one(('seqp' if f == 'sequence' else 'kidp', b, 0))
            if n == 'astnodes_size':
                return one(('seqn' if f == 'sequence' else 'kidn', b))
            if n == 'astnodes_clear':
                if f == 'sequence':
                    B.seq = Seq()
                    B.since, B.opbad = 0, False
                else:
                    if env.dec.get('moved') == b or B.built:
                        pass
                    elif B.kids():
                        self.bad('lost', 'children of the block are forgotten without being handed to a node', S)
                    B.noise, B.orphans, B.unref = False, frozenset(), {}
                    B.built = False
                return one()
            if n == 'astnodes_push':
                v = a[1]
                if env.skip and e[3] in env.skip:
                    return one(('c', 0))
                if f == 'sequence':
                    self.seqadd(S, b, v)
                else:
                    self.childadd(S, b, v)
                return one(('c', 0))
            if n == 'astnodes_get':
                if e[3] in env.skip:
                    return one()
                return one(('elem', f, b, a[1]))
            raise Undecided(n + ' in an action')
        if n == 'operators_push':
            S.ops += (frozenset([self.opname(a[1])]),)
            self.opd(S, 1)
            self.hook('op_push', S, self.opname(a[1]))
            S.last = '.'
            return one(('c', 0))
        if n == 'operators_pop':
            if not S.ops:
                raise NeedInline('pops an operator of its caller')
            o = S.ops[-1]
            S.ops = S.ops[:-1]
            self.opd(S, -1)
            return one(('op', o))
        if n == 'operators_size':
            return one(('opn',))
        if n == 'operators_elements':
            return one(('opp',))
        if n == 'operators_npop':
            x = a[1]
            S.ops_dec = None
            nn = self.number(x, S)
            if nn is None:
                raise Undecided('number of operators popped')
            b, off = nn
            # size of the block's sequence plus off
            k = self.seqlen(S, b, off)
            if isinstance(k, int):
                S.ops = S.ops[:len(S.ops) - k] if k <= len(S.ops) else S.ops
            else:
                S.ops = ()
            return one()
        if n in ('cp_sb_reset', 'cp_sb_clear'):
            S.sb = 'R'
            self.hook('sb', S, ('reset',))
            return one()
        if n == 'cp_sb_append':
            self.hook('sb', S, ('append', a[1], a[2]))
            return one(('c', 0))
        if n == 'cypher_ast_free':
            return one()
        if n.startswith('cypher_ast_') and n in self.cspec:
            return [(S, self.build(n, a, S, env, fn))]
        if n == 'cypher_astnode_instanceof':
            return one(('isa', a[0], a[1]))
        if n in PURE_CALLS or n in PURE_LIB:
            return one()
        if n in ('siglongjmp', '__assert_fail', 'longjmp'):
            return []
        return None

    def hook(self, what, S, data):
        for h in self.events:
            h(what, S, data)

    def opd(self, S, d):
        if S.frames:
            b = S.heap[S.frames[-1]]
            if b.seq.n:
                b.since = max(-3, min(3, b.since + d))

    def opname(self, v):
        if v[0] == 'g':
            return v[1]
        if v[0] == 'op':
            return v[1]
        raise Undecided('operator value ' + v[0])

    def number(self, x, S):
        """x = |sequence of b| + off -> (b, off)"""
        if x[0] == 'seqn':
            return x[1], 0
        if x[0] == 'sum' and x[1][0] == 'seqn':
            return x[1][1], x[2]
        return None

    def seqlen(self, S, b, off):
        n = S.heap[b].seq.n
        if n >= CAP:
            return None
        return n + off

    def seqadd(self, S, b, v):
        B = S.heap[b]
        if v[0] == 'null' or v[0] == 'node' and v[2]:
            self.bad('null', 'a missing value is added to the sequence', S)
            if v[0] == 'null':
                return
        if v[0] != 'node':
            self.bad('undefined', 'a value that was never set is added to the sequence', S)
            return
        loc = S.loc(v[3])
        o = S.ord.get(v[3], 0)
        if B.seq.lastord is not None and o < B.seq.lastord:
            self.bad('order', 'nodes are collected in another order than they were parsed in', S)
        if B.seq.n and B.since != 1:
            B.opbad = True
        B.since = 0
        B.seq = B.seq.add(v[1], loc, v[3], o)

    def childadd(self, S, b, v):
        if v[0] != 'node':
            raise Undecided('child of kind ' + v[0])
        if S.loc(v[3]) != 'gone':
            self.bad('owner', 'a node becomes the child of two blocks', S)
        S.heap[b].built = False
        if v[1] <= NOISE:
            S.heap[b].noise = True
            S.heap[b].unref[v[3]] = v[1]
        else:
            S.heap[b].unref[v[3]] = v[1]

    # ---- constructors
    def build(self, n, a, S, env, fn):
        sp = self.cspec[n]
        h = self.header[n]['params']
        names = [p for p, t in h]
        ps = sp['params']
        blk = None
        got = {}
        for k, p in enumerate(names):
            v = a[k] if k < len(a) else ('?',)
            got[p] = v
        self.nbuild = getattr(self, 'nbuild', 0) + 1
        if 'E' in (x[0] for x in a) or any(x[0] in ('blkfE', 'atE') for x in a):
            raise NeedInline('uses a block of its caller')
        # the block the node is made of
        rng = got.get('range')
        if rng is not None:
            b = self.range_of(rng, env)
            if b == 'E':
                raise NeedInline('uses a block of its caller')
            if b is None:
                self.bad('block', '%s: the range is not that of the block just closed' % n, S)
            elif b == 'nil':
                self.bad('block', '%s: no closed block to take the range from' % n, S)
            else:
                blk = b
                if S.prev not in (blk, 'F') and S.prev != blk:
                    self.bad('block', '%s: the range is that of another block' % n, S)
        kids = got.get('children')
        B = S.heap.get(blk) if blk is not None else None
        if kids is not None and B is not None:
            if kids != ('kidp', blk, 0):
                self.bad('children', '%s: children are not those of the closed block (%s)' % (n, kids[0]), S)
            if got.get('nchildren') != ('kidn', blk):
                self.bad('children', '%s: the number of children is not that of the closed block' % n, S)
            S.heap[blk].built = True
        used = set()
        order = []
        usedseq = False
        for p, q in ps.items():
            v = got.get(p)
            if q['kind'] == 'node':
                self.arg(n, p, q, v, S, blk, used, order)
            elif q['kind'] == 'nodes':
                usedseq = True
                self.nodes(n, p, q, v, got.get(q['count']), S, blk, sp, q['count'] in (sp.get('nonzero') or ()))
            elif q['kind'] == 'operators':
                if v[0] != 'opsat':
                    self.bad('operators', '%s: %s is not the matched operators' % (n, p), S)
            elif q['kind'] == 'operator':
                if v[0] != 'op':
                    self.bad('operators', '%s: %s is not a matched operator' % (n, p), S)
            elif q['kind'] == 'string':
                self.string(n, p, v, got.get(q.get('len', 'n')), S, blk, env)
        if n == 'cypher_ast_comparison' and B is not None:
            if B.opbad or B.since != 0:
                self.bad('operators', 'comparison: the number of operators differs from the number of operands less one', S)
        # operands in the order in which they were parsed
        for i in range(len(order)):
            for j in range(i + 1, len(order)):
                (p1, v1, q1), (p2, v2, q2) = order[i], order[j]
                if v1[3] != v2[3] and S.ord.get(v1[3], 0) > S.ord.get(v2[3], 0) and self.overlap(q1['types'], q2['types']):
                    self.bad('order', '%s: %s is parsed before %s' % (n, p2, p1), S)
        if B is not None and kids is not None:
            left = set()
            for v, t in B.unref.items():
                if v not in used and v not in B.seq.vids and not t <= NOISE:
                    left |= t
            left |= B.orphans - NOISE
            if left:
                self.bad('dropped', '%s: a parsed operand (%s) is not part of the node' % (n, ', '.join(sorted(left))[:80]), S)
            if not usedseq and B.seq.n:
                self.bad('sequence', '%s: collected nodes (%s) are not passed to the node' % (n, ', '.join(sorted(B.seq.types()))[:80]), S)
        if B is not None and kids is None and (B.unref or B.orphans or B.noise):
            self.bad('terminal', '%s: a node without children is made of a block with children' % n, S)
        if B is not None and kids is None and B.seq.n:
            self.bad('sequence', '%s: collected nodes are dropped' % n, S)
        self.hook('build', S, (n, got, B, self.cur))
        v = S.new({sp['type']})
        return v

    def overlap(self, a, b):
        return any(self.isa(x, y) or self.isa(y, x) for x in a for y in b)

    def isa(self, t, T):
        return t == T or T in self.anc.get(t, ())

    def arg(self, n, p, q, v, S, blk, used, order):
        if v[0] == 'null':
            if not q['optional']:
                self.bad('type', '%s: %s is missing' % (n, p), S)
            return
        if v[0] == 'E':
            raise NeedInline('uses a value of its caller')
        if v[0] != 'node':
            self.bad('undefined', '%s: %s is never set on this path' % (n, p), S)
            return
        if v[2] and not q['optional']:
            self.bad('type', '%s: %s may be missing' % (n, p), S)
        wrong = [t for t in v[1] if not any(self.isa(t, T) for T in q['types'])]
        if wrong:
            self.bad('type', '%s: %s may be a %s' % (n, p, sorted(wrong)[0]), S)
        if blk is not None and S.loc(v[3]) != blk:
            self.bad('member', '%s: %s is not among the children of the block' % (n, p), S)
        used.add(v[3])
        order.append((p, v, q))

    def nodes(self, n, p, q, v, cnt, S, blk, sp, nonzero):
        if v[0] == 'null' and cnt == ('c', 0):
            return
        if v[0] != 'seqp' or v[1] != blk:
            self.bad('children', '%s: %s is not the sequence of the closed block' % (n, p), S)
            return
        sq = S.heap[blk].seq
        off = v[2]
        types, cyc = None, len(q['types'])
        if off == 0 and cnt == ('seqn', blk):
            lo, positions = sq.n, [sq.even, sq.odd]
        elif off == 0 and cnt[0] == 'sum' and cnt[1] == ('seqn', blk) or cnt[0] == 'half':
            lo, positions = sq.n, [sq.even, sq.odd]
        elif sq.n == 0 and off == 0 and cnt == ('c', 0):
            lo, positions = 0, [frozenset()] * 2
        elif off == 0 and cnt[0] == 'prefix' and cnt[1] == blk:
            types = frozenset(t for t in sq.types() if self.isa(t, cnt[2]) == cnt[3])
            lo, positions = 0, [types, types]
        elif isinstance(off, tuple) and off[0] == 'prefix' and cnt == ('minus', ('seqn', blk), off):
            # everything after the leading elements (of that type, or not of that type)
            isT = lambda t: self.isa(t, off[2]) == off[3]
            start = frozenset(t for t in sq.first if not isT(t)) | frozenset(b for x, b in sq.adj if isT(x) and not isT(b))
            reach = set(start)
            work = list(start)
            while work:
                x = work.pop()
                for y, z in sq.adj:
                    if y == x and z not in reach:
                        reach.add(z)
                        work.append(z)
            lo = 1 if sq.n and not any(isT(t) for t in sq.last) else 0
            positions = [frozenset(reach)] * 2
        elif off == 0 and n == 'cypher_ast_comparison':
            lo, positions = sq.n, [sq.even, sq.odd]
        else:
            self.bad('children', '%s: %s is not all of the collected nodes' % (n, p), S)
            return
        if nonzero and lo == 0:
            self.bad('type', '%s: %s may be empty' % (n, p), S)
        for k, ts in enumerate(positions):
            want = q['types'][k % cyc]
            wrong = [t for t in ts if not any(self.isa(t, T) for T in want)]
            if wrong:
                self.bad('type', '%s: %s may have a %s' % (n, p, sorted(wrong)[0]), S)
        if any(l != blk for l in sq.locs):
            self.bad('member', '%s: an element of %s is not among the children of the block' % (n, p), S)
        if 'pattern_path' in n and sq.par != 1:
            self.bad('type', '%s: the path may have an even number of elements' % n, S)
        if sp.get('even') and sq.par != 0:
            self.bad('type', '%s: keys and values do not pair up' % n, S)
        if n == 'cypher_ast_comparison' and sq.n < 2:
            self.bad('type', '%s: fewer than two operands' % n, S)

    def string(self, n, p, v, cnt, S, blk, env):
        src = env.root(v)
        if src == ('sbp',):
            if cnt is not None and cnt != ('sbn',):
                self.bad('text', '%s: the length is not that of the string buffer' % n, S)
            if S.sb == 'E':
                S.need = True
            elif S.sb != 'R':
                self.bad('text', '%s: the string buffer was not reset before the text was collected' % n, S)
            S.sb = 'U'
            self.hook('text', S, ('sb', n))
        elif src[0] == 'bufp':
            if src[1] != blk:
                self.bad('text', '%s: the text is not that of the closed block' % n, S)
            self.hook('text', S, ('block', n))
        elif src[0] == '?':
            raise Undecided('text of ' + n)
        else:
            self.bad('text', '%s: the text is neither the string buffer nor the block (%s)' % (n, src[0]), S)

    def range_of(self, r, env):
        if r[0] == 'loc':
            x = env.mem.get(r[1])
            r = x[1] if x else ('?',)
        if r[0] == 'blkf' and r[2] == 'range':
            return r[1]
        if r[0] == 'blkfE':
            return 'E'
        if r[0] == 'nilf':
            return 'nil'
        return None


class Env:
    """values of the C expressions of one call"""
    def __init__(self, M, fn, args, S):
        self.M, self.fn, self.args = M, fn, args
        self.vals, self.phis, self.mem, self.dec = {}, {}, {}, {}
        self.snaps = {}
        self.skip = set()
        self.snap(None, S)
    def fork(self):
        e = Env.__new__(Env)
        e.M, e.fn, e.args = self.M, self.fn, self.args
        e.vals, e.phis, e.mem, e.dec, e.snaps, e.skip = dict(self.vals), dict(self.phis), dict(self.mem), dict(self.dec), dict(self.snaps), set(self.skip)
        return e
    def snap(self, k, S):
        self.snaps[k] = (S.prev, S.ret, tuple(dict(d) for d in S.scopes), S.frames)
    def at(self, epoch):
        if epoch is None:
            return self.snaps[None]
        if epoch[0] == 'after':
            return self.snaps.get(('id', epoch[1]), self.snaps[None])
        return self.snaps.get(('loop', epoch[1]), self.snaps[None])

    def ev(self, e, S):
        k = e[0]
        if k == 'arg':
            return self.args[e[1]]
        if k in ('c', 'null', 'errno'):
            return e
        if k == 'g':
            return e
        if k == 'alloca':
            return ('loc', e)
        if k == 'phi':
            return self.phis.get(e[1], ('?',))
        if k == 'call':
            if e in self.vals:
                return self.vals[e]
            if e[1] == 'cypher_astnode_instanceof':
                return ('isa', self.ev(e[2], S), e[3])
            return ('?',)
        if k == 'addr':
            b = self.ev(e[1], S)
            return self.addr(b, e[2], e[3], S)
        if k == 'ld':
            return self.load(self.ev(e[1], S), e[2] if len(e) > 2 else None, S)
        if k == 'add' and e[1][0] == 'c':
            x = self.ev(e[2], S)
            return self.plus(x, e[1][1])
        if k in ('add', 'sub'):
            l = self.linear(e, S)
            if l is not None:
                t = sorted(x for x in l.items() if x[0] != 1 and x[1])
                b = {x[0][1] for x in t}
                if len(t) == 2 and len(b) == 1 and t == [(('bufend',) + tuple(b), 1), (('bufstart',) + tuple(b), -1)]:
                    return ('bufn', b.pop()) if not l.get(1) else ('bufpart', b.pop(), l[1])
        if k == 'sub':
            x, y = self.ev(e[1], S), self.ev(e[2], S)
            if x[0] == 'opn':
                return ('opback', y)
            if x[0] == 'bufend' and y[0] == 'bufstart' and x[1] == y[1]:
                return ('bufn', x[1])
            if x[0] == 'seqn':
                return ('minus', x, y)
            return ('?',)
        if k in ('lshr', 'udiv', 'sdiv'):
            x = self.ev(e[1], S)
            if x[0] == 'seqn' and e[2] in (('c', 1), ('c', 2)):
                return ('half', x[1])
            return ('?',)
        if k == 'xor' and (('c', 1) in e[1:] or ('c', -1) in e[1:]) or k == 'cmp' and e[1] == 'eq' and e[3] == ('c', 0):
            x = self.ev(e[1] if k == 'xor' and e[2] in (('c', 1), ('c', -1)) else e[2], S)
            return ('c', int(not x[1])) if x[0] == 'c' and x[1] in (0, 1, -1) else ('?',)
        if k == 'cmp' and e[1] == 'ne' and e[3] == ('c', 0):
            x = self.ev(e[2], S)
            return ('c', int(x[1] != 0)) if x[0] == 'c' else ('?',)
        if k == 'select':
            t = self.ev(e[1], S)
            if t[0] != 'c':
                t = self.truth(e[1], S) if e[1][0] == 'cmp' else None
                t = None if t is None else ('c', int(t))
            return self.ev(e[2] if t[1] & 1 else e[3], S) if t else ('?',)
        return ('?',)

    def linear(self, e, S):
        """e as a sum of positions in the input and a constant"""
        k = e[0]
        if k == 'c':
            return {1: e[1]}
        if k in ('add', 'sub') or k == 'xor' and e[1] == ('c', -1):
            l = self.linear(e[1], S) if k != 'xor' else {1: -1}
            r = self.linear(e[2], S)
            if l is None or r is None:
                return None
            sg = 1 if k == 'add' else -1
            out = dict(l)
            for x, n in r.items():
                out[x] = out.get(x, 0) + sg * n
            return out
        x = self.ev(e, S)
        if x[0] in ('bufend', 'bufstart'):
            return {x: 1}
        return None

    def plus(self, x, c):
        if x[0] == 'c':
            return ('c', x[1] + c)
        if x[0] == 'seqn':
            return ('sum', x, c) if c else x
        if x[0] == 'sum':
            return ('sum', x[1], x[2] + c) if x[2] + c else x[1]
        if x[0] == 'prefix' and c == 1:
            # one more round than the header has seen: the loop was left behind the increment
            return x
        return ('?',)

    def addr(self, b, off, var, S):
        M = self.M
        if b == ('yyp',):
            if var:
                return ('?',)
            return ('yy', M.yyfield(off))
        if b[0] == 'valp':
            if not var and off % 8 == 0 and off < 0:
                return ('var', -off // 8)
            return ('?',)
        if b[0] == 'blk':
            if var:
                return ('?',)
            return ('blkf', b[1], M.bfield(off))
        if b[0] == 'E':
            return ('blkfE', M.bfield(off))
        if b == NULLV:
            return ('nilf', M.bfield(off))
        if b[0] == 'seqp':
            if not off and len(var) == 1 and var[0][1] == 8 and b[2] == 0:
                return ('seqp', b[1], self.ev(var[0][0], S))
            return b if not off and not var else ('?',)
        if b[0] == 'opp':
            if not off and len(var) == 1 and var[0][1] == 8:
                x = self.ev(var[0][0], S)
                if x[0] == 'opback':
                    return ('opsat', x[1])
            return ('?',)
        if b == ('buf',):
            if off and len(var) == 1 and var[0][1] == 1 and self.ev(var[0][0], S)[0] == 'bufstart':
                return ('bufpart', self.ev(var[0][0], S)[1], off)
            if not off and len(var) == 1 and var[0][1] == 1:
                x = self.ev(var[0][0], S)
                if x[0] == 'bufstart':
                    return ('bufp', x[1])
            return ('?',)
        if b[0] in ('bufp', 'phi'):
            return ('within', b)
        if b[0] == 'g':
            return ('gstr', b[1], off) if not var else ('?',)
        return ('?',)

    def load(self, a, epoch, S):
        if a[0] == 'blk':
            a = ('blkf', a[1], self.M.bfield(0))
        elif a[0] == 'E':
            raise NeedInline('uses a block of its caller')
        if a == ('yyp',):
            return ('buf',)
        if a[0] == 'g':
            return ('op', a[1])
        if a[0] == 'yy':
            prev, ret, scopes, frames = self.at(epoch)
            f = a[1]
            if f == 'prev_block':
                if prev == 'E':
                    return ('E',)
                if prev is None or prev == 'F':
                    return NULLV
                return ('blk', prev)
            if f == '__':
                return ret
            if f == '__val':
                return ('valp',)
            if f == '__buf':
                return ('buf',)
            return ('?',)
        if a[0] == 'var':
            prev, ret, scopes, frames = self.at(epoch)
            return scopes[-1].get(a[1], ('undef',))
        if a[0] == 'blkf':
            if a[2] == 'buffer_start':
                return ('bufstart', a[1])
            if a[2] == 'buffer_end':
                return ('bufend', a[1])
            return ('?',)
        if a[0] == 'blkfE':
            raise NeedInline('uses a block of its caller')
        if a[0] == 'nilf':
            return ('nil',)
        if a[0] == 'loc':
            return self.mem.get(a[1], ('?',))
        if a[0] == 'seqp':
            return ('elem', 'sequence', a[1], a[2])
        return ('?',)

    def root(self, v):
        while v[0] in ('within', 'phi'):
            v = v[1]
        return v

    def elem(self, x, S):
        """(block, index expression) of an element of a sequence"""
        if x[0] == 'ld' and x[1][0] == 'addr' and len(x[1][3]) == 1 and x[1][3][0][1] == 8:
            b = self.ev(x[1][1], S)
            if b[0] == 'seqp' and b[2] == 0:
                return b[1], x[1][3][0][0]
        if x[0] == 'call' and x in self.vals and self.vals[x][0] == 'elem':
            return self.vals[x][2], x[3] if len(x) > 3 else None
        return None

    # ---- conditions
    def truth(self, a, S):
        if a[0] == 'bool':
            e = self.ev(a[1], S) if a[1][0] != 'call' or a[1] in self.vals else self.ev(a[1], S)
            if e[0] == 'isa' and e[1][0] == 'node' and e[2][0] == 'c':
                T = self.M.typeconst.get(e[2][1])
                if T is None:
                    return None
                r = {self.M.isa(t, T) for t in e[1][1]}
                if len(r) == 1 and not e[1][2]:
                    return r.pop()
            if e[0] == 'c':
                return bool(e[1])
            return None
        if a[0] == 'cmp':
            x, y = self.ev(a[2], S), self.ev(a[3], S)
            if a[1] == 'eq' and y == NULLV:
                if x == NULLV:
                    return True
                if x[0] == 'node':
                    return None if x[2] else False
                if x[0] in ('blk', 'seqp', 'kidp', 'buf', 'bufp'):
                    return False
                if x[0] == 'E':
                    return None
                return None
            if a[1] == 'eq' and x[0] == 'c' and y[0] == 'c':
                return x[1] == y[1]
            if a[1] == 'eq' and y == ('c', 0) and x[0] == 'kidn':
                # the loop over the children is entered or not; both are the same thing
                return None
            if a[1] == 'eq' and y == ('c', 0) and x[0] == 'seqn':
                n = S.heap[x[1]].seq.n
                return n == 0
            return None
        return None

    def refine(self, a, v, S):
        """False: the path is impossible"""
        if a[0] == 'bool':
            e = self.ev(a[1], S)
            if e[0] == 'isa' and e[1][0] == 'node' and e[2][0] == 'c':
                T = self.M.typeconst.get(e[2][1])
                if T is None:
                    return True
                old = e[1]
                keep = frozenset(t for t in old[1] if self.M.isa(t, T) == v)
                if not keep and not (old[2] and not v):
                    return False
                new = old[:1] + (keep or old[1], old[2] and not v) + old[3:]
                for d in S.scopes:
                    for n, x in d.items():
                        if x == old:
                            d[n] = new
                if S.ret == old:
                    S.ret = new
                for b in S.heap.values():
                    if old[3] in b.unref:
                        b.unref[old[3]] = new[1]
                return True
            return True
        if a[0] == 'cmp' and a[1] == 'eq':
            x, y = self.ev(a[2], S), self.ev(a[3], S)
            if y == ('c', 0) and x[0] == 'kidn':
                B = S.heap[x[1]]
                if v and (B.unref or B.orphans):
                    return False
                if not v and not B.kids():
                    return False
                if v:
                    B.noise = False
                return True
            if y == NULLV and x[0] == 'node' and x[2]:
                for d in S.scopes:
                    for n, z in list(d.items()):
                        if z == x:
                            d[n] = NULLV if v else z[:2] + (False,) + z[3:]
                return True
        return True


class Exec(Machine):
    """follows the grammar"""
    def setup(self, gen, header, anc, typeconst, macros):
        self.header, self.anc, self.typeconst, self.macros = header, anc, typeconst, macros
        # slots of the variables, from the generated code
        for x in re.finditer(r'YY_ACTION\(void\) (yy_(\d+)_(\w+))\(.*?\n\{\n(.*?)\n  yyprintf', gen, re.S):
            for v in re.finditer(r'#define (\w+) yy->__val\[-(\d+)\]', x.group(4)):
                self.slots.setdefault(x.group(3), {})[v.group(1)] = int(v.group(2))
        self.lmemo, self.opq = {}, {}
        cap, plain = set(), set()
        for r, e in self.g.rules.items():
            for x in self.g.walk(e):
                if x[0] == 'rule':
                    (cap if x[2] else plain).add(x[1])
        self.captured = cap - plain
        self._yf, self._bf = {}, {}

    def yyfield(self, off):
        if off not in self._yf:
            x = self.m.field_at('_yycontext', off)
            self._yf[off] = x['n'] if x else None
        return self._yf[off] or 'off%d' % off

    def bfield(self, off):
        if off not in self._bf:
            x = self.m.field_at('block', off)
            self._bf[off] = x['n'] if x else None
        return self._bf[off] or 'off%d' % off

    # ---- liveness of the variables of a rule
    def before(self, e, rule, out):
        """variables live before e, given those live after it"""
        k = e[0]
        key = (id(e), out)
        if key in self.lmemo:
            return self.lmemo[key]
        r = out
        if k == 'seq':
            for x in reversed(e[1]):
                r = self.before(x, rule, r)
        elif k == 'alt':
            r = frozenset().union(*[self.before(x, rule, out) for x in e[1]]) if e[1] else out
        elif k == 'opt':
            r = out | self.before(e[1], rule, out)
        elif k in ('star', 'plus'):
            h = self.head(e, rule, out)
            r = h if k == 'star' else self.before(e[1], rule, h)
        elif k == 'err':
            r = self.before(e[1], rule, out)
        elif k == 'rule' and e[2]:
            r = (out - {e[2]}) - {'$$'}
        elif k == 'act':
            t = re.sub(r'"(?:\\.|[^"\\])*"', '""', e[2])
            x = re.match(r'\s*(\$\$|\w+)\s*=(?!=)', t)
            if x:
                r = out - {x.group(1)}
                t = t[x.end():]
            names = set(self.g.vars[rule])
            r = r | frozenset(w for w in re.findall(r'\$\$|\w+', t) if w in names or w == '$$')
        self.lmemo[key] = r
        return r

    def head(self, e, rule, out):
        h = out
        while True:
            n = h | self.before(e[1], rule, h)
            if n == h:
                return h
            h = n

    def prune(self, S, rule, live):
        sl = self.slots.get(rule, {})
        keep = {sl.get(v, 'v:' + v) for v in live}
        for s in S:
            d = s.scopes[-1]
            for x in list(d):
                if x not in keep:
                    del d[x]
            if '$$' not in live and s.ret != ('E',):
                s.ret = ('dead',)
        return S

    # ---- expressions of the grammar
    def ex(self, e, S, rule, live=frozenset(['$$'])):
        k = e[0]
        if not S:
            return S
        if len(S) > self.limit:
            raise Undecided('too many states in rule ' + rule)
        if k == 'seq':
            outs, l = [], live
            for x in reversed(e[1]):
                outs.append(l)
                l = self.before(x, rule, l)
            for x, l in zip(e[1], reversed(outs)):
                S = self.ex(x, S, rule, l)
            return S
        if k == 'alt':
            out = []
            for x in e[1]:
                out.extend(self.ex(x, [s.copy() for s in S], rule, live))
            return dedup(self.prune(out, rule, live))
        if k == 'opt':
            return dedup(self.prune([s.copy() for s in S] + self.ex(e[1], S, rule, live), rule, live))
        if k in ('star', 'plus'):
            h = self.head(e, rule, live)
            if k == 'plus':
                S = self.ex(e[1], S, rule, h)
            seen, work = {}, dedup(self.prune([s.copy() for s in S], rule, h))
            for s in work:
                seen[s.shape()] = s
            while work:
                nxt = dedup(self.prune(self.ex(e[1], [s.copy() for s in work], rule, h), rule, h))
                work = []
                for s in nxt:
                    kk = s.shape()
                    if kk not in seen:
                        seen[kk] = s
                        work.append(s)
                    elif seen[kk].join(s):
                        work.append(seen[kk])
                if len(seen) > self.limit:
                    raise Undecided('too many states in a repetition of rule ' + rule)
            return dedup(self.prune([s.copy() for s in seen.values()], rule, live))
        if k in ('not', 'and'):
            return S
        if k == 'err':
            return self.ex(e[1], S, rule, live)
        if k == 'str':
            x = e[1].decode('latin1')
            if x in self.flags:
                for s in S:
                    if s.frames:
                        s.heap[s.frames[-1]].toks |= {x}
                    s.last = x if x in self.roles else '.'
            return S
        if k in ('cls', 'any'):
            return S
        if k == 'pred':
            fs = self.thunks(e[1])
            for f in fs:
                S = self.thunk(f, S, rule, '&{%s}' % e[1].strip())
            return S
        if k in ('begin', 'end'):
            mac = self.macros.get('YY_BEGIN' if k == 'begin' else 'YY_END')
            if mac is None:
                raise Undecided('no YY_BEGIN/YY_END')
            for f in self.thunks(mac[1]):
                S = self.thunk(f, S, rule, '<' if k == 'begin' else '>')
            return S
        if k == 'act':
            return dedup(self.prune(self.thunk('yy_%d_%s' % (e[1], rule), S, rule, '{%s}' % re.sub(r'\s+', ' ', e[2].strip())), rule, live))
        if k == 'rule':
            return dedup(self.prune(self.callrule(e[1], e[2], S, rule), rule, live))
        raise Undecided('grammar element ' + k)

    def thunks(self, text):
        t = self.expandmacros(text)
        return re.findall(r'yyDo\s*\(\s*yy\s*,\s*(\w+)', t)

    def expandmacros(self, t, depth=0):
        def sub(mm):
            n = mm.group()
            if n in self.macros and self.macros[n][0] is None and depth < 6 and n not in ('YY_BEGIN', 'YY_END'):
                return self.expandmacros(self.macros[n][1], depth + 1)
            return n
        t = re.sub(r'\b[A-Za-z_]\w*\b(?!\s*\()', sub, t)
        for n, (ps, body) in self.macros.items():
            if ps is not None and re.search(r'\b%s\s*\(' % re.escape(n), t) and 'yyDo' in body:
                t = t + ' ' + body
        return t

    def resolve(self, f):
        for n in self.fns.get(f, ()):
            if self.m.raw[n].get('file', '').endswith(('/parser.c', 'parser_leg.c')) and 'quick' not in self.m.raw[n].get('file', '') or self.m.raw[n].get('file', '') in ('parser.c', 'lib/src/parser.c'):
                return n
        raise Undecided('no function ' + f)

    def opaque(self, n):
        """the function (with what it calls) does nothing to blocks, nodes, operators or text"""
        if n not in self.opq:
            seen, work, ok = set(), [n], True
            while work:
                f = work.pop()
                if f in seen:
                    continue
                seen.add(f)
                if re.match(r'blocks_|astnodes_|operators_|block_|cp_sb_|cypher_ast', f):
                    ok = False
                fn = self.cfn(f)
                if fn is None:
                    continue
                for i in fn.calls():
                    if i.get('callee'):
                        work.append(i['callee'])
            if ok:
                fn = self.cfn(n)
                for p in effects(fn):
                    for e in p.events:
                        if e[0] == 'store' and e[1][0] == 'addr' and e[1][1] == ('arg', 0) and not e[1][3] \
                                and self.yyfield(e[1][2]) in ('prev_block', '__', 'result'):
                            ok = False
            self.opq[n] = ok
        return self.opq[n]

    def thunk(self, f, S, rule, what):
        n = self.resolve(f)
        if self.opaque(n):
            for s in S:
                s.note('%s: %s' % (rule, what))
            return S
        out = []
        for s in S:
            self.cur = (rule, what)
            s.note('%s: %s' % (rule, what))
            for s2, _ in self.run(n, [('yyp',), ('?',), ('?',)], s):
                if s2.prev == 'F':
                    self.bad('block', 'a released block is still the last closed one', s2)
                    s2.prev = None
                out.append(s2)
        return dedup(out)

    def callrule(self, r, var, S, rule):
        if r not in self.g.rules:
            raise Undecided('no rule ' + r)
        tok = self.tokens.get(r)
        out = []
        for s in S:
            before = s.last
            if r in self.inline:
                res = self.inlined(r, s)
            else:
                res = [self.apply(s.copy(), o, bool(var) or tok is not None) for o in self.sum.get(r, ())]
            for t in res:
                if t is None:
                    continue
                if t.ret[0] == 'node' and t.ret[4] in '^.' and before != '^':
                    self.setkw(t, t.ret[3], before)
                if tok is not None:
                    words = tok.split(' ')
                    t.last = tok if tok in self.optoks else words[-1] if words[-1] in self.roles else '.'
                    if t.frames:
                        t.heap[t.frames[-1]].toks |= {w.upper() for w in words} & self.flags
                    t.note('%s: %s' % (rule, tok))
                elif not var and t.last == '^':
                    t.last = before
                if var:
                    slot = self.slots.get(rule, {}).get(var)
                    if slot is None:
                        slot = 'v:' + var
                    v = t.ret
                    if v[0] == 'node' and v[2] is False:
                        pass
                    t.scopes[-1][slot] = v
                    t.last = '.'
                    t.note('%s: %s:%s' % (rule, var, r))
                out.append(t)
        return dedup(out)

    def setkw(self, t, vid, kw):
        f = lambda v: v[:4] + (kw,) if v[0] == 'node' and v[3] == vid and v[4] in '^.' else v
        t.ret = f(t.ret)
        t.result = f(t.result)

    def inlined(self, r, s):
        if self.depth > 12:
            raise Undecided('rule %s cannot be taken apart' % r)
        self.depth += 1
        try:
            s = s.copy()
            s.scopes = s.scopes + ({},)
            res = self.ex(self.g.rules[r], [s], r)
            for t in res:
                t.scopes = t.scopes[:-1]
            return dedup(res)
        finally:
            self.depth -= 1

    def apply(self, S, O, captured):
        """the effect of a rule whose outcome, from a neutral start, is O"""
        if O.freedE:
            if S.prev == 'E':
                S.freedE = True
            elif isinstance(S.prev, int):
                self.lose(S, S.prev, 'the next block starts before a node is made of it')
                S.heap[S.prev].seq = Seq()
        bm = {0: S.frames[-1]} if S.frames else {}
        nid = max(list(S.heap) + [0]) + 1
        for b in O.heap:
            if b != 0:
                bm[b] = nid
                nid += 1
        vm = {}
        base = S.clock()
        vs = sorted(O.ord, key=lambda v: O.ord[v])
        for v in vs:
            vm[v] = S.nv
            S.nv += 1
            S.ord[vm[v]] = base + O.ord[v]
        for b, x in O.heap.items():
            y = x.copy()
            y.unref = {vm[v]: t for v, t in x.unref.items()}
            y.seq = x.seq.rename(lambda l: bm.get(l, 'gone') if isinstance(l, int) else l, lambda v: vm.get(v))
            if y.seq.lastord is not None:
                y.seq.lastord += base
            if b == 0:
                T = S.heap[bm[0]]
                T.noise |= y.noise
                T.orphans |= y.orphans
                T.unref.update(y.unref)
                if y.seq.n:
                    T.opbad |= y.opbad or bool(T.seq.n)
                    T.since = y.since
                    T.seq = T.seq.concat(y.seq)
                else:
                    self.opd(S, len(O.ops))
                if not captured:
                    T.toks |= y.toks
            else:
                S.heap[bm[b]] = y
        S.frames = S.frames + tuple(bm[b] for b in O.frames[1:])
        if O.prev != 'E':
            S.prev = bm[O.prev] if isinstance(O.prev, int) else O.prev
        rv = lambda v: v[:3] + (vm[v[3]],) + v[4:] if v[0] == 'node' else v
        if O.ret != ('E',):
            S.ret = rv(O.ret)
        if O.result != ('E',):
            S.result = rv(O.result)
        S.ops = (S.ops + O.ops)[-4:]
        if O.need:
            if S.sb == 'E':
                S.need = True
            elif S.sb != 'R':
                self.bad('text', 'the string buffer is not reset before text is collected for the node made next', S)
        if O.sb != 'E':
            S.sb = O.sb
        if O.last != '^':
            S.last = O.last
        return S

    def summarise(self, r):
        self.depth = 0
        s = State()
        res = self.ex(self.g.rules[r], [s], r)
        for t in res:
            t.scopes = ({},)
            if r in self.captured:
                # the words within an operand are not those of the node it is given to
                t.heap[0].toks = frozenset()
        return dedup(res)

    def reach(self, starts):
        seen, work = [], list(starts)
        while work:
            r = work.pop()
            if r in seen or r not in self.g.rules:
                continue
            seen.append(r)
            for e in self.g.walk(self.g.rules[r]):
                if e[0] == 'rule':
                    work.append(e[1])
        return seen

    def solve(self, starts, log=None):
        rules = self.reach(starts)
        callers = {}
        for r in rules:
            for e in self.g.walk(self.g.rules[r]):
                if e[0] == 'rule':
                    callers.setdefault(e[1], set()).add(r)
        rep = self.report
        self.report = lambda *a: None
        quiet = self.events
        self.events = []
        work = list(reversed(rules))
        keys = {}
        n = 0
        order = {r: i for i, r in enumerate(work)}
        pend = set(work)
        while pend:
            r = min(pend, key=lambda x: order[x])
            pend.discard(r)
            if r in self.inline or r in self.undecided:
                continue
            n += 1
            if n > 6000:
                raise Undecided('the grammar analysis does not settle')
            try:
                res = self.summarise(r)
            except NeedInline as x:
                self.inline.add(r)
                pend |= callers.get(r, set())
                continue
            except Undecided as x:
                self.undecided[r] = str(x)
                continue
            k = frozenset(t.key() for t in res)
            if keys.get(r) != k:
                keys[r] = k
                self.sum[r] = res
                pend |= callers.get(r, set())
                # inlined rules pass changes on to their callers
                for q in callers.get(r, ()):
                    st, seen = [q], set()
                    while st:
                        z = st.pop()
                        if z in seen:
                            continue
                        seen.add(z)
                        if z in self.inline:
                            pend |= callers.get(z, set())
                            st += callers.get(z, ())
        self.report, self.events = rep, quiet
        # second pass: report
        for r in rules:
            if r in self.inline or r in self.undecided:
                continue
            try:
                self.summarise(r)
            except (NeedInline, Undecided) as x:
                self.undecided[r] = str(x)
        return n

def token_text(g):
    """rule -> the text of the keyword or sign it matches, blanks for optional space"""
    memo = {}
    def rule(n):
        if n in memo:
            return memo[n]
        memo[n] = None
        if n == '_' or n == '__':
            memo[n] = ' '
        elif n in ('WB', 'EOF', '_line_start_', '_empty_'):
            memo[n] = ''
        elif n in g.rules and not g.acts[n] and not g.vars[n]:
            memo[n] = text(g.rules[n])
        return memo[n]
    def text(e):
        k = e[0]
        if k == 'seq':
            out = ''
            for x in e[1]:
                t = text(x)
                if t is None:
                    return None
                out += t
            return out
        if k == 'err':
            return text(e[1])
        if k == 'str':
            return e[1].decode('latin1')
        if k == 'cls':
            cs = {chr(c).upper() for c in e[1]}
            return cs.pop() if len(cs) == 1 and len(e[1]) <= 2 else None
        if k == 'rule' and not e[2]:
            return rule(e[1])
        if k in ('and', 'not'):
            return ''
        return None
    out = {}
    for n in g.rules:
        t = rule(n)
        if t and t.strip() and n not in ('_', '__'):
            out[n] = re.sub(r'\s+', ' ', t).strip()
    return out

def macros_of(path):
    s = open(path).read().replace('\\\n', ' ')
    out = {}
    for x in re.finditer(r'^[ \t]*#[ \t]*define[ \t]+(\w+)(\([^)]*\))?[ \t]*(.*)$', s, re.M):
        ps = [p.strip() for p in x.group(2)[1:-1].split(',')] if x.group(2) else None
        out[x.group(1)] = (ps, x.group(3).strip())
    return out
