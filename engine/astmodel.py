"""What the rules on AST nodes share: the type table, constructors, validation facts."""
import re
import front, header
from ir import *

KEEP = ['@external', 'snprint_sequence', 'cypher_astnode_detailstr', 'cypher_ast_vfree', 'cypher_ast_vclone',
        'cypher_ast_set_ordinals', 'cp_release_annotation', 'cypher_ast_fprintv', 'snprintf_realloc', 'cypher_astnode_detailstr_realloc', 'mdup',
        'cp_vector_init', 'cp_vector_push', 'cp_vector_pop', 'cp_vector_clear', 'cp_vector_cleanup']

_mod = {}
def lib_module(keep=None):
    k = tuple(keep if keep is not None else KEEP)
    if k not in _mod:
        _mod[k] = Module(front.load('lib', keep=k))
    return _mod[k]

class TypeTable:
    def __init__(self, m):
        self.m = m
        self.problems = []
        self.types = {}           # CYPHER_AST_X -> number
        for g in m.d['globals']:
            if re.match(r'CYPHER_AST_[A-Z_]+$', g['name']) and g.get('init') and g['init'][0] in ('c', 'z'):
                self.types[g['name']] = (g['init'][1] & 0xff) if g['init'][0] == 'c' else 0
        self.names = {v: k for k, v in self.types.items()}
        tabs = [g for g in m.d['globals'] if g.get('init') and g['init'][0] == 'v' and g['const'] and 'vts' in (g.get('dity') or '')]
        if not tabs:
            # any constant aggregate of pointers to descriptors
            for g in m.d['globals']:
                if g.get('init') and g['init'][0] == 'v' and len(g['init'][1]) > 40 and all(x[0] in ('g', 'n') for x in g['init'][1]):
                    tabs.append(g)
        self.table = tabs[0] if tabs else None
        self.slots = self.table['init'][1] if self.table else []
        self.vt = {}
        for name, n in self.types.items():
            self.vt[name] = self.slots[n][1] if n < len(self.slots) and self.slots[n][0] == 'g' else None
        self.byvt = {}
        for k, v in self.vt.items():
            if v:
                self.byvt.setdefault(v, []).append(k)

    def desc(self, vt):
        """The fields of a descriptor, by name."""
        g = self.m.globals.get(vt)
        if not g or not g.get('init'):
            return None
        st = self.m.structs.get('cypher_astnode_vt')
        names = [x['n'] for x in st['m']] if st else ['parents', 'nparents', 'name', 'detailstr', 'release', 'clone']
        if g['init'][0] == 'z':
            return {n: ['n'] for n in names}
        return dict(zip(names, g['init'][1]))

    def parents(self, vt):
        d = self.desc(vt)
        if not d or d['parents'][0] != 'g':
            return []
        g = self.m.globals.get(d['parents'][1])
        if not g or not g.get('init'):
            return []
        if g['init'][0] == 'v':
            return [x[1] if x[0] == 'g' else None for x in g['init'][1]]
        return []

    def ancestors(self, name):
        out, work = set(), [self.vt.get(name)]
        while work:
            v = work.pop()
            if v is None or v in out:
                continue
            out.add(v)
            d = self.desc(v)
            n = d['nparents'][1] if d and d['nparents'][0] == 'c' else 0
            work += self.parents(v)[:n]
        r = set()
        for v in out:
            r.update(self.byvt.get(v, []))
        return r

def is_node_ptr(t):
    t = t.replace('const ', '').strip()
    return t in ('cypher_astnode_t*', 'struct cypher_astnode*')

def ctors(m):
    """Public functions that build a node: named cypher_ast_*, last parameter the range."""
    hd = header.parse()
    out = []
    for n in sorted(m.raw):
        f = m.fn(n)
        if not re.match(r'cypher_ast_\w+$', n) or m.raw[n]['internal']:
            continue
        if n in hd and f.params and f.params[-1].get('n') == 'range' and f.f['ret'] == 'ptr':
            out.append(f)
    return out

NODE_SIZE_TYPE_OFF = 0

def success_value(fn, env):
    """What the function returns on this path: 'null', or the expression."""

def instof(e):
    """(value, type expr) of an instanceof call expression."""
    if e[0] == 'call' and e[1] == 'cypher_astnode_instanceof' and len(e) >= 5:
        return e[3], e[4]
    return None

class Validation:
    """Which obligations on the arguments hold whenever the constructor succeeds."""
    def __init__(self, m, fn, tt):
        self.m, self.fn, self.tt = m, fn, tt
        self.paths = Paths(fn)
        self.loads = {}
        for i in fn.all('load'):
            self.loads.setdefault(fn.expr(['i', i['id']]), []).append(i)
        self.nodes = [k for k, t in enumerate(fn.f.get('ditypes', [])[1:]) if is_node_ptr(t)]
        self.arrays = [k for k, t in enumerate(fn.f.get('ditypes', [])[1:])
                       if is_node_ptr(t[:-1]) and t.endswith('*')]
        self.kids = fn.pindex('children')
        self.nkids = fn.pindex('nchildren')

    # atoms
    def type_atom(self, a, val):
        if a[0] == 'bool':
            x = instof(a[1])
            if x and x[0] == val:
                return self.type_consts(x[1])
        return None

    def type_consts(self, t):
        if t[0] == 'c':
            return frozenset([self.tt.names.get(t[1] & 0xff, '#%d' % t[1])])
        if t[0] == 'select' and t[2][0] == 'c' and t[3][0] == 'c':
            return frozenset([self.tt.names.get(t[2][1] & 0xff), self.tt.names.get(t[3][1] & 0xff), 'select'])
        return frozenset(['?'])

    def member_atom(self, a, val):
        """a is an equality of val with an element of children"""
        if a[0] == 'cmp' and a[1] == 'eq':
            for x, y in ((a[2], a[3]), (a[3], a[2])):
                if y == val and x[0] == 'ld' and self.child_elem(x):
                    return True
        return False

    def child_elem(self, x):
        b = x[1]
        while b[0] == 'addr':
            b = b[1]
        if b == ('arg', self.kids):
            return True
        if b[0] == 'phi':                     # a pointer that walks over the array
            for i in self.loads.get(x, []):
                it = self.fn.iteration(i)
                if it and any(k == ('arg', self.kids) for k in it[1].t):
                    return True
        return False

    def null_atom(self, a, val):
        return a[0] == 'cmp' and a[1] == 'eq' and a[2] == val and a[3][0] == 'null'

    def succeeds(self, cut):
        """A path on which the constructor returns something other than NULL although no
        edge accepted by cut was taken, or None."""
        found = []
        fn = self.fn
        def visit(b, env, facts, path):
            if found:
                return True
            t = fn.blocks[b][-1]
            if t['op'] == 'ret' and t['args']:
                r = fn.expr(t['args'][0], env)
                if r[0] != 'null':
                    found.append((path, facts, r))
            return False
        self.paths.explore(visit=visit, cut=cut)
        return found[0] if found else None

    # scalar obligations
    def scalar_types(self, k):
        """Type sets tested on argument k."""
        out = set()
        for i in self.fn.calls('cypher_astnode_instanceof'):
            if self.fn.expr(i['args'][0]) == ('arg', k):
                out |= self.type_consts(self.fn.expr(i['args'][1]))
        return out

    def conj_has(self, conj, pred):
        return any(v and pred(a) for a, v in conj)

    def check_scalar_type(self, k, types, optional):
        val = ('arg', k)
        def cut(s, d, conj, env, facts):
            for a, v in conj:
                if v and a[0] == 'bool':
                    t = self.type_atom(a, val)
                    if t and all(self.below(x, types) for x in t):
                        return True
                if v and optional and self.null_atom(a, val):
                    return True
            return False
        return self.succeeds(cut)

    def below(self, t, types):
        """t or one of its ancestors is among types"""
        if t in types:
            return True
        return t in self.tt.types and bool(self.tt.ancestors(t) & set(types))

    def check_scalar_member(self, k, optional):
        val = ('arg', k)
        def cut(s, d, conj, env, facts):
            for a, v in conj:
                if v and self.member_atom(a, val):
                    return True
                if v and optional and self.null_atom(a, val):
                    return True
            return False
        return self.succeeds(cut)

    def null_accepted(self, k):
        """NULL is accepted for argument k on some successful path"""
        val = ('arg', k)
        hit = []
        fn = self.fn
        def cut(s, d, conj, env, facts):
            for a, v in conj:
                if self.null_atom(a, val) and not v:
                    return True
                if v and a[0] == 'bool' and self.type_atom(a, val):
                    return True
            return False
        return self.succeeds(cut) is not None

    # array obligations
    def elem_of(self, val, arr):
        """iteration info if val is ld(element of array argument arr), else None:
        list of (loop, start, step, load instr)"""
        if val[0] != 'ld':
            return []
        out = []
        for i in self.loads.get(val, []):
            it = self.fn.iteration(i)
            if not it or it[0] is None:
                continue
            L, st, step = it
            base = ('arg', arr)
            if st.t.get(base) != 1:
                continue
            t = dict(st.t)
            del t[base]
            s0 = Lin(st.c, t)
            sc = step.const()
            if sc is None or sc % 8 or s0.c % 8 or any(v % 8 for v in s0.t.values()):
                continue
            out.append((L, Lin(s0.c // 8, {k: v // 8 for k, v in s0.t.items()}), sc // 8, i))
        return out

    def array_progressions(self, arr, match):
        """For every loop in which each iteration has to pass an edge where match(atom,
        element value) holds: the elements covered when the loop is left through each of
        its exits.  Returns [(loop, exit block, exit succ, start, step, count)]."""
        fn = self.fn
        res = []
        for L in fn.loops.values():
            # values of elements of the array loaded in this loop
            vals = {}
            for e, ins in self.loads.items():
                for (l, s0, step, i) in self.elem_of(e, arr):
                    if l == L['id'] and fn.blk[i['id']] in L['bset']:
                        vals[e] = (s0, step, i)
            for e, (s0, step, i) in vals.items():
                def cut(s, d, conj, env, facts, e=e, L=L):
                    if d not in L['bset']:
                        return True
                    return any(v and match(a, e) for a, v in conj)
                # is the latch reachable from the header without the edge?
                back = []
                def cut2(s, d, conj, env, facts):
                    if d == L['header']:
                        if not any(v and match(a, e) for a, v in conj):
                            back.append(s)
                        return True
                    return cut(s, d, conj, env, facts)
                Paths(fn).explore(cut=cut2, start=L['header'])
                for xb, cnt in L['exits']:
                    for xs in fn.succ[xb]:
                        if xs in L['bset']:
                            continue
                        # iterations completed before leaving
                        n = affine(fn, cnt)
                        if n is None or n[0] is not None:
                            continue
                        n = n[1]
                        # does the last, partial iteration pass the edge as well?
                        part = self.partial_passes(L, xb, xs, e, match)
                        if part:
                            n = n.add(Lin(1))
                        if back and not part:
                            continue
                        if back and part:
                            # every iteration must pass
                            continue
                        res.append((L, xb, xs, s0, step, n))
        return res

    def partial_passes(self, L, xb, xs, e, match):
        """In the iteration that leaves through (xb, xs), the matching edge was passed."""
        fn = self.fn
        hit = []
        def cut(s, d, conj, env, facts):
            if any(v and match(a, e) for a, v in conj):
                return True
            if s == xb and d == xs:
                hit.append(1)
                return True
            if d not in L['bset'] or d == L['header']:
                return True
            return False
        Paths(fn).explore(cut=cut, start=L['header'])
        return not hit

    def check_array(self, arr, count, match, offset=0, stride=1):
        """Elements offset, offset+stride, ... (count of them; count is a Lin) of the array
        all satisfy match on success.  Returns a counterexample path or None."""
        fn = self.fn
        progs = self.array_progressions(arr, match)
        good = set()
        for (L, xb, xs, s0, step, n) in progs:
            if covers(s0, step, n, offset, stride, count):
                good.add((xb, xs))
        zero = zero_exprs(count)
        def cut(s, d, conj, env, facts):
            if (s, d) in good:
                return True
            for a, v in conj:
                if v and a[0] == 'cmp' and a[1] == 'eq' and a[3] in (('c', 0),) and a[2] in zero:
                    return True
            # facts decided on this path
            for a, v in facts.items():
                if v and a[0] == 'cmp' and a[1] == 'eq' and a[3] == ('c', 0) and a[2] in zero:
                    return True
            return False
        return self.succeeds(cut), progs

def covers(s0, step, n, offset, stride, count):
    """{s0 + step*k | 0<=k<n} contains {offset + stride*k | 0<=k<count}"""
    if step == 0:
        return False
    # a full walk with unit step covers every stride
    if step == stride and s0 == Lin(offset) and n == count:
        return True
    if step == -stride and s0 == count.mul(stride).add(Lin(offset - stride)) and n == count:
        return True
    if abs(step) == 1 and stride == 2:
        full = count.mul(2)
        return (step == 1 and s0 == Lin(0) and n == full) or (step == -1 and s0 == full.add(Lin(-1)) and n == full)
    return False

def zero_exprs(count):
    """Expressions whose being zero means that the count is zero."""
    out = set()
    if count.c and len(count.t) == 1:
        # count + c wraps to zero
        (k, v), = count.t.items()
        out.add(('add', k, ('c', count.c)))
        out.add(('add', ('c', count.c), k))
    if count.c == 0 and len(count.t) == 1:
        (k, v), = count.t.items()
        out.add(k)
        if v & (v - 1) == 0:
            # the multiplication may wrap
            out.add(('and', ('c', (1 << (32 - v.bit_length() + 1)) - 1), k))
            out.add(('and', k, ('c', (1 << (32 - v.bit_length() + 1)) - 1)))
        out.add(('mul', ('c', v), k))
        out.add(('mul', k, ('c', v)))
        out.add(('shl', k, ('c', v.bit_length() - 1)))
    return out

def says_zero(count, facts):
    """the (atom, truth) pairs imply that the count (Lin) is zero"""
    z = zero_exprs(count)
    for a, v in facts:
        if v and a[0] == 'cmp' and a[1] == 'eq' and a[3][0] == 'c':
            if a[3][1] == 0 and a[2] in z:
                return True
            if len(count.t) == 1:
                (k, m), = count.t.items()
                if a[2] == k and (m * a[3][1] + count.c) == 0:
                    return True
                if a[3][1] == 0 and count.c == 0 and m == 2 and a[2][0] == 'and' and len(a[2]) == 3 and k in a[2][1:] and any(
                        y in (('c', (1 << 63) - 1), ('c', (1 << 31) - 1)) for y in a[2][1:]):
                    return True         # twice the count is zero
    return False

def module(which, keep):
    k = (which,) + tuple(keep)
    if k not in _mod:
        _mod[k] = Module(front.load(which, keep=tuple(keep)))
    return _mod[k]
