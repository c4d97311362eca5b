"""Who owns allocated memory: for every allocation, every pointer argument and every
freed location of a function, what becomes of it on each path.  Calls are described by
summaries, computed from the callees in the same way."""
from astmodel import *
from fields import rooted

ALLOC_FNS = {'malloc', 'calloc', 'strdup', 'strndup', 'realloc', 'reallocarray'}
# libc functions that neither keep nor release their pointer arguments
BORROW = {'memcpy', 'memmove', 'memset', 'memchr', 'memcmp', 'strlen', 'strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'strcpy', 'strncpy',
          'strcat', 'strncat', 'strchr', 'strrchr', 'strstr', 'snprintf', 'sprintf', 'vsnprintf', 'vsprintf', 'fprintf', 'vfprintf', 'printf', 'puts', 'fputs',
          'fputc', 'putc', 'putchar', 'fwrite', 'fread', 'fgets', 'getc', 'fgetc', 'ferror', 'feof', 'fflush', 'clearerr', 'fileno', 'isatty',
          'read', 'write', 'open', 'close', 'stat', 'fstat', 'perror', 'strerror', 'strerror_r', '__errno_location', '__ctype_b_loc', '__ctype_tolower_loc', '__ctype_toupper_loc',
          'atoi', 'strtol', 'strtoul', 'strtoll', 'strtoull', 'strtod', 'exit', 'abort', '_exit', 'getenv', 'log10', 'ceil', 'floor', 'pow', 'memrchr', 'strnlen',
          'siglongjmp', 'longjmp', '__sigsetjmp', '_setjmp', 'sigsetjmp', 'setjmp', 'qsort', 'bsearch', 'fseek', 'ftell', 'rewind', 'ungetc', 'warn', 'warnx', 'err', 'errx',
          '__isoc99_sscanf', 'sscanf', 'toupper', 'tolower', 'isspace', 'isalpha', 'isdigit', 'isalnum', 'abs', 'getopt_long', 'getopt', 'basename', 'setlocale', 'fopen', 'freopen'}
NORETURN = {'siglongjmp', 'longjmp', 'exit', 'abort', '_exit', 'err', 'errx', '__assert_fail'}
# functions that look at what they are given (so it must be there)
DEREF = {'memcpy': (0, 1), 'memmove': (0, 1), 'memset': (0,), 'strlen': (0,), 'strcmp': (0, 1), 'strncmp': (0, 1), 'strncpy': (0, 1), 'strcpy': (0, 1)}

def borrowing(n):
    return n in BORROW or n.startswith('llvm.')

def base_name(n):
    if n.startswith('llvm.'):
        return n.split('.')[1]
    return n

class Owners:
    def __init__(self, m, skip=lambda fn: False):
        self.m = m
        self.skip = skip
        self.sums = {}
        self.fresh = {}
        self.busy = set()
        self.noret = {}

    def callee(self, i):
        n = i.get('callee')
        if n is None:
            return None
        f = self.m.fn(n)
        if f is None and n in self.m.by_src:
            f = self.m.fn(self.m.by_src[n][0])
        return f

    def targets(self, fn, i):
        """the functions an indirect call through the table of node types can reach"""
        if i.get('callee') is not None or 'fp' not in i:
            return []
        e = fn.expr(i['fp'])
        if e[0] != 'ld':
            return []
        r, off, var = rooted(e[1])
        if not hasattr(self, 'tt'):
            self.tt = TypeTable(self.m)
        if self.tt.table is None or not any(x == ('g', self.tt.table['name']) for x in walk(r)):
            return []
        fld = self.m.field_at('cypher_astnode_vt', off)
        out = set()
        for v in set(self.tt.vt.values()):
            d = self.tt.desc(v) if v else None
            if d and fld and d.get(fld['n'], ['n'])[0] == 'g':
                out.add(d[fld['n']][1])
        fs = []
        for n in sorted(out):
            f = self.m.fn(n) or (self.m.fn(self.m.by_src[n][0]) if n in self.m.by_src else None)
            if f is None:
                return []
            fs.append(f)
        return fs

    def joint(self, fs, k):
        """the summaries of several functions together"""
        ok, fail = set(), set()
        for f in fs:
            if k >= len(f.params):
                return {'ok': {'gone'}, 'fail': {'gone'}}
            sm = self.summary(f, k)
            ok |= sm['ok']
            fail |= sm['fail']
        return {'ok': ok, 'fail': fail}

    # ---- what a function returns
    def is_fresh(self, n):
        """the result of n is memory that the caller has to release"""
        if n in ALLOC_FNS:
            return True
        f = self.m.fn(n) or (self.m.fn(self.m.by_src[n][0]) if n in self.m.by_src else None)
        if f is None:
            return False
        if f.name in self.fresh:
            return self.fresh[f.name]
        self.fresh[f.name] = False
        if f.f['ret'] != 'ptr' or self.skip(f):
            return False
        leaves, work, seen = set(), [f.expr(r['args'][0]) for r in f.rets() if r['args']], set()
        while work:
            e = work.pop()
            if e in seen:
                continue
            seen.add(e)
            if e[0] == 'phi':
                work += [f.expr(v) for v, b in f.ins[e[1]]['in']]
            elif e[0] == 'select':
                work += [e[2], e[3]]
            else:
                leaves.add(e)
        calls = [e for e in leaves if e[0] == 'call']
        ok = bool(calls) and all(e[0] == 'null' or e[0] == 'call' and self.is_fresh(e[1]) for e in leaves)
        # nobody else has it
        if ok:
            for e in calls:
                try:
                    if Track(self, f, e, 'alloc').run().shared:
                        ok = False
                except Undecided:
                    ok = False
        self.fresh[f.name] = ok
        return ok

    # ---- what a function does with argument k: {'ok': {status}, 'fail': {status}}
    def summary(self, f, k):
        key = (f.name, k)
        if key in self.sums:
            return self.sums[key]
        if key in self.busy:
            return {'ok': {'gone'}, 'fail': {'gone'}}
        if self.skip(f):
            return {'ok': {'gone'}, 'fail': {'gone'}}
        self.busy.add(key)
        try:
            t = Track(self, f, ('arg', k), 'arg')
            t.run()
            out = t.outcome
            r = {'ok': set(out['ok']) | set(out['any']), 'fail': set(out['fail']) | set(out['any'])}
            if not r['ok'] and not r['fail']:
                r = {'ok': {'kept'}, 'fail': {'kept'}}           # never returns
        except Undecided:
            r = {'ok': {'gone'}, 'fail': {'gone'}}
        self.busy.discard(key)
        self.sums[key] = r
        return r

class Track:
    """Follows one resource through one function.
    kind: 'arg' (owned by somebody), 'alloc' (made by the call instruction of expression X),
    'freed' (a location, from the instruction that frees it on)"""
    def __init__(self, ow, fn, X, kind, at=None):
        self.ow, self.fn, self.X, self.kind, self.at = ow, fn, X, kind, at
        self.problems = []           # (rule, instr, message, path)
        self.outcome = {'ok': set(), 'fail': set(), 'any': set()}
        self.und = set()
        self.shared = False          # returned, and kept by somebody else

    def run(self):
        fn = self.fn
        st0 = ('none',) if self.kind in ('alloc', 'freed') else ('own',)
        keep = self.keep
        Paths(fn, limit=20000, keep=keep).explore(st0=st0 + ((), None), step=self.step, edge=self.edge)
        return self

    def keep(self, a):
        return a == ('cmp', 'eq', self.X, ('null',))

    def is_x(self, r, env):
        return self.fn.expr(r, env) == self.X

    def leaves_of(self, e, seen=None):
        seen = set() if seen is None else seen
        if e in seen:
            return set()
        seen.add(e)
        if e[0] == 'phi':
            out = set()
            for v, b in self.fn.ins[e[1]]['in']:
                out |= self.leaves_of(self.fn.expr(v), seen)
            return out
        if e[0] == 'select':
            return self.leaves_of(e[2], seen) | self.leaves_of(e[3], seen)
        return {e}

    def maybe_x(self, e):
        return e[0] in ('phi', 'select') and self.X in self.leaves_of(e)

    def contains(self, e):
        r, off, var = rooted(e)
        return r == self.X

    def report(self, rule, i, msg, path):
        self.problems.append((rule, i, msg, path))

    def step(self, b, env, facts, path, st):
        fn = self.fn
        s, holders, pend = st
        for i in fn.blocks[b]:
            op = i['op']
            if op == 'phi':
                continue
            if s == 'none':
                if self.kind == 'alloc' and op == 'call' and i['id'] == self.X[2]:
                    s = 'unk'
                elif self.kind == 'freed' and i['id'] == self.at:
                    s = 'freed'
                continue
            if s == 'lost':
                continue
            if op == 'load':
                if s in ('freed', 'unk') and self.contains(fn.expr(i['args'][0], env)) and self.direct(fn.expr(i['args'][0], env)):
                    self.deref(s, i, facts, path)
                continue
            if op == 'store':
                v, a = fn.expr(i['args'][0], env), fn.expr(i['args'][1], env)
                if s in ('freed', 'unk') and self.contains(a):
                    self.deref(s, i, facts, path)
                if self.kind == 'freed':
                    if s == 'freed' and self.kills(a):
                        return None
                    continue
                if v == self.X or self.contains(v):
                    if s in ('own', 'unk', 'live'):
                        r, off, var = rooted(a)
                        if r[0] == 'call' and self.ow.is_fresh(r[1]) and r != self.X and v == self.X:
                            holders = tuple(sorted(set(holders) | {(r, a)}, key=repr))
                        elif r == self.X:
                            pass
                        else:
                            s = 'gone'
                elif self.maybe_x(v):
                    s = 'gone'
                # a holder that is stored somewhere
                for h, p in holders:
                    if v == h or rooted(v)[0] == h:
                        s = 'gone'
                continue
            if op == 'call':
                s, holders, pend = self.call(i, env, facts, path, s, holders, pend)
                if s is None:
                    return None
                continue
            if op == 'ret':
                self.ret(i, env, facts, path, s, holders, pend)
                continue
        return (s, holders, pend)

    def direct(self, a):
        return True

    def kills(self, a):
        """a store to address a changes what the freed location holds"""
        for x in walk(self.X):
            if x and x[0] == 'ld':
                if x[1] == a:
                    return True
                r1, o1, v1 = rooted(x[1])
                r2, o2, v2 = rooted(a)
                if (v1 or v2) and (r1 == r2):
                    return True
                if r1 == r2 and o1 == o2:
                    return True
                # another name of the same place
                if r1 != r2 and o1 == o2 and (r2[0] in ('phi', 'ld', 'arg') and r1[0] in ('phi', 'ld', 'arg')):
                    return True
        return False

    def deref(self, s, i, facts, path):
        if s == 'freed':
            self.report('use', i, 'used after it was released', path)
        elif s == 'unk':
            if facts.get(('cmp', 'eq', self.X, ('null',))) is False:
                return
            self.report('check', i, 'used without checking that the allocation succeeded', path)

    def call(self, i, env, facts, path, s, holders, pend):
        fn, ow = self.fn, self.ow
        n = i.get('callee')
        args = [fn.expr(a, env) for a in i['args']]
        if n in NORETURN or (n and base_name(n) in NORETURN):
            return None, holders, pend
        if self.kind == 'alloc' and i['id'] == self.X[2]:
            # made again
            if s in ('live', 'unk') and not holders and facts.get(('cmp', 'eq', self.X, ('null',))) is not True:
                if s == 'live':
                    self.und.add('made again in a loop')
            return 'unk', (), None
        alias = {self.X} | {('ld', p) for h, p in holders}
        mine = [k for k, a in enumerate(args) if a in alias]
        inner = [k for k, a in enumerate(args) if a != self.X and self.contains(a)]
        perhaps = [k for k, a in enumerate(args) if self.maybe_x(a)]
        held = [k for k, a in enumerate(args) if rooted(a)[0] in [h for h, p in holders]]
        if n == 'free' or n == 'cfree':
            if mine:
                if s == 'freed':
                    self.report('twice', i, 'released twice', path)
                    return None, holders, pend
                if s in ('own', 'unk', 'live'):
                    return 'freed', holders, pend
                return s, holders, pend
            if perhaps and s in ('own', 'unk', 'live', 'freed'):
                return ('gone' if self.kind != 'freed' else None), holders, pend
            if held:
                holders = tuple(h for h in holders if h[0] not in [args[k] for k in held])
            return s, holders, pend
        if n == 'realloc' or n == 'reallocarray':
            if args and args[0] == self.X:
                if s == 'freed':
                    self.report('use', i, 'used after it was released', path)
                    return None, holders, pend
                if s in ('own', 'unk', 'live'):
                    return s, holders, ('call', n, i['id'], 'freed', s)
            if perhaps:
                return ('gone' if self.kind != 'freed' else None), holders, pend
            return s, holders, pend
        if n is not None and borrowing(n):
            if s == 'freed' and (mine or inner):
                self.report('use', i, 'used after it was released', path)
                return None, holders, pend
            if s == 'unk' and mine and base_name(n) in DEREF and any(k in DEREF[base_name(n)] for k in mine):
                if not (len(args) > 2 and args[2] == ('c', 0)):
                    self.deref(s, i, facts, path)
            return s, holders, pend
        if s == 'freed' and (mine or inner) and n is not None:
            self.report('use', i, 'used after it was released', path)
            return None, holders, pend
        f = ow.callee(i)
        if self.kind == 'freed' and not mine:
            if f is None or self.may_write(f):
                return None, holders, pend
            return s, holders, pend
        if not (mine or inner or perhaps or held):
            return s, holders, pend
        if s not in ('own', 'unk', 'live'):
            return s, holders, pend
        if f is None and not perhaps and not held:
            fs = ow.targets(fn, i)
            if fs and all(ow.joint(fs, k) == {'ok': {'kept'}, 'fail': {'kept'}} for k in mine + inner):
                return s, holders, pend
            # a callback given by the caller of the library is only lent what it is passed
            if n is None and 'fp' in i and fn.expr(i['fp'], env)[0] == 'arg':
                return s, holders, pend
        if f is None or perhaps or held:
            return 'gone', holders, pend
        if f.f.get('vararg') and any(k >= len(f.params) for k in mine + inner):
            return s, holders, pend
        res = s
        for k in mine + inner:
            if k >= len(f.params):
                return 'gone', holders, pend
            sm = ow.summary(f, k)
            if k in inner:
                if sm['ok'] | sm['fail'] != {'kept'}:
                    return 'gone', holders, pend
                continue
            if sm['ok'] == sm['fail'] and len(sm['ok']) == 1:
                o = next(iter(sm['ok']))
                if o == 'kept':
                    continue
                if o == 'freed':
                    if res == 'freed':
                        self.report('twice', i, 'released twice', path)
                        return None, holders, pend
                    res = 'freed'
                    continue
                return 'gone', holders, pend
            if len(sm['ok']) == 1 and len(sm['fail']) == 1 and len(mine + inner) == 1 and pend is None:
                pend = ('res', i['callee'], i['id'], next(iter(sm['ok'])), next(iter(sm['fail'])))
                continue
            return 'gone', holders, pend
        return res, holders, pend

    _writes = {}
    def may_write(self, f):
        """the function may change memory that existed before"""
        if f.name in Track._writes:
            return Track._writes[f.name]
        Track._writes[f.name] = False
        r = False
        for i in f.all():
            if i['op'] == 'store':
                rt = rooted(f.expr(i['args'][1]))[0]
                if rt[0] == 'alloca' or rt[0] == 'call' and rt[1] in ('__errno_location',):
                    continue
                r = True
            elif i['op'] == 'call':
                n = i.get('callee')
                if n is None:
                    r = True
                elif n in ('free',) or n in ALLOC_FNS:
                    pass
                elif borrowing(n):
                    if base_name(n) in ('memcpy', 'memmove', 'memset', 'snprintf', 'strncpy', 'strcpy') and rooted(f.expr(i['args'][0]))[0][0] not in ('alloca', 'call'):
                        r = True
                else:
                    g = self.ow.callee(i)
                    if g is None or self.may_write(g):
                        r = True
            if r:
                break
        Track._writes[f.name] = r
        return r

    def edge(self, sb, d, conj, env, facts, st):
        s, holders, pend = st
        X = self.X
        for a, v in conj:
            if a == ('cmp', 'eq', X, ('null',)):
                if s in ('unk', 'live') and self.kind == 'alloc':
                    if v:
                        return None if self.kind == 'alloc' and False else ('null', (), pend)
                    if s == 'unk':
                        s = 'live'
                elif s in ('own',):
                    if v:
                        return None                       # nothing was passed
            if pend is not None and pend[0] == 'call' and a[0] == 'cmp' and a[1] == 'eq' and a[3][0] == 'null' and a[2][0] == 'call' and a[2][2] == pend[2]:
                # realloc: released on success
                if not v:
                    s = 'freed' if s in ('own', 'unk', 'live') else s
                pend = None
            elif pend is not None and pend[0] == 'res':
                c = result_class(a, v, pend[2])
                if c:
                    o = pend[3] if c == 'ok' else pend[4]
                    if o == 'freed':
                        s = 'freed'
                    elif o != 'kept':
                        s = 'gone'
                    pend = None
        # a resource that goes round a loop in a phi is not followed
        if s in ('own', 'unk', 'live', 'freed'):
            for i in self.fn.blocks[d]:
                if i['op'] != 'phi':
                    break
                l = None
                for L in self.fn.loops.values():
                    if L['header'] == d:
                        l = L
                if l is None:
                    continue
                for v, pb in i['in']:
                    if pb == sb and (self.fn.expr(v, env) == X) and i['ty'] == 'ptr':
                        if self.kind == 'arg' and sb not in l['bset']:
                            # an argument used as the running pointer
                            if s == 'own':
                                s = 'own'
                        elif s in ('unk', 'live'):
                            s = 'gone'
                        elif s == 'freed':
                            return None
        if s == 'freed' and self.kind in ('freed', 'alloc') and self.round(sb, d):
            return None
        return (s, holders, pend)

    def round(self, sb, d):
        """the edge starts another round of the loop that made the value"""
        for L in self.fn.loops.values():
            if L['header'] == d and sb in L['bset']:
                if self.kind == 'alloc' and self.fn.blk[self.X[2]] in L['bset']:
                    return True
                if self.kind == 'freed' and (mentions_block(self.fn, self.X, L['bset']) or self.fn.blk[self.at] in L['bset']):
                    return True
        return False

    def ret(self, i, env, facts, path, s, holders, pend):
        fn = self.fn
        e = fn.expr(i['args'][0], env) if i['args'] else None
        cls = 'any'
        ty = fn.f['ret']
        if e is not None:
            if ty == 'ptr':
                if e[0] == 'null' or facts.get(('cmp', 'eq', e, ('null',))) is True:
                    cls = 'fail'
                elif e[0] in ('phi', 'ld', 'select', 'deep', '?') and facts.get(('cmp', 'eq', e, ('null',))) is not False:
                    cls = 'any'
                elif e[0] == 'call' and facts.get(('cmp', 'eq', e, ('null',))) is not False:
                    cls = 'any'
                    if pend is not None and pend[0] == 'res' and pend[2] == e[2]:
                        # passes on the result of the call that decides
                        self.outcome['ok'].add(stat(pend[3]))
                        self.outcome['fail'].add(stat(pend[4]))
                        return
                else:
                    cls = 'ok'
            elif ty in ('i32', 'i64') and e[0] == 'c':
                cls = 'ok' if e[1] == 0 else 'fail' if e[1] < 0 or e[1] in (0xffffffff, 0xffffffffffffffff) else 'any'
            elif ty in ('i32', 'i64') and e[0] == 'call' and pend is not None and pend[0] == 'res' and pend[2] == e[2]:
                self.outcome['ok'].add(stat(pend[3]))
                self.outcome['fail'].add(stat(pend[4]))
                return
        if self.kind == 'arg':
            if e is not None and (e == self.X or self.contains(e) or self.maybe_x(e)):
                if s == 'freed' and e == self.X:
                    self.report('use', i, 'returned after it was released', path)
                s = 'gone' if s == 'own' else s
            if pend is not None and s == 'own':
                s = 'gone'
            self.outcome[cls].add('kept' if s == 'own' else 'freed' if s == 'freed' else 'gone')
            return
        if self.kind == 'freed':
            if e == self.X:
                self.report('use', i, 'returned after it was released', path)
            return
        if e is not None and (e == self.X or self.contains(e) or self.maybe_x(e) or rooted(e)[0] in [h for h, p in holders]):
            if s == 'gone':
                self.shared = True
            if s == 'freed' and e == self.X:
                self.report('use', i, 'returned after it was released', path)
            return
        if s in ('unk', 'live') and pend is None:
            if facts.get(('cmp', 'eq', self.X, ('null',))) is True:
                return
            if holders:
                return
            if e is not None and e[0] in ('deep', '?'):
                self.und.add('result is not understood')
                return
            self.report('leak', i, 'not released', path)

def stat(x):
    return 'gone' if x not in ('kept', 'freed') else x

def result_class(a, v, cid):
    """'ok' or 'fail' when the atom says how the call cid went"""
    if a[0] != 'cmp':
        return None
    def is_call(e):
        return e[0] == 'call' and e[2] == cid
    if a[1] == 'eq' and is_call(a[2]):
        if a[3][0] == 'null':
            return 'fail' if v else 'ok'
        if a[3] == ('c', 0):
            return 'ok' if v else 'fail'
        if a[3][0] == 'c' and a[3][1] in (-1, 0xffffffff):
            return 'fail' if v else 'ok'
    if a[1] in ('slt',):
        if is_call(a[2]) and a[3] == ('c', 0):
            return 'fail' if v else 'ok'
        if is_call(a[3]) and a[2][0] == 'c' and a[2][1] in (-1, 0xffffffff):
            return 'ok' if v else 'fail'
    return None
