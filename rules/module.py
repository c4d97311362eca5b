"""Properties of the library as a whole: state kept between calls (T01), the public
interface (I01)."""
import re
import front, header
from ir import *
from astmodel import lib_module

# libc functions that keep or share state between callers
HIDDEN_STATE = set('''strtok strerror strsignal asctime ctime gmtime localtime rand srand random srandom drand48 lrand48 srand48 setlocale
getenv setenv unsetenv putenv tmpnam tempnam mktemp readdir getpwnam getpwuid getgrnam getgrgid gethostbyname inet_ntoa ttyname basename dirname
signal sigaction alarm atexit umask chdir localeconv nl_langinfo l64a ecvt fcvt getopt getopt_long hsearch hcreate mblen mbtowc wctomb
mbrlen mbrtowc wcrtomb mbsrtowcs wcsrtombs crypt getlogin getservbyname fputs_unlocked printf puts putchar vprintf perror exit'''.split())
# libc functions that write through a pointer: the parameters written
WRITES = {'snprintf': [0], 'vsnprintf': [0], 'sprintf': [0], 'vsprintf': [0], 'strcpy': [0], 'strncpy': [0], 'strcat': [0], 'strncat': [0], 'memset': [0], 'memcpy': [0],
          'memmove': [0], 'llvm.memcpy.p0.p0.i64': [0], 'llvm.memmove.p0.p0.i64': [0], 'llvm.memset.p0.i64': [0], '__sigsetjmp': [0], 'free': [0],
          'realloc': [0], 'siglongjmp': [0], 'qsort': [0], 'fgets': [0], 'fread': [0], 'getline': [0, 1], 'stpcpy': [0]}
READONLY = set('''llvm.memcpy.p0.p0.i64 llvm.memmove.p0.p0.i64 memcpy memmove strcmp strncmp strlen memcmp memchr strchr strrchr fputs fwrite fprintf fputc putc __ctype_b_loc strdup strndup strcasecmp strncasecmp strstr strspn
strcspn strtol strtoul strtoll strtod atoi calloc malloc ferror feof getc fileno isatty log10 ceil floor vfprintf llvm.va_start.p0 llvm.va_end.p0 llvm.va_start llvm.va_end __errno_location'''.split())

class Roots:
    """which objects a pointer may be derived from: globals and parameters of the function"""
    def __init__(self, m):
        self.m = m
        self.memo = {}
    def of(self, fn, r, seen=None):
        k = r[0]
        if k == 'g':
            return {('g', r[1])}
        if k == 'ge':
            return self.of(fn, r[1], seen)
        if k == 'a':
            return {('a', r[1])}
        if k != 'i':
            return set()
        seen = seen or set()
        if (fn.name, r[1]) in seen:
            return set()
        seen = seen | {(fn.name, r[1])}
        i = fn.ins[r[1]]
        op = i['op']
        if op == 'getelementptr':
            return self.of(fn, i['base'], seen)
        if op == 'phi':
            out = set()
            for v, _ in i['in']:
                out |= self.of(fn, v, seen)
            return out
        if op == 'select':
            return self.of(fn, i['args'][1], seen) | self.of(fn, i['args'][2], seen)
        if op in ('bitcast', 'freeze', 'inttoptr', 'ptrtoint', 'addrspacecast', 'add', 'sub'):
            return set().union(*[self.of(fn, a, seen) for a in i['args']])
        if op == 'call' and i.get('callee') in ('mempcpy', 'strcpy', 'strncpy', 'memcpy', 'memset', 'strcat', 'stpcpy', 'strchr', 'memchr', 'strrchr', 'strstr'):
            return self.of(fn, i['args'][0], seen)
        return set()

def sites(fn):
    for b in fn.blocks:
        for i in b:
            yield i

def written_params(m, R):
    """function -> parameters whose memory it (or a callee) writes"""
    W = {n: set() for n in m.raw}
    calls = []
    for fn in m.fns():
        for i in sites(fn):
            if i['op'] == 'store':
                for x in R.of(fn, i['args'][1]):
                    if x[0] == 'a':
                        W[fn.name].add(x[1])
            elif i['op'] == 'call' and i.get('callee'):
                for k, a in enumerate(i['args']):
                    rs = {x[1] for x in R.of(fn, a) if x[0] == 'a'}
                    if rs:
                        calls.append((fn.name, i['callee'], k, rs))
    byname = {}
    for n in m.raw:
        byname.setdefault(m.canon.get(n, n), []).append(n)
    def wr(c, k):
        if c in WRITES:
            return k in WRITES[c]
        return any(k in W[n] for n in byname.get(c, [c] if c in W else []))
    ch = True
    while ch:
        ch = False
        for f, c, k, rs in calls:
            if wr(c, k) and rs - W[f]:
                W[f] |= rs
                ch = True
    return wr

def base(fn, r):
    """the pointer an address is computed from"""
    while True:
        if r[0] == 'ge':
            r = r[1]
        elif r[0] == 'i' and fn.ins[r[1]]['op'] == 'getelementptr':
            r = fn.ins[r[1]]['base']
        elif r[0] == 'i' and fn.ins[r[1]]['op'] in ('bitcast', 'freeze'):
            r = fn.ins[r[1]]['args'][0]
        else:
            return r

def offset(fn, r):
    o = 0
    while r[0] == 'i' and fn.ins[r[1]]['op'] == 'getelementptr':
        g = fn.ins[r[1]]
        if g.get('var') or 'off' not in g:
            return None, r
        o += g['off']
        r = g['base']
    return o, r

def named(t):
    t = re.sub(r'\b(const|struct)\b', '', t or '').strip()
    return re.sub(r'_t$', '', t[:-1].strip()) if t.endswith('*') and not t.endswith('**') else None

def pointee(m, fn, b):
    """name of the struct the pointer points to, from its declaration"""
    if b[0] == 'a':
        d = fn.f['ditypes']
        return named(d[b[1] + 1]) if b[1] + 1 < len(d) and len(d) == len(fn.params) + 1 else None
    if b[0] == 'i' and fn.ins[b[1]]['op'] == 'load':
        o, r = offset(fn, fn.ins[b[1]]['args'][0])
        if o is None:
            return None
        if r[0] == 'i' and fn.ins[r[1]]['op'] == 'alloca':
            st = fn.ins[r[1]]['aty'].replace('%struct.', '')
        else:
            st = pointee(m, fn, r)
        for k in (st, '_' + (st or '')):
            f = m.field_at(k, o) if k else None
            if f:
                return named(f.get('t'))
    return None

def annotations(m, fn, i, b):
    """the list of annotations of a node, which is no part of the AST itself"""
    o, r = offset(fn, i['args'][1])
    f = m.field_at(pointee(m, fn, b), o) if o is not None else None
    return bool(f) and f['n'] == 'annotations'

def constparam(fn, k):
    d = fn.f['ditypes']
    if len(d) != len(fn.params) + 1:
        return False
    return bool(re.match(r'const [\w ]+\*$', d[k + 1]))

def T01(c):
    m = lib_module(('@all',))
    R = Roots(m)
    wr = written_params(m, R)
    c.rule('static', 'nothing that lives longer than a call is written: every global object is only ever read', floor=100)
    c.rule('libc', 'no C library function that keeps state between calls, or acts on the process, is called', floor=100)
    c.rule('shared', 'objects of the types of which a default exists are written only by the functions that make them or are given them', floor=1)
    c.rule('const', 'what a pointer to constant points to is not written', floor=300)
    c.rule('config', 'no function but those that make, set and free a configuration writes to the one it is given', floor=5)
    h = header.cached()
    for fn in m.fns():
        if fn.src not in h or fn.f['internal']:
            continue
        d = fn.f['ditypes']
        for k in range(len(fn.params)):
            t = named(d[k + 1]) if len(d) == len(fn.params) + 1 else None
            if t in ('cypher_parser_config', 'cypher_parser_colorization') and not fn.src.startswith('cypher_parser_config_'):
                c.ob('config', '%s of %s' % (fn.pname(k), fn.src), not wr(fn.name, k) and not wr(fn.src, k), key='%s:%s' % (fn.src, fn.pname(k)),
                     msg='writes to the %s its caller gave it to read, which another call may be using' % ('configuration' if t.endswith('config') else 'colorization'))
    types = {re.sub(r'^%struct\.', '', o['ty']) for o in m.globals.values() if not o.get('decl') and o['ty'].startswith('%struct')}
    bad = {}
    for fn in m.fns():
        for k in range(len(fn.params)):
            if constparam(fn, k):
                c.ob('const', '%s of %s' % (fn.pname(k), fn.src), True)
        loc = lambda i: '%s:%s' % tuple(i['loc']) if i.get('loc') else fn.file
        for i in sites(fn):
            hits = set()
            if i['op'] in ('store', 'atomicrmw', 'cmpxchg'):
                hits = {x[1] for x in R.of(fn, i['args'][1 if i['op'] == 'store' else 0]) if x[0] == 'g'}
            elif i['op'] == 'call':
                cal = i.get('callee')
                for k, a in enumerate(i['args']):
                    gs = {x[1] for x in R.of(fn, a) if x[0] == 'g'}
                    if cal and wr(cal, k):
                        hits |= gs
                    elif gs and (not cal or cal not in READONLY and cal not in m.canon.values() and m.fn(cal) is None):
                        for g in gs:
                            if not (m.globals.get(g) or {}).get('const', True):
                                c.undecided('static', '%s in %s' % (g, fn.src), 'passed to %s' % (cal or 'a function pointer'))
                if cal and m.fn(cal) is None and cal not in m.canon.values():
                    c.ob('libc', '%s in %s' % (cal, fn.src), cal not in HIDDEN_STATE, key='%s:%s' % (fn.src, cal), msg='calls %s, which keeps state of its own or acts on the whole process' % cal, path=[loc(i)])
            if i['op'] == 'store':
                b = base(fn, i['args'][1])
                t = pointee(m, fn, b)
                if t in types:
                    ld = b[0] == 'i' and fn.ins[b[1]]['op'] == 'load'
                    c.ob('shared', '%s in %s' % (t, fn.src), not ld, key='%s:%s' % (fn.src, t), path=[loc(i)],
                         msg='writes to a struct %s that it reached through a pointer: it may be the one all callers share' % t)
                if b[0] == 'a' and constparam(fn, b[1]) and not annotations(m, fn, i, b):
                    c.ob('const', '%s of %s' % (fn.pname(b[1]), fn.src), False, key='%s:%s' % (fn.src, fn.pname(b[1])), path=[loc(i)], msg='writes to what its parameter %s points to, which its callers declare constant' % fn.pname(b[1]))
            for g in hits:
                o = m.globals.get(g)
                if o is None or o.get('decl'):
                    continue
                bad.setdefault(g, (fn, i))
    for g, o in sorted(m.globals.items()):
        if o.get('decl'):
            continue
        b = bad.get(g)
        c.ob('static', '%s (%s)' % (o.get('src', g), o.get('file')), b is None, key=o.get('src', g),
             msg=b and 'written by %s: a later or concurrent call sees it' % b[0].src, path=b and ['%s:%s' % tuple(b[1]['loc'])] if b and b[1].get('loc') else None)
    c.cover['functions'] = len(m.raw)
    c.cover['global objects'] = len(m.globals)
    c.assume.append('objects reached only through pointers stored in other objects are those of the caller (configurations, ASTs), not globals')

def I01(c):
    m = lib_module(('@all',))
    h = header.cached()
    s = re.sub(r'/\*.*?\*/', '', open(front.os.path.join(front.REPO, 'lib/src/cypher-parser.h.in')).read(), flags=re.S)
    c.rule('defined', 'every function and constant of the public header is defined in the library and visible to programs that link to it', floor=400)
    c.rule('private', 'no other function of the library is visible', floor=1)
    defs = {}
    for n, f in m.raw.items():
        defs.setdefault(f.get('src', n), []).append(f)
    for n in sorted(h):
        if re.search(r'#\s*define\s+%s\b' % n, s) or re.search(r'static inline[^;{]*\b%s\s*\(' % n, s):
            continue
        fs = [f for f in defs.get(n, []) if not f['internal']]
        where = 'lib/src/cypher-parser.h.in:%s %s' % (h[n]['line'], n)
        c.ob('defined', where, bool(fs) and not fs[0]['hidden'], key=n, msg='declared but %s' % ('not visible outside the library' if fs else 'not defined'))
        if fs and len(fs[0]['params']) != len(h[n]['params']) and not fs[0]['vararg']:
            # aggregates may take several registers
            pass
    for n in sorted(set(re.findall(r'^\s*extern\s+const\s+[^;()]*?\b(\w+)\s*;', s, re.M))):
        g = [x for x in m.gsrc.get(n, []) if not x.get('decl')]
        c.ob('defined', 'lib/src/cypher-parser.h.in ' + n, bool(g) and not g[0]['hidden'] and not g[0]['internal'], key=n, msg='declared but not defined or not visible')
    for n, f in sorted(m.raw.items()):
        src = f.get('src', n)
        if not f['internal'] and not f['hidden']:
            c.ob('private', '%s (%s)' % (src, f.get('file')), src in h, key=src, msg='is visible outside the library although the public header does not declare it')

PROPS = {'T01': T01, 'I01': I01}
