"""Front end: copies the current sources of /repo into a scratch directory,
generates what the build generates (config.h, cypher-parser.h, the leg output),
compiles every translation unit to LLVM IR with clang, runs irx over the linked
module and loads the dump.  Nothing is executed from /repo, and nothing is
written there."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
ENGINE = os.path.join(VERIF, 'engine')
LLVM = '/usr/lib/llvm-18'

class FrontError(Exception):
    """The analysis could not be set up (this is never a verdict)."""

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if p.returncode:
        raise FrontError('%s failed (%d):\n%s' % (' '.join(cmd)[:400], p.returncode, p.stdout[-4000:]))
    return p.stdout

def build_irx():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(ENGINE, 'irx.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'irx-' + h)
    if os.path.exists(exe):
        return exe
    with open(os.path.join(BUILD, 'irx.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        flags = sh([LLVM + '/bin/llvm-config', '--cxxflags']).split()
        sh(['g++', '-O1'] + flags + ['-fno-rtti', src, '-o', exe + '.tmp', '-L' + LLVM + '/lib', '-lLLVM-18'])
        os.rename(exe + '.tmp', exe)
    return exe

SRC_GLOBS = [('lib/src', ('.c', '.h', '.leg', '.in')), ('linter/src', ('.c', '.h')), ('', ('.ac',))]

def source_files():
    out = []
    for d, exts in SRC_GLOBS:
        p = os.path.join(REPO, d)
        if not os.path.isdir(p):
            continue
        for f in sorted(os.listdir(p)):
            if not f.endswith(exts) or f.endswith('_leg.c'):
                continue
            if d == '' and f != 'configure.ac':
                continue
            if f in ('Makefile.in', 'cypher-parser.h', 'config.h.in'):
                continue
            out.append(os.path.join(d, f))
    return out

def source_hash():
    h = hashlib.sha256()
    for f in source_files():
        h.update(f.encode() + b'\0' + open(os.path.join(REPO, f), 'rb').read() + b'\0')
    return h.hexdigest()

def version():
    v = '0.0.0'
    try:
        m = re.search(r'AC_INIT\(\[[^\]]*\],\s*\[([^\]]*)\]', open(os.path.join(REPO, 'configure.ac')).read())
        if m:
            v = m.group(1)
    except OSError:
        pass
    m = re.match(r'(\d+)\.(\d+)\.(\d+)(?:~(\w+))?', v)
    a, b, c, dev = m.groups() if m else ('0', '0', '0', None)
    return v, a, b, c, dev or ''

CONFIG_H = '''#define PACKAGE "libcypher-parser"
#define PACKAGE_NAME "libcypher-parser"
#define PACKAGE_VERSION "%(v)s"
#define PACKAGE_STRING "libcypher-parser %(v)s"
#define PACKAGE_MAJOR_VERSION %(a)s
#define PACKAGE_MINOR_VERSION %(b)s
#define PACKAGE_PATCH_VERSION %(c)s
#define PACKAGE_DEVELOPMENT_VERSION "%(d)s"
#define VERSION "%(v)s"
#define HAVE_STDLIB_H 1
#define HAVE_STRING_H 1
#define HAVE_UNISTD_H 1
#define HAVE_STDBOOL_H 1
#define HAVE_STDINT_H 1
#define HAVE_INTTYPES_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_OPEN_MEMSTREAM 1
#define HAVE_PTHREADS 1
#define HAVE_STRERROR_R 1
#define HAVE_DECL_STRERROR_R 1
#define STDC_HEADERS 1
#define TLS _Thread_local
'''

def prepare(work, append=None):
    for f in source_files():
        d = os.path.join(work, f)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        shutil.copyfile(os.path.join(REPO, f), d)
    v, a, b, c, dev = version()
    with open(os.path.join(work, 'config.h'), 'w') as o:
        o.write(CONFIG_H % dict(v=v, a=a, b=b, c=c, d=dev))
    ls = os.path.join(work, 'lib/src')
    hin = os.path.join(ls, 'cypher-parser.h.in')
    if not os.path.exists(hin):
        raise FrontError('anchor missing: lib/src/cypher-parser.h.in')
    s = open(hin).read()
    for k, r in (('PACKAGE_VERSION', v), ('PACKAGE_MAJOR_VERSION', a), ('PACKAGE_MINOR_VERSION', b),
                 ('PACKAGE_PATCH_VERSION', c), ('PACKAGE_DEVELOPMENT_VERSION', dev), ('PACKAGE_STATUS_VERSION', '1' if dev else '0'),
                 ('configure_input', 'generated')):
        s = s.replace('@%s@' % k, r)
    open(os.path.join(ls, 'cypher-parser.h'), 'w').write(s)
    for f in sorted(os.listdir(ls)):
        if f.endswith('.leg'):
            sh(['leg', '-P', '-o', os.path.join(ls, f[:-4] + '_leg.c'), os.path.join(ls, f)])
    for f, text in sorted((append or {}).items()):
        with open(os.path.join(work, f), 'a') as o:
            o.write('\n' + text)

CFLAGS = ['-std=gnu99', '-O0', '-g', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-fvisibility=hidden',
          '-fno-delete-null-pointer-checks', '-fno-strict-aliasing', '-w', '-D_GNU_SOURCE', '-DHAVE_CONFIG_H', '-U_FORTIFY_SOURCE']
PASSES = ('always-inline,function(sroa,early-cse<memssa>,instsimplify,simplifycfg,jump-threading,loop-simplify,'
          'loop-mssa(loop-rotate),instcombine<no-verify-fixpoint>,simplifycfg,early-cse<memssa>,gvn,instsimplify,simplifycfg,loop-simplify)')

def tus(work, which):
    ls = os.path.join(work, 'lib/src')
    out = []
    if which == 'linter':
        d = os.path.join(work, 'linter/src')
        out = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.c')]
    else:
        out = [os.path.join(ls, f) for f in sorted(os.listdir(ls)) if f.endswith('.c') and not f.endswith('_leg.c')]
    if not out:
        raise FrontError('anchor missing: no C sources for ' + which)
    return out

def compile_ir(work, which, defs):
    od = tempfile.mkdtemp(prefix='ir-', dir=work)
    def one(c):
        o = os.path.join(od, os.path.basename(c) + '.bc')
        sh([LLVM + '/bin/clang', '-c', '-emit-llvm'] + CFLAGS + list(defs) + ['-I' + os.path.join(work, 'lib/src'),
            '-fdebug-compilation-dir=' + work, os.path.relpath(c, work), '-o', o], cwd=work)
        return o
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, tus(work, which)))

def load(which='lib', keep=(), passes=PASSES, defs=('-DNDEBUG',), cache=True, append=None):
    """The dump of the linked module; `keep` names functions never inlined."""
    exe = build_irx()
    key = hashlib.sha256(('|'.join([which, passes, ' '.join(defs), os.path.basename(exe), ' '.join(CFLAGS)] + sorted(keep))
                          + repr(sorted((append or {}).items())) + open(os.path.abspath(__file__)).read() + source_hash()).encode()).hexdigest()[:24]
    cd = os.path.join(BUILD, 'cache')
    os.makedirs(cd, exist_ok=True)
    path = os.path.join(cd, key + '.json')
    if not (cache and os.path.exists(path)):
        work = tempfile.mkdtemp(prefix='irx-')
        try:
            prepare(work, append)
            bcs = compile_ir(work, which, defs)
            kf = os.path.join(work, 'keep')
            open(kf, 'w').write('\n'.join(sorted(keep)))
            tmp = path + '.%d.tmp' % os.getpid()
            sh([exe, tmp, kf, passes] + bcs)
            os.rename(tmp, path)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        def age(f):
            try: return os.path.getmtime(f)
            except OSError: return 0
        for f in sorted((os.path.join(cd, f) for f in os.listdir(cd)), key=age)[:-60]:
            try: os.unlink(f)
            except OSError: pass
    return json.load(open(path))

_gen = {}
def generated(name):
    """The C text leg generates from lib/src/<name>.leg."""
    if name not in _gen:
        src = os.path.join(REPO, 'lib/src', name + '.leg')
        if not os.path.exists(src):
            raise FrontError('anchor missing: lib/src/%s.leg' % name)
        work = tempfile.mkdtemp(prefix='leg-')
        try:
            o = os.path.join(work, 'g.c')
            sh(['leg', '-P', '-o', o, src])
            _gen[name] = open(o, encoding='latin1').read()
        finally:
            shutil.rmtree(work, ignore_errors=True)
    return _gen[name]

if __name__ == '__main__':
    print(build_irx())
