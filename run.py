#!/usr/bin/env python3
"""Builds the noja sources of /repo's working tree with the harness of one
property and runs its exploration.

  run.py <ID> quick|thorough            decide the property
  run.py <ID> replay <file>             re-run one recorded counterexample
  run.py build                          (setup) compile everything once
"""
import threading, sys, os, hashlib, subprocess, glob, concurrent.futures as cf, fcntl, shutil
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('NOJA_REPO', '/repo')
B = os.path.join(V, 'build')
LIB = os.path.join(REPO, 'src/lib')
SAN = ['-fsanitize=address', '-fsanitize=signed-integer-overflow,integer-divide-by-zero,bounds,bool',
       '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
CFLAGS = ['-g1', '-O1', '-DNDEBUG', '-w']
VARIANTS = {'asan': SAN, 'plain': ['-O2']}

def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode()); m.update(b'\0')
    return m.hexdigest()[:24]
def rd(p):
    with open(p, 'rb') as f: return f.read()
def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stdout.write('BUILD FAILED: %s\n%s\n' % (' '.join(cmd), r.stdout.decode(errors='replace')[:2500])); sys.stdout.flush()
        os._exit(3)
def atomic(out, mk):
    if os.path.exists(out): return out
    tmp = '%s.%d.%d.tmp' % (out, os.getpid(), threading.get_ident()) + os.path.splitext(out)[1]
    mk(tmp); os.replace(tmp, out); return out

def lib_sources():
    out = []
    for d, dd, ff in os.walk(LIB):
        dd.sort()
        for f in sorted(ff):
            if f.endswith('.c') and not f.endswith('_n.c'): out.append(os.path.join(d, f))
    return out
def tree_hash(exts=('.h', '.inc', '.def')):
    m = hashlib.sha256()
    for d, dd, ff in os.walk(os.path.join(REPO, 'src')):
        dd.sort()
        for f in sorted(ff):
            if f.endswith(exts): m.update(f.encode()); m.update(rd(os.path.join(d, f)))
    return m.hexdigest()

def jobs_lib(variant):
    """returns list of (objpath, thunk)"""
    hdr = tree_hash()
    res = []
    flags = CFLAGS + VARIANTS[variant]
    for c in lib_sources():
        o = os.path.join(B, 'obj', '%s-%s.o' % (os.path.basename(c)[:-2], h(rd(c), hdr, flags, os.path.relpath(c, REPO))))
        inc = ['-I', LIB]
        res.append((o, (lambda c=c, o=o, inc=inc: atomic(o, lambda t: sh(['clang', '-c', *flags, *inc, c, '-o', t])))))
    # the embedded prelude
    noja = os.path.join(LIB, 'builtins/start.noja'); emb = os.path.join(REPO, 'misc/embedder.c')
    k = h(rd(noja), rd(emb), flags)
    o = os.path.join(B, 'obj', 'start_n-%s.o' % k)
    def mk():
        def go(t):
            e = os.path.join(B, 'obj', 'embedder-%s-%d-%d' % (k, os.getpid(), threading.get_ident())); cfile = e + '.c'
            sh(['clang', '-O1', '-w', emb, '-o', e]); sh([e, noja, 'start_noja', cfile])
            sh(['clang', '-c', *flags, cfile, '-o', t]); os.unlink(e); os.unlink(cfile)
        atomic(o, go)
    res.append((o, mk))
    return res
# per-property extras in checks/<ID>.spec: 'variant', 'ldflags', 'csrc', 'cflags', 'fill' (what fresh memory contains), 'max_mb' (largest allocation that succeeds)
def spec(pid):
    p = os.path.join(V, 'checks', pid + '.spec')
    s = {'variant': 'asan', 'ldflags': [], 'csrc': [], 'cflags': [], 'fill': 190, 'max_mb': 4096}
    if os.path.exists(p):
        exec(open(p).read(), {}, s)
    return s

def build(pid):
    s = spec(pid)
    os.makedirs(os.path.join(B, 'obj'), exist_ok=True)
    vf = VARIANTS[s['variant']]
    jl = jobs_lib(s['variant'])
    hdr = h(tree_hash(('.h', '.inc', '.def', '.c')), rd(os.path.join(REPO, 'misc/embedder.c'))) if s['csrc'] else tree_hash()
    hh = h(*[rd(f) for f in sorted(glob.glob(V + '/harness/*'))])
    extra = []
    for c in [os.path.join(V, 'harness/shim.c')] + [os.path.join(V, x) for x in s['csrc']]:
        o = os.path.join(B, 'obj', '%s-%s.o' % (os.path.basename(c)[:-2], h(rd(c), hdr, hh, vf, s['cflags'])))
        extra.append((o, (lambda c=c, o=o: atomic(o, lambda t: sh(['clang', '-c', *CFLAGS, *vf, *s['cflags'], '-I', LIB, '-I', V + '/harness', c, '-o', t])))))
    cpp = os.path.join(V, 'checks', pid + '.cpp')
    o = os.path.join(B, 'obj', '%s-%s.o' % (pid, h(rd(cpp), hh, vf)))
    cppsan = [f for f in vf if f.startswith('-fsanitize=address')]
    extra.append((o, lambda: atomic(o, lambda t: sh(['clang++', '-std=c++17', '-c', '-g1', '-O1', '-w', *cppsan, '-I', V + '/harness', cpp, '-o', t]))))
    with cf.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(t) for _, t in reversed(jl + extra)]
        for f in fs: f.result()
    objs = [x for x, _ in jl + extra]
    exe = os.path.join(B, '%s-%s' % (pid, h(*objs, s['ldflags'])))
    # reaching the static library's main-less objects directly: everything is linked
    atomic(exe, lambda t: sh(['clang++', *vf, '-g1', *objs, *s['ldflags'], '-lm', '-o', t]))
    os.chmod(exe, 0o755)
    return exe

def prune():
    """keep the cache from growing without bound"""
    try:
        fs = [os.path.join(d, f) for d, _, ff in os.walk(B) for f in ff]
        if sum(os.path.getsize(f) for f in fs) > 3 << 30: shutil.rmtree(B, ignore_errors=True)
    except OSError: pass

def main():
    if sys.argv[1] == 'build':
        ids = sys.argv[2:] or [os.path.basename(f)[:-4] for f in sorted(glob.glob(V + '/checks/*.cpp'))]
        if ids: print(ids[0], build(ids[0]))
        with cf.ThreadPoolExecutor(5) as ex:
            for i, e in zip(ids[1:], ex.map(build, ids[1:])): print(i, e)
        return 0
    pid, tier = sys.argv[1], sys.argv[2]
    prune()
    exe = build(pid)
    env = dict(os.environ, VERIF_DIR=V, NOJA_REPO=REPO)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:handle_segv=1:handle_sigfpe=1:detect_stack_use_after_return=0:max_allocation_size_mb=%d:fast_unwind_on_malloc=1:malloc_context_size=3:quarantine_size_mb=8:max_malloc_fill_size=65536:malloc_fill_byte=%d:' % (spec(pid)['max_mb'], spec(pid)['fill'])
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=98'
    sys.stdout.flush()
    rc = subprocess.run([exe, *sys.argv[2:]], env=env, cwd=V).returncode
    if rc not in (0, 1):
        print('check ended with %d' % rc); return 2
    return rc
sys.exit(main())
