#!/usr/bin/env python3
"""Runner: builds the executor and the bitcode of the current /repo tree, explores every harness of a
property symbolically, replays counterexamples natively, validates sampled paths natively, writes evidence."""
import os, sys, json, hashlib, subprocess, re, time, concurrent.futures as cf, fcntl, shutil, tempfile, glob
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
SRC = REPO + '/src/icl_core/src'
B = os.environ.get('VF_BUILD', V + '/build')
sys.path.insert(0, V)
TIER = "quick"
STRICT = False
NCPU = os.cpu_count() or 4
LIBDEFS = ['ICL_CORE', 'ICL_CORE_CONFIG', 'ICL_CORE_LOGGING', 'ICL_CORE_PLUGIN', 'ICL_CORE_THREAD', 'ICL_CORE_DISPATCH', 'ICL_CORE_CRYPT', 'ICL_CORE_PERFORMANCE_MONITOR']
DEFS = ['-DTIXML_USE_STL', '-DNDEBUG', '-DBOOST_ALL_NO_LIB', '-DBOOST_DYN_LINK'] + ['-D' + d for d in '''_IC_BUILDER_DEPRECATED_STYLE_ _IC_BUILDER_ENABLE_BASE_TYPES_ _SYSTEM_IDENTIFIER_=x86_64.Linux _SYSTEM_LINUX_ _SYSTEM_POSIX_
 _IC_BUILDER_BOOST_ _IC_BUILDER_BOOST_DATE_TIME_ _IC_BUILDER_BOOST_REGEX_ _IC_BUILDER_BOOST_FILESYSTEM_ _IC_BUILDER_BOOST_SYSTEM_ _IC_BUILDER_EIGEN3_ _IC_BUILDER_EIGEN_ _IC_BUILDER_ZLIB_
 _IC_BUILDER_HAS_TIME_H_ _IC_BUILDER_HAS_SYS_TIME_H_ _IC_BUILDER_TINYXML_ _IC_BUILDER_PTHREAD_ _IC_BUILDER_Pthread_ _IC_BUILDER_SQLITE3_ _IC_BUILDER_SQLite3_'''.split()] + ['-D_IC_BUILDER_%s_' % d for d in LIBDEFS]
INCS = ['-I' + SRC, '-I/usr/include/eigen3', '-I/opt/vp/compat']
EXCL = re.compile(r'win32|Win32|Lxrt\d|Darwin|QNX|example_usage|test_suite|TestListener|SQLite')
ASSERT = '-D_GLIBCXX_ASSERTIONS'

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def hfiles(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(b'\0')
        with open(f, 'rb') as fd: h.update(fd.read())
    return h.hexdigest()[:20]
_tree = {}
def tree_hash():
    if 'h' not in _tree:
        fs = []
        for d, _, ff in os.walk(SRC):
            if '/ts/' in d + '/': continue
            fs += [os.path.join(d, f) for f in ff if f.endswith(('.h', '.hpp', '.cpp', '.c', '.ipp', '.inl'))]
        _tree['h'] = hfiles(fs)
    return _tree['h']
def model_hash():
    if 'm' not in _tree: _tree['m'] = hfiles([f for f in glob.glob(V + '/models/**/*', recursive=True) + glob.glob(V + '/native/*') + glob.glob(V + '/harness/*.h') if os.path.isfile(f)])
    return _tree['m']
class Lock:
    def __init__(self, name): os.makedirs(B, exist_ok=True); self.f = open(B + '/' + name + '.lock', 'w')
    def __enter__(self): fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): fcntl.flock(self.f, fcntl.LOCK_UN)
def fail(msg, log=''):
    print('CHECK-ERROR: ' + msg); 
    if log: print(log[-4000:])
    sys.exit(2)
def engine():
    h = hfiles(glob.glob(V + '/engine/*'))
    out = B + '/engine-' + h
    with Lock('engine'):
        if not os.path.exists(out + '/sxe'):
            r = sh([V + '/engine/build.sh', out])
            if not os.path.exists(out + '/sxe'): fail('engine build failed', r.stdout)
    return out + '/sxe'
def cached(key, ext, make):
    os.makedirs(B + '/cache', exist_ok=True)
    p = '%s/cache/%s.%s' % (B, hashlib.sha256(key.encode()).hexdigest()[:24], ext)
    if not os.path.exists(p):
        t = p + '.%d.tmp' % os.getpid()
        r = make(t)
        if r is not None: return r
        os.rename(t, p)
    return p
class Err(str): pass
BCFLAGS = ['-O1', '-fsanitize=null', '-fsanitize-trap=null', '-w', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-gline-tables-only', '-fno-builtin', '-c']
def bc(src, defs, key, cxx=True, mod=True):
    cmd = (['clang++-18', '-std=gnu++17'] if cxx else ['clang-18']) + BCFLAGS + (['-I' + V + '/models/include'] if mod else []) + defs
    def mk(t):
        r = sh(cmd + [src, '-o', t])
        if r.returncode: return Err('compiling %s to bitcode failed\n%s' % (src, r.stdout))
    return cached('bc|%s|%s|%s|%s' % (src, ' '.join(cmd), key, model_hash()), 'bc', mk)
def obj(src, defs, key, san):
    # replay build: same optimisation level as the real build; sanitizers confirm memory errors
    cmd = ['g++', '-std=gnu++17', '-O1', '-g1', '-w', '-c'] + (['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr,float-cast-overflow,alignment,signed-integer-overflow,shift,nonnull-attribute,returns-nonnull-attribute'] if san else []) + defs
    def mk(t):
        r = sh(cmd + [src, '-o', t])
        if r.returncode: return Err('compiling %s natively failed\n%s' % (src, r.stdout))
    return cached('obj|%s|%s|%s|%s' % (src, ' '.join(cmd), key, model_hash()), 'o', mk)
def lib_sources(libs):
    r = []
    for l in libs:
        if l.endswith('.cpp'): r.append(SRC + '/' + l); continue
        for f in sorted(glob.glob(SRC + '/' + l + '/*.cpp')):
            if not EXCL.search(os.path.basename(f)): r.append(f)
    return r
RENAME = ['pthread_create pthread_join pthread_detach pthread_cancel pthread_self pthread_equal pthread_getschedparam pthread_setschedparam pthread_attr_init pthread_attr_destroy',
 'pthread_mutexattr_init pthread_mutexattr_destroy pthread_mutexattr_settype pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_timedlock pthread_mutex_unlock',
 'pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock pthread_rwlock_tryrdlock pthread_rwlock_timedrdlock pthread_rwlock_wrlock pthread_rwlock_trywrlock pthread_rwlock_timedwrlock pthread_rwlock_unlock',
 'sem_init sem_destroy sem_post sem_wait sem_trywait sem_timedwait sem_getvalue clock_gettime gettimeofday time nanosleep usleep sleep sched_yield timerfd_create timerfd_settime read write close']
def build(h, native=True):
    """h: harness description dict(file, libs, defs, models).  Returns (bitcode path, native exe or Err)."""
    src = V + '/harness/' + h['file']
    hdefs = DEFS + INCS + (['-DVF_THOROUGH'] if TIER == 'thorough' else []) + [ASSERT, '-I' + V + '/harness'] + h.get('defs', [])
    if h.get('private'): hdefs = hdefs + ['-fno-access-control']
    libs = lib_sources(h.get('libs', []))
    th = tree_hash()
    mt = h.get('mt')
    models = ([('posix_threads.c', False)] if mt else []) + [('libc.c', False), ('stdcxx.cpp', True)] + [(m, m.endswith('.cpp')) for m in h.get('models', [])]
    nat = [V + '/native/' + m for m in h.get('native', [])] + [V + '/native/replay.cpp']
    san = not h.get('nosan')
    ldefs = DEFS + INCS + [ASSERT] + h.get('defs', [])
    tsan = h.get('libflags', [])
    hh = hfiles([src] + glob.glob(V + '/harness/*.h'))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        bs = [ex.submit(bc, src, hdefs, th + hh)]
        bs += [ex.submit(bc, s, ldefs + tsan, th) for s in libs]
        bs += [ex.submit(bc, V + '/models/' + m, [] if not c else h.get('mdefs', []), '', c, False) for m, c in models]
        ns = []
        if native and mt:
            ns = [ex.submit(obj, s, ['-I' + V + '/harness'] + h.get('defs', []), '', False) for s in nat]
        elif native:
            ns = [ex.submit(obj, src, hdefs, th + hh, san)] + [ex.submit(obj, s, ldefs, th, san) for s in libs] + [ex.submit(obj, s, ['-I' + V + '/harness'] + h.get('defs', []), '', san) for s in nat]
        bcs = [f.result() for f in bs]
        objs = [f.result() for f in ns]
    for x in bcs:
        if isinstance(x, Err): fail('cannot encode the current tree', x)
    entries = h['entries']
    if mt: # accesses to memory are instrumented so that the scheduling model sees them; the native replay is compiled from the same instrumented code
        core, bcs = bcs[:1 + len(libs)], bcs[1 + len(libs):]
        def mkcore(t):
            r = sh(['llvm-link-18'] + core + ['-o', t + '.l'])
            if r.returncode: return Err('llvm-link failed\n' + r.stdout)
            r = sh(['opt-18', '-passes=forceattrs,internalize,globaldce,function(sroa,early-cse,simplifycfg),cgscc(inline,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>)),globaldce,tsan-module,function(tsan)', '-force-attribute=sanitize_thread', '-tsan-instrument-func-entry-exit=0', '-tsan-instrument-memintrinsics=0', '-inline-threshold=25', '-internalize-public-api-list=' + ','.join(entries + h.get('keep', [])), t + '.l', '-o', t])
            os.unlink(t + '.l')
            if r.returncode: return Err('opt failed\n' + r.stdout)
        bcore = cached('mtcore|%s|%s' % ('|'.join(core), ','.join(entries)), 'bc', mkcore)
        if isinstance(bcore, Err): fail('cannot encode the current tree', bcore)
        bcs = [bcore] + bcs
        if native:
            ren = ' '.join(RENAME).split()
            def mkobj(t):
                r = sh(['opt-18', '-passes=forceattrs,asan', '-force-attribute=sanitize_address', bcore, '-o', t + '.l']) if san else None
                if r and r.returncode: return Err('opt failed\n' + r.stdout)
                r = sh(['clang-18', '-O1', '-w', '-x', 'ir', '-c', t + '.l' if san else bcore, '-o', t])
                if san: os.unlink(t + '.l')
                if r.returncode: return Err('native code generation failed\n' + r.stdout)
                r = sh(['objcopy'] + ['--redefine-sym=%s=vf_%s' % (x, x) for x in ren] + [t])
                if r.returncode: return Err('objcopy failed\n' + r.stdout)
            def mkpt(t):
                r = sh(['clang-18', '-O1', '-g1', '-w', '-DVF_NATIVE', '-c', V + '/models/posix_threads.c', '-o', t])
                if r.returncode: return Err(r.stdout)
            objs = objs + [cached('mtobj|%s|%s' % (bcore, san), 'o', mkobj), cached('mtmodel|' + model_hash(), 'o', mkpt)]
    def mklink(t):
        r = sh(['llvm-link-18'] + bcs + ['-o', t + '.l'])
        if r.returncode: return Err('llvm-link failed\n' + r.stdout)
        r = sh(['opt-18', '-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg),cgscc(inline,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>)),globaldce', '-internalize-public-api-list=' + ','.join(entries + ['vf_throw_bad_alloc'] + h.get('keep', [])), t + '.l', '-o', t])
        try: os.unlink(t + '.l')
        except OSError: pass
        if r.returncode: return Err('opt failed\n' + r.stdout)
    out = cached('link|%s|%s' % ('|'.join(bcs), ','.join(entries)), 'bc', mklink)
    if isinstance(out, Err): fail('cannot encode the current tree', out)
    exe = None
    if native:
        e = [x for x in objs if isinstance(x, Err)]
        if e: fail('native build for replay failed', e[0])
        def mkexe(t):
            r = sh(['clang++-18' if mt else 'g++', '-rdynamic'] + (['-fsanitize=address,undefined'] if san else []) + objs + ['-o', t] + h.get('ldlibs', []) + ['-ldl', '-lpthread'])
            if r.returncode: return Err('native link failed\n' + r.stdout)
        exe = cached('exe|' + '|'.join(objs) + ' '.join(h.get('ldlibs', [])), 'exe', mkexe)
        if isinstance(exe, Err): fail('native build for replay failed', exe)
    return out, exe
def native_run(exe, entry, inputs, timeout=20, env=None):
    d = tempfile.mkdtemp(prefix='vf')
    try:
        fn = d + '/in'; open(fn, 'w').write(inputs); os.mkdir(d + '/fs')
        e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:max_allocation_size_mb=2000', UBSAN_OPTIONS='print_stacktrace=1', TZ='UTC', LC_ALL='C')
        if env: e.update(env)
        try:
            r = subprocess.run([exe, entry, fn, d + '/fs'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=d + '/fs', env=e)
            return r.returncode, r.stdout.decode('latin1'), r.stderr.decode('latin1')
        except subprocess.TimeoutExpired:
            return 'timeout', '', ''
    finally: shutil.rmtree(d, ignore_errors=True)
def explore(sxe, bcf, entry, o, tier, seed):
    out = tempfile.mktemp(prefix='vfout')
    cmd = [sxe, bcf, '--entry', entry, '--out', out, '--seed', str(seed), '--max-time', str(min(o.get('time', 1500), 1500) if tier == 'thorough' else min(o.get('time', 420), 700 // ((o['njobs'] + NCPU - 1) // NCPU))), '--samples', str(o.get('samples', 24)), '--max-insts', str(o.get('insts', 20000000)), '--solver-timeout', str(o.get('stimeout', 120000)), '--max-viol', str(o.get('viol', 3))]
    dd = None
    if tier == 'thorough':
        dd = tempfile.mkdtemp(prefix='vfsmt'); cmd += ['--dump', dd, '--dump-max', '40']
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    try: j = json.load(open(out))
    except Exception: j = {'entry': entry, 'fatal': r.stdout[-3000:], 'violations': [], 'incomplete': ['engine crashed (rc %s)' % r.returncode], 'samples': [], 'functions': [], 'reached': []}
    try: os.unlink(out)
    except OSError: pass
    if dd:
        agree = 0; dis = []
        for f in sorted(glob.glob(dd + '/*.smt2')):
            try: q = subprocess.run(['cvc5', '--tlimit=20000', f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=30).stdout.strip().split('\n')[-1]
            except Exception: continue
            want = 'unsat' if f.endswith('_unsat.smt2') else 'sat'
            if q == want: agree += 1
            elif q in ('sat', 'unsat'): dis.append(os.path.basename(f))
        j['cvc5_agree'] = agree
        if dis: j['incomplete'].append('cvc5 disagrees with z3 on ' + ','.join(dis))
        shutil.rmtree(dd, ignore_errors=True)
    j['log'] = r.stdout[-2500:]
    return j
def run(pid, tier, seed, only=None, verbose=False):
    import checks
    global TIER
    TIER = tier
    t0 = time.time()
    P = checks.CHECKS[pid]
    sxe = engine()
    jobs = []
    for h in P['harnesses']:
        h = dict(h)
        if tier == 'thorough' and 'thorough' in h: h.update(h['thorough'])
        ents = h['entries']
        h['optmap'] = dict(ents) if isinstance(ents, dict) else {e: {} for e in ents}
        h['entries'] = sorted(h['optmap'])
        bcf, exe = build(h)
        for e in h['entries']:
            if only and e not in only: continue
            o = dict(h.get('opts', {})); o.update(h['optmap'][e])
            jobs.append((h, bcf, exe, e, o))
    for j in jobs: j[4]['njobs'] = len(jobs)
    tb = time.time() - t0
    with cf.ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda j: explore(sxe, j[1], j[3], j[4], tier, seed), jobs))
    viol = []; inc = []; validated = 0; samples = []; mism = []
    def validate(args):
        j, r, s = args
        inp, obs = s.split('--\n', 1)
        rc, o, e = native_run(j[2], j[3], inp)
        return (j, r, s, rc, o, e, obs)
    work = [(j, r, s) for j, r in zip(jobs, res) for s in r['samples']]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for (j, r, s, rc, o, e, obs) in ex.map(validate, work):
            if rc == 0 and o == obs: validated += 1
            elif not j[0].get('uninit_ok') or rc != 0:
                mism.append((j[3], rc, s, o, e[-1500:]))
    os.makedirs(B + '/replay', exist_ok=True)
    for j, r in zip(jobs, res):
        for n, v in enumerate(r['violations']):
            path = '%s/replay/%s-%s-%d.txt' % (B, pid, j[3], n)
            conf = None
            for env in ({}, {'MALLOC_PERTURB_': '170', 'ASAN_OPTIONS': 'detect_leaks=0:max_malloc_fill_size=4096:malloc_fill_byte=170:allocator_may_return_null=1'}):
                rc, o, e = native_run(j[2], j[3], v['inputs'], env=env)
                if rc == 77 or rc == 'timeout' or (rc not in (0, 78, 79, 80)):
                    conf = (rc, e); break
            with open(path, 'w') as f:
                f.write('property %s\nharness %s entry %s\nkind %s\nmessage %s\nlocation %s\nstack\n%s\ninputs\n%s\nnative replay: %s\n' % (pid, j[0]['file'], j[3], v['kind'], v['msg'], v['loc'], v['stack'], v['inputs'], ('reproduced (exit %s)\n%s' % (conf[0], conf[1][-3000:])) if conf else 'not reproduced (exit %s)\n%s' % (rc, e[-1500:])))
            if conf: viol.append((path, j[3], v))
            else: inc.append('%s: counterexample not reproduced natively: %s %s (%s) see %s' % (j[3], v['kind'], v['msg'], v['loc'], path))
        for i in r['incomplete']: inc.append('%s: %s' % (j[3], i))
    for m in mism[:3]:
        inc.append('%s: native run of a sampled path differs (exit %s): %s' % (m[0], m[1], json.dumps({'inputs+expected': m[2][:800], 'native': m[3][:400], 'stderr': m[4]})))
    tot = lambda k: sum(r.get(k, 0) for r in res)
    fns = {}
    for r in res:
        for f in r['functions']:
            k = f['name']
            o = fns.setdefault(k, [f['insts'], 0]); o[0] = max(o[0], f["insts"]); o[1] = max(o[1], f['covered'])
    for j, r in zip(jobs, res):
        for s in r['samples'][:2]:
            inp, obs = s.split('--\n', 1); samples.append({'harness': j[3], 'inputs': inp.strip().split('\n')[:40], 'observed': obs.strip().split('\n')[:20]})
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': P.get('level', 'model_checking'), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
      'assumptions': P.get('assumptions', []) + checks.COMMON_ASSUMPTIONS,
      'coverage': {'states': tot('paths') + tot('killed') + tot('assume_pruned'), 'transitions': tot('forks') + tot('transitions'), 'traces_validated_against_impl': validated, 'samples': samples[:24],
        'bounds': P['bounds'], 'paths_completed': tot('paths'), 'paths_pruned_by_assumptions': tot('assume_pruned'), 'instructions_executed': tot('insts'), 'assertions_checked': tot('assert_checks'), 'assertions_discharged_for_all_values': tot('assert_discharged'),
        'solver_queries': tot('queries'), 'solver_sat': tot('sat'), 'solver_unsat': tot('unsat'), 'solver_unknown': tot('unknown'), 'queries_decided_by_cvc5_or_z3_new_portfolio': tot('portfolio'), 'query_cache_hits': tot('cache_hits'), 'solver_s': round(tot('solver_s'), 3), 'max_query_s': max([r.get('max_query_s', 0) for r in res] or [0]), 'cvc5_agreeing_queries': tot('cvc5_agree'),
        'functions_encoded': ['%s %d/%d' % (k, v[1], v[0]) for k, v in sorted(fns.items())], 'functions_encoded_count': len(fns), 'reachability_witnesses': sorted({t for r in res for t in r['reached']}),
        'harnesses': [{'entry': j[3], 'file': j[0]['file'], 'paths': r.get('paths', 0), 'queries': r.get('queries', 0), 'solver_s': r.get('solver_s', 0), 'wall_s': r.get('wall_s', 0), 'complete': not r['incomplete']} for j, r in zip(jobs, res)],
        'exhaustive': not inc, 'incomplete': inc[:20]}}
    os.makedirs(V + '/evidence', exist_ok=True)
    if not only: json.dump(ev, open(V + '/evidence/%s.json' % pid, 'w'), indent=1)
    print('%s [%s] build %.1fs total %.1fs paths=%d asserts=%d/%d queries=%d solver=%.1fs validated=%d/%d functions=%d' % (pid, tier, tb, time.time() - t0, tot('paths'), tot('assert_discharged'), tot('assert_checks'), tot('queries'), tot('solver_s'), validated, len(work), len(fns)))
    if verbose:
        for j, r in zip(jobs, res): print('  %-40s paths=%-7d q=%-6d solver=%.1fs wall=%.1fs %s' % (j[3], r.get('paths', 0), r.get('queries', 0), r.get('solver_s', 0), r.get('wall_s', 0), '' if not r['incomplete'] else 'INCOMPLETE'), '' if not r.get('fatal') else r['fatal'])
    for l in P.get('known', []): print('KNOWN-FINDING: property=%s %s' % (pid, l))
    for i in inc[:10]: print('INCOMPLETE: ' + i)
    for path, e, v in viol:
        print('  %s %s: %s at %s' % (e, v['kind'], v['msg'], v['loc']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    if viol: return 1
    bad = [i for i in inc if "budget exhausted" not in i and "solver timeout" not in i and "solver returned unknown" not in i]
    if STRICT and bad: return 2
    return 2 if any(r.get("fatal") and not r.get("paths") for r in res) else 0
def main():
    a = sys.argv[1:]
    if a and a[0] == 'setup':
        engine(); return 0
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1')); only = []; ids = []; verbose = False
    i = 0
    while i < len(a):
        if a[i] == '--tier': tier = a[i + 1]; i += 2
        elif a[i] == '--only': only.append(a[i + 1]); i += 2
        elif a[i] == '--strict': globals()['STRICT'] = True; i += 1
        elif a[i] == '-v': verbose = True; i += 1
        else: ids.append(a[i]); i += 1
    rc = 0
    for p in ids: rc = max(rc, run(p, tier, seed, only, verbose)) if rc != 1 else (run(p, tier, seed, only, verbose), 1)[1]
    return rc
if __name__ == '__main__': sys.exit(main())
