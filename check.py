#!/usr/bin/env python3
"""Decides one property of TameParse by symbolic execution of the real code (see DESIGN.md).

  check.py PROPERTY [quick|thorough]      run a property's check (exit 0 / exit 1 + VIOLATION line)
  check.py --setup                        build the engine
  check.py --replay PROPERTY FILE         replay a counterexample file against a native build
"""
import sys, os, json, hashlib, subprocess, time, glob, shutil, re, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('TP_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
ENGINE = os.path.join(VERIF, 'engine')
HARN = os.path.join(VERIF, 'harness')
LLVM = '/usr/lib/llvm-18/bin/'
JOBS = 8
sys.path.insert(0, VERIF)

BCFLAGS = ['-std=gnu++11', '-O1', '-w', '-fno-vectorize', '-fno-slp-vectorize', '-fno-jump-tables', '-D_GLIBCXX_EXTERN_TEMPLATE=0',
           '-Xclang', '-disable-lifetime-markers', '-emit-llvm', '-c']
PUBLIC = ['sym_main'] + ['symc_' + n for n in 'memcmp bcmp strlen strcmp memchr wcslen wmemcpy wmemmove wmemset wmemcmp wmemchr'.split()]

# Source groups of /repo
def group(name):
    d = os.path.join(REPO, 'TameParse')
    if name == 'bootstrap':
        return [os.path.join(d, 'Language', 'bootstrap.cpp')]
    if name == 'Generated':
        return sorted(glob.glob(os.path.join(generate_parsers(), '*.cpp')))
    fs = sorted(glob.glob(os.path.join(d, name, '*.cpp')))
    if name == 'Language':      # with the generated parser for definition files
        fs = [f for f in fs if not f.endswith('/bootstrap.cpp')] + [os.path.join(generate(), 'tameparse_language.cpp')]
    if name == 'Compiler':
        fs += sorted(glob.glob(os.path.join(d, name, 'Data', '*.cpp')) + glob.glob(os.path.join(d, name, 'OutputStages', '*.cpp')))
        fs += [os.path.join(d, 'version.cpp')]
    return fs

# The repository's parser for definition files is generated, by its bootstrap program from definition.tp: done natively from the current tree
_gen = None
NEEDS_GEN = ('language_parser', 'import_stage', 'test_stage', 'parser_stage', 'language_builder_stage')
def generate():
    global _gen
    if _gen: return _gen
    d = os.path.join(REPO, 'TameParse')
    src = [os.path.join(REPO, 'bootstrap', 'main.cpp'), os.path.join(d, 'version.cpp')]
    for g in ('Dfa', 'Util', 'ContextFree', 'Lr', 'Language', 'Compiler', 'Compiler/Data', 'Compiler/OutputStages'):
        src += [f for f in sorted(glob.glob(os.path.join(d, g, '*.cpp'))) if os.path.splitext(os.path.basename(f))[0] not in NEEDS_GEN]
    tp = os.path.join(d, 'Language', 'definition.tp')
    key = hashlib.sha256((headers_hash() + fhash(tp, *src)).encode()).hexdigest()[:32]
    out = os.path.join(BUILD, 'cache', key + '.gen')
    with lock('.genlock'):
        if not os.path.exists(out):
            w = out + '.tmp'; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
            data = open(tp, 'rb').read()
            with open(os.path.join(w, 'definition_tp.h'), 'w') as f:
                f.write('unsigned char definition_tp[] = {%s};\nunsigned int definition_tp_len = %d;\n' % (','.join(str(b) for b in data), len(data)))
            def one(n):
                o = os.path.join(w, '%d.o' % n)
                sh(['g++', '-std=gnu++11', '-O1', '-w', '-DTAMEPARSE_BOOTSTRAP=1', '-I' + REPO, '-I' + w, '-c', src[n], '-o', o])
                return o
            with cf.ThreadPoolExecutor(JOBS) as ex:
                objs = list(ex.map(one, range(len(src))))
            sh(['g++'] + objs + ['-o', os.path.join(w, 'bootstrap')])
            sh([os.path.join(w, 'bootstrap')], cwd=w, timeout=300)
            for o in objs + [os.path.join(w, 'bootstrap')]: os.unlink(o)
            for n in ('tameparse_language.cpp', 'tameparse_language.h'):
                if not os.path.exists(os.path.join(w, n)): raise Broken('the bootstrap program did not write ' + n)
            os.rename(w, out)
    _gen = out
    return out

# The C++ parsers that the current tree writes for the definitions in harness/gen: its real generator, built natively
class Refused(Exception):
    pass
def run_generator(exe, tp, w):
    """Writes and compiles the parser for a definition; returns what went wrong"""
    n = os.path.splitext(os.path.basename(tp))[0]
    start = re.match(r'// start: (.*)', open(tp).read()).group(1).split()
    try:
        r = subprocess.run([exe, tp, 'L', n] + start, cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    except subprocess.TimeoutExpired:
        return 'the generator did not end within 120 s for %s' % tp
    if r.returncode: return 'the generator ended with %d for %s\n%s' % (r.returncode, tp, r.stdout.decode(errors='replace')[-2000:])
    c = subprocess.run(['g++', '-std=gnu++11', '-w', '-fsyntax-only', '-I' + REPO, n + '.cpp'], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if c.returncode: return 'the parser generated for %s does not compile\n%s' % (tp, c.stdout.decode(errors='replace')[:3000])
    return None
def generate_parsers():
    gen = generate()
    src = [os.path.join(VERIF, 'tools', 'gen_main.cpp')] + [f for g in ('Dfa', 'Util', 'ContextFree', 'Lr', 'Language', 'Compiler') for f in group(g)]
    tps = sorted(glob.glob(os.path.join(HARN, 'gen', '*.tp')))
    key = hashlib.sha256((headers_hash() + fhash(*(src + tps))).encode()).hexdigest()[:32]
    out = os.path.join(BUILD, 'cache', key + '.genp')
    with lock('.genplock'):
        if not os.path.exists(out):
            w = out + '.tmp'; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
            with cf.ThreadPoolExecutor(JOBS) as ex:
                objs = list(ex.map(lambda s: compile_one(s, 'o0', ['-I' + gen]), src))
            exe = os.path.join(w, 'gen'); sh(['g++'] + objs + ['-o', exe])
            for tp in tps:
                why = run_generator(exe, tp, w)
                if why: raise Refused(why)
            with open(os.path.join(w, 'defs.h'), 'w') as f:
                f.write('static const char* DEFS[] = {\n%s\n};\n' % ',\n'.join('R"TP(' + open(t).read() + ')TP"' for t in tps))
            os.rename(w, out)
    return out

# External functions that never look at memory holding symbolic values (or that the engine models): anything else makes a run incomplete
EXT_OK = re.compile(r'^(__cxa_.*|__gxx_personality.*|_Z(nw|na|dl|da).*|_ZSt9terminatev|_ZSt\d+__throw_.*|strtol|__isoc23_strtol|atoi|abort|exit|free|malloc|realloc|calloc|_Unwind.*|_ZNSt8ios_base.*|_ZNK?St6locale.*|_ZSt18uncaught_exceptionv|_ZNSt9basic_ios.*4init.*|'
                    r'_ZSt18_Rb_tree_(in|de)crement.*|_ZSt29_Rb_tree_insert.*|_ZSt28_Rb_tree_rebalance.*|_ZNSt8__detail15_List_node.*|_ZNSt9exception.*|_ZNSt.*(exception|_error).*|__dynamic_cast|__assert_fail|_ZNSt13basic_ostreamIw.*9_M_insertI.*|_ZNSt14basic_iostreamIw.*C2Ev|_ZSt4endlIw.*|_ZStlsIw.*PKc)$')

class Broken(Exception):
    pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode:
        raise Broken('%s\n%s' % (' '.join(cmd), r.stderr.decode(errors='replace')[-4000:]))
    return r

def fhash(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()

def lock(name):
    import fcntl
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f

def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    with lock('.lock'):
        stamp = os.path.join(BUILD, 'engine.stamp')
        src = [os.path.join(ENGINE, f) for f in ('symtool.cpp', 'symrt.cpp', 'symlibc.cpp', 'stdinst.cpp', 'replayrt.cpp', 'sym.h')]
        want = fhash(*src)
        if os.path.exists(stamp) and open(stamp).read() == want:
            return
        cxx = subprocess.check_output([LLVM + 'llvm-config', '--cxxflags']).decode().split()
        ld = subprocess.check_output([LLVM + 'llvm-config', '--ldflags', '--libs']).decode().split()
        with cf.ThreadPoolExecutor(4) as ex:
            a = ex.submit(sh, ['clang++', '-O1'] + cxx + ['-fno-rtti', '-w', ENGINE + '/symtool.cpp', '-o', BUILD + '/symtool'] + ld)
            b = ex.submit(sh, ['clang++', '-O2', '-g', '-w', '-c', ENGINE + '/symrt.cpp', '-o', BUILD + '/symrt.o'])
            c = ex.submit(sh, ['clang++', '-O1', '-w', '-fno-builtin'] + BCFLAGS + [ENGINE + '/symlibc.cpp', '-o', BUILD + '/symlibc.bc'])
            e = ex.submit(sh, ['clang++'] + BCFLAGS + [ENGINE + '/stdinst.cpp', '-o', BUILD + '/stdinst.bc'])
            d = ex.submit(sh, ['g++', '-O1', '-w', '-c', ENGINE + '/replayrt.cpp', '-o', BUILD + '/replayrt.o'])
            for x in (a, b, c, d, e):
                x.result()
        with open(stamp, 'w') as f:
            f.write(want)

_hdr = None
def headers_hash():
    global _hdr
    if _hdr is None:
        hs = []
        for root, _, files in os.walk(os.path.join(REPO, 'TameParse')):
            for f in files:
                if f.endswith('.h'):
                    hs.append(os.path.join(root, f))
        hs += glob.glob(ENGINE + '/*.h') + glob.glob(HARN + '/*.h')
        _hdr = fhash(*sorted(hs))
    return _hdr

def compile_one(src, kind, extra=()):
    """kind: 'bc' (clang bitcode for the engine) or 'o'/'asan' (native object for replay). Cached by content."""
    inc = ['-I' + REPO, '-I' + ENGINE, '-I' + HARN] + list(extra) + (['-I' + _gen] if _gen else [])
    if kind == 'bc':
        cmd = ['clang++'] + BCFLAGS + inc
    elif kind == 'o0':
        cmd = ['g++', '-std=gnu++11', '-O0', '-w', '-c'] + inc
    elif kind == 'o':
        cmd = ['g++', '-std=gnu++11', '-O1', '-g', '-w', '-c'] + inc
    else:
        cmd = ['g++', '-std=gnu++11', '-O1', '-g', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-c'] + inc
    key = hashlib.sha256((' '.join(cmd) + headers_hash() + fhash(src)).encode()).hexdigest()[:32]
    out = os.path.join(BUILD, 'cache', key + '.' + kind)
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + '.%d.tmp' % os.getpid()
    sh(cmd + [src, '-o', tmp])
    os.rename(tmp, out)
    return out

def sources(run):
    s = []
    for g in run.get('groups', []):
        s += group(g)
    for f in run.get('files', []):
        s.append(os.path.join(REPO, f))
    return s

def compile_all(run, kind):
    extra = run.get('defines', [])
    srcs = sources(run)
    gen = ['-I' + generate_parsers()] if 'Generated' in run.get('groups', []) else []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        h = ex.submit(compile_one, os.path.join(HARN, run['harness']), kind, extra + gen)
        if gen:
            try: h.result()
            except Broken as e:
                if re.search(r"error: no member named 'yy_|yy_gen::", str(e)): raise Refused('the classes generated for the definitions in harness/gen are not what those definitions say\n%s' % e)
        objs = list(ex.map(lambda s: compile_one(s, kind, gen if gen and s.startswith(gen[0][2:]) else []), srcs))
        return [h.result()] + objs

def prune_cache():
    d = os.path.join(BUILD, 'cache')
    if not os.path.isdir(d):
        return
    fs = [(os.path.getmtime(os.path.join(d, f)), os.path.join(d, f)) for f in os.listdir(d)]
    if len(fs) > 1500:
        for _, f in sorted(fs)[:500]:
            try: shutil.rmtree(f) if os.path.isdir(f) else os.unlink(f)
            except OSError: pass

def build_program(run, work):
    bcs = compile_all(run, 'bc')
    key = hashlib.sha256((open(BUILD + '/engine.stamp').read() + ' '.join(sorted(bcs))).encode()).hexdigest()[:32]
    prog = os.path.join(BUILD, 'cache', key + '.prog')
    if not os.path.exists(prog):
        w = os.path.join(work, 'b'); os.makedirs(w, exist_ok=True)
        sh([LLVM + 'llvm-link', BUILD + '/symlibc.bc', BUILD + '/stdinst.bc'] + bcs + ['-o', w + '/all.bc'])
        sh([LLVM + 'opt', '-passes=internalize,globaldce', '-internalize-public-api-list=' + ','.join(PUBLIC), w + '/all.bc', '-o', w + '/dce.bc'])
        r = subprocess.run([BUILD + '/symtool', w + '/dce.bc', w + '/inst.bc', w + '/fns.txt'], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode:
            raise Broken('symtool: ' + r.stderr.decode(errors='replace')[-3000:])
        exts = sorted(l[4:] for l in r.stderr.decode(errors='replace').splitlines() if l.startswith('ext '))
        # parallel code generation
        n = 8 if os.path.getsize(w + '/inst.bc') > 400000 else 1
        if n > 1:
            sh([LLVM + 'llvm-split', '-j', str(n), '-o', w + '/part', w + '/inst.bc'])
            parts = sorted(glob.glob(w + '/part*'))
        else:
            parts = [w + '/inst.bc']
        def cg(p):
            sh([LLVM + 'llc', '-O1', '-filetype=obj', '-relocation-model=pic', p, '-o', p + '.o'])
            return p + '.o'
        with cf.ThreadPoolExecutor(JOBS) as ex:
            objs = list(ex.map(cg, parts))
        tmp = prog + '.%d.tmp' % os.getpid()
        sh(['clang++'] + objs + [BUILD + '/symrt.o', '-lz3', '-o', tmp])
        shutil.copy(w + '/fns.txt', prog + '.fns')
        with open(prog + '.ext', 'w') as f: f.write('\n'.join(exts))
        os.rename(tmp, prog)
    return prog

def build_native(run, kind):
    objs = compile_all(run, kind)
    key = hashlib.sha256((open(BUILD + '/engine.stamp').read() + kind + ' '.join(objs)).encode()).hexdigest()[:32]
    out = os.path.join(BUILD, 'cache', key + '.native')
    if not os.path.exists(out):
        tmp = out + '.%d.tmp' % os.getpid()
        sh(['g++'] + (['-fsanitize=address,undefined'] if kind == 'asan' else []) + objs + [BUILD + '/replayrt.o', '-o', tmp])
        os.rename(tmp, out)
    return out

def replay(run, args, ce, kind='o'):
    """Returns (reproduced, log). Plain build first; memory errors are confirmed with the sanitizers."""
    hdr = open(ce).read()
    hang = hdr.startswith('kind hang')
    log = ''
    for k in ('o', 'asan') if kind == 'o' else (kind,):
        exe = build_native(run, k)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=44:allocator_may_return_null=0', UBSAN_OPTIONS='print_stacktrace=1:exitcode=44')
        try:
            pre = (lambda: __import__('resource').setrlimit(__import__('resource').RLIMIT_AS, (6 << 30, 6 << 30))) if k == 'o' else None
            r = subprocess.run([exe, ce] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env=env, preexec_fn=pre)
            log += '[%s build] exit %d\n%s' % (k, r.returncode, r.stdout.decode(errors='replace')[-3000:])
            if r.returncode in (42, 43) or r.returncode < 0 or (r.returncode == 44 and not hang):
                return True, log
            if r.returncode == 41:
                return False, log
        except subprocess.TimeoutExpired:
            log += '[%s build] did not end within 60 s\n' % k
            return True, log
    return False, log

def demangle(names):
    try:
        r = subprocess.run(['c++filt'], input='\n'.join(names).encode(), stdout=subprocess.PIPE)
        return r.stdout.decode().splitlines()
    except OSError:
        return names

def run_one(prop, run, tier, work, deadline):
    t0 = time.time()
    prog = build_program(run, work)
    tb = time.time() - t0
    args = [str(a) for a in run.get('args_' + tier, run.get('args', []))]
    out = os.path.join(work, 'out'); os.makedirs(out, exist_ok=True)
    fuel = run.get('fuel', 200000000)
    dl = run.get('deadline_' + tier, run.get('deadline', deadline))
    r = subprocess.run([prog, out, str(JOBS), str(min(dl, deadline)), str(fuel), str(run.get('maxviol', 4))] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if not os.path.exists(out + '/stats.json'):
        raise Broken('no statistics from the explorer: ' + r.stderr.decode(errors='replace')[-2000:])
    st = json.load(open(out + '/stats.json'))
    st['build_s'] = round(tb, 1)
    st['extfns'] = [e for e in open(prog + '.ext').read().split() if not EXT_OK.match(e)]
    names = open(prog + '.fns').read().split('\n')
    st['fns'] = [names[i] for i in st.pop('fnhit')]
    st['args'] = args
    if os.environ.get('VDBG'): sys.stderr.write(r.stderr.decode(errors='replace')[-int(os.environ["VDBG"]) * 3000:])
    st['stderr'] = r.stderr.decode(errors='replace')[-2000:]
    ces = sorted(glob.glob(out + '/ce_*.txt'))
    return st, ces

def known_findings(prop):
    """Lines:  known: property=ID harness=H finding=FILE text"""
    res = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) harness=(\S+) finding=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                res.append(m.groups()[1:])
    return res

def check(prop, tier):
    import props
    P = props.PROPS[prop]
    t0 = time.time()
    build_engine()
    prune_cache()
    work = os.path.join(BUILD, 'work', '%s.%d' % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    budget = 780 if tier == 'quick' else 3 * 3600
    stats = []; violations = []; spurious = 0; incomplete = []; vac = []
    for i, run in enumerate(P['runs']):
        if tier == 'quick' and run.get('thorough_only'): continue
        left = budget - (time.time() - t0)
        w = os.path.join(work, str(i)); os.makedirs(w)
        if left < 20:
            incomplete.append('%s: not started, budget used up' % run['harness']); continue
        st, ces = run_one(prop, run, tier, w, left - 60)
        st['harness'] = run['harness']; st['bounds'] = run.get('bounds_' + tier, run.get('bounds', ''))
        stats.append(st)
        print('%s %s: paths=%d killed=%d queries=%d (sat %d, unsat %d, unknown %d) solver=%.1fs asserts=%d explore=%.1fs build=%.1fs violations=%d%s' % (
            run['harness'], ' '.join(st['args']), st['paths'], st['killed'], st['queries'], st['sat'], st['unsat'], st['unknown'], st['solver_ns'] / 1e9,
            st['asserts'], st['wall'], st['build_s'], st['violations'], ' TIMED OUT' if st['timedout'] else ''))
        sys.stdout.flush()
        if st['timedout'] or st['unknown'] or st['truncated'] or st['abnormal']:
            incomplete.append('%s: timedout=%d unknown=%d truncated=%d abnormal=%d' % (run['harness'], st['timedout'], st['unknown'], st['truncated'], st['abnormal']))
        if st['violations'] and not ces:
            incomplete.append('%s: %d counterexamples were not written down' % (run['harness'], st['violations']))
        if st['extptr']:
            incomplete.append('%s: symbolic memory reached external code: %s' % (run['harness'], ', '.join(st['ext'])))
        if st['extfns']:
            incomplete.append('%s: unmodelled external functions: %s' % (run['harness'], ', '.join(st['extfns'])))
        for lab in run.get('reach', ['end']):
            if not st['reach'].get(lab) and not ces:
                vac.append('%s: label %s never reached' % (run['harness'], lab))
        for ce in ces:
            ok, log = replay(run, st['args'], ce)
            if ok:
                d = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
                dst = os.path.join(d, '%s_%s_%d.txt' % (prop, os.path.splitext(run['harness'])[0], len(violations)))
                with open(dst, 'w') as f:
                    f.write(open(ce).read() + '# harness %s %s\n# replay: python3 %s/check.py --replay %s %s\n' % (run['harness'], ' '.join(st['args']), VERIF, prop, dst))
                    f.write('\n'.join('# ' + x for x in log.splitlines()) + '\n')
                violations.append(dst)
                break
            else:
                spurious += 1
                print('counterexample did not reproduce natively (not reported):\n' + log)
        if violations and tier == 'quick':
            break
    # known findings: confirm that the listed input still fails
    nk = 0
    for harness, f, text in known_findings(prop):
        if harness == 'generator':
            why = run_generator(os.path.join(generate_parsers(), 'gen'), os.path.join(VERIF, f), work)
            if why and 'does not compile' in why:
                nk += 1
                print('KNOWN-FINDING: property=%s %s' % (prop, text))
            continue
        run = [r for r in P.get('finding_runs', []) + P['runs'] if r['harness'] == harness][0]
        ok, log = replay(run, [str(a) for a in run.get('args_finding', run.get('args_quick', run.get('args', [])))], os.path.join(VERIF, f), 'o')
        if ok:
            nk += 1
            print('KNOWN-FINDING: property=%s %s' % (prop, text))
    wall = time.time() - t0
    fns = sorted(set(f for st in stats for f in st['fns']))
    dem = [d for d in demangle(fns) if re.match(r'.*\b(dfa|lr|contextfree|util|yy_language|compiler|language)::', d) and not re.match(r'^(void |bool )?std::', d)]
    q = sum(st['queries'] for st in stats)
    obl = sum(st['asserts'] for st in stats)
    exhaustive = not incomplete and not vac and not spurious and not violations
    samples = []
    for st in stats:
        samples.append({'harness': st['harness'], 'args': st['args'], 'bounds': st['bounds'], 'paths': st['paths'], 'paths_killed_by_assumptions': st['killed'],
                        'forks': st['forks'], 'queries': st['queries'], 'sat': st['sat'], 'unsat': st['unsat'], 'unknown': st['unknown'], 'propagated': st['propagated'], 'solver_s': round(st['solver_ns'] / 1e9, 2),
                        'slowest_query_s': round(st['qmax_ns'] / 1e9, 3), 'assertions_checked': st['asserts'], 'assertions_needing_solver': st['asserts_solver'],
                        'symbolic_inputs_max': st['inputs_max'], 'reached': st['reach'], 'explore_s': st['wall'], 'build_s': st['build_s']})
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': P.get('level', 'other'),
          'coverage': {
              'explanation': 'Solver-based bounded symbolic execution of the real code: /repo sources compiled to LLVM bitcode on this run, every path within the bounds explored, every branch and assertion decided by Z3 over all input values.',
              'evaluations': sum(st['paths'] for st in stats), 'distinct_nontrivial': sum(st['pathsym'] for st in stats),
              'rule': 'one evaluation = one symbolic path run to its end (distinct path conditions); non-trivial = its path condition constrains at least one symbolic input',
              'queries': q, 'solver_s': round(sum(st['solver_ns'] for st in stats) / 1e9, 2), 'assertions': obl,
              'exhaustive': exhaustive, 'incomplete': incomplete, 'vacuous': vac, 'spurious_counterexamples': spurious, 'known_findings_confirmed': nk,
              'functions_encoded_count': len(dem), 'functions_encoded': dem[:400], 'samples': samples},
          'assumptions': P.get('assumptions', []) + ['bounds: see coverage.samples[].bounds; nothing outside them is claimed'],
          'wall_s': round(wall, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    for x in incomplete: print('INCOMPLETE ' + x)
    for x in vac: print('VACUOUS ' + x)
    if violations:
        print('VIOLATION property=%s replay=%s' % (prop, violations[0]))
        return 1
    print('%s: held on everything explored (%s), %d paths, %d queries, %.1fs' % (prop, 'complete within the bounds' if exhaustive else 'NOT complete within the bounds', sum(st['paths'] for st in stats), q, wall))
    return 0

def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        build_engine(); return 0
    if a and a[0] == '--replay':
        import props
        build_engine()
        m = re.search(r'^# harness (\S+) ?(.*)$', open(a[2]).read(), re.M)
        hn, args = m.group(1), m.group(2).split()
        run = [r for r in props.PROPS[a[1]]['runs'] if r['harness'] == hn][0]
        ok, log = replay(run, args, a[2]); print(log); print('reproduced' if ok else 'not reproduced')
        return 0
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    try:
        return check(a[0], tier)
    except Refused as e:        # there is no parser to encode: the generator did not write one, or not one that compiles
        d = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
        dst = os.path.join(d, a[0] + '_generator.txt')
        with open(dst, 'w') as f: f.write(str(e) + '\n')
        print(e)
        print('VIOLATION property=%s replay=%s' % (a[0], dst))
        return 1
    except Broken as e:
        print('CHECK-ERROR %s' % e)
        return 2

if __name__ == '__main__':
    sys.exit(main())
