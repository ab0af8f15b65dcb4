#!/usr/bin/env python3
"""Check driver: run.py PROPERTY [quick|thorough]   (see DESIGN.md)

Builds the symbolic engine and, from /repo's current sources, one instrumented program per harness; explores
it (the SMT solver decides every symbolic branch and every assertion); replays each counterexample natively
against the real code; writes evidence/<property>.json.  Exit 0: held; 1: VIOLATION printed."""
import sys, os, subprocess, hashlib, json, time, shutil, re, tempfile, glob, shlex
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, VERIF)
REPO = os.environ.get('SX_REPO', '/repo'); SRC = REPO + '/src/Meshing'
ENG = VERIF + '/engine'; HAR = VERIF + '/harness'
LL = '/usr/lib/llvm-18/bin/'; Z3 = '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3'
CLANG = LL + 'clang++'
BASE = os.environ.get('SX_BUILD', VERIF + '/.build')
import checks
T0 = time.time()

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise RuntimeError('command failed (%d): %s\n%s' % (r.returncode, ' '.join(cmd), r.stdout.decode(errors='replace')[-6000:]))
    return r.stdout.decode(errors='replace')

def digest(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:20]

def rd(p):
    with open(p, 'rb') as f: return f.read()

def once(target, fn):
    """build target atomically unless present"""
    if os.path.exists(target): return target
    os.makedirs(os.path.dirname(target), exist_ok=True)
    tmp = '%s.%d.%d.tmp' % (target, os.getpid(), id(fn) & 0xffff)
    fn(tmp); os.replace(tmp, target); return target

def srchash():
    return digest(*[rd(p) for p in sorted(glob.glob(SRC + '/*.h') + glob.glob(ENG + '/*.h') + glob.glob(ENG + '/stub/*.h') + glob.glob(HAR + '/*.h'))])

INC = ['-I' + ENG, '-I' + HAR, '-I' + ENG + '/stub', '-I' + SRC]
STD = ['-std=c++14', '-w', '-ffunction-sections']
def engine():
    hp = digest(rd(ENG + '/sxpass.cpp')); hr = digest(rd(ENG + '/sx_rt.cpp')); d = BASE + '/eng/'
    so = d + 'sxpass_%s.so' % hp; rt = d + 'sx_rt_%s.o' % hr
    ex = ThreadPoolExecutor(2)
    a = ex.submit(once, so, lambda t: sh(['g++', '-std=c++17', '-O1', '-fPIC', '-shared', '-fno-rtti', '-I/usr/lib/llvm-18/include', '-D__STDC_CONSTANT_MACROS', '-D__STDC_LIMIT_MACROS', '-D_GNU_SOURCE', ENG + '/sxpass.cpp', '-o', t]))
    b = ex.submit(once, rt, lambda t: sh(['g++', '-std=c++17', '-O2', '-c', ENG + '/sx_rt.cpp', '-I' + Z3 + '/include', '-o', t]))
    return a.result(), b.result()

# TUs compiled natively even in the symbolic program (console / timer: no property-relevant computation)
PLAIN = ['MeshingConsole.cpp', 'MeshingCommon.cpp', 'MeshingTimer.cpp']

def tu_bc(path, defs, hh):
    fl = ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-gline-tables-only', '-ffp-contract=off', '-fno-exceptions', '-emit-llvm', '-c'] + STD + ['-DFIXED_RNG_SEED'] + defs + INC
    if '-DSX_OMP' in defs: fl += ['-fopenmp']
    h = digest(rd(path), hh, ' '.join(fl))
    return once(BASE + '/bc/%s_%s.bc' % (os.path.basename(path), h), lambda t: sh([CLANG] + fl + [path, '-o', t]))

def native_obj(path, flags, hh, cxx='g++'):
    h = digest(rd(path), hh, ' '.join(flags), cxx)
    return once(BASE + '/no/%s_%s.o' % (os.path.basename(path), h), lambda t: sh([cxx] + flags + STD + ['-DFIXED_RNG_SEED'] + INC + ['-c', path, '-o', t]))

def hdefs(hs): return ['-include', ENG + '/sxfile.h'] if hs.get('files') else []

def symbolic_program(hs, defs, eng):
    so, rt = eng; hh = srchash()
    tus = [SRC + '/' + t for t in hs['tus']] + [HAR + '/' + hs['src']]
    ex = ThreadPoolExecutor(8)
    plain = [ex.submit(native_obj, SRC + '/' + p, ['-O1', '-g'] , hh) for p in PLAIN]
    bcs = list(ex.map(lambda p: tu_bc(p, defs + (['-DSX_OMP'] if hs.get('omp') else []) + (['-D_GLIBCXX_EXTERN_TEMPLATE=0'] if hs.get('strings') else []) + hdefs(hs), hh), tus))
    key = digest(*bcs, so, rt); exe = BASE + '/exe/%s_%s' % (hs['src'].replace('.cpp', ''), key)
    pl = [p.result() for p in plain]
    def build(t):
        ov = hs.get('override')  # the harness replaces functions of the code under test (stand-ins for collaborators)
        sh([LL + 'llvm-link', '-o', t + '.l.bc'] + (bcs[:-1] + ['--override=' + bcs[-1]] if ov else bcs))
        sh([LL + 'opt', '-passes=internalize,globaldce,function(sroa),mergereturn' if False else '-passes=internalize,globaldce,function(sroa)', '-internalize-public-api-list=sx_main', t + '.l.bc', '-o', t + '.o.bc'])
        sh([LL + 'opt', '-load-pass-plugin', so, '-passes=sx', t + '.o.bc', '-o', t + '.i.bc'])
        sh([CLANG, '-O1', '-c', '-w', t + '.i.bc', '-o', t + '.o'])
        sh(['g++', '-rdynamic', t + '.o', rt] + pl + ['-o', t, '-L' + Z3 + '/lib', '-Wl,-rpath,' + Z3 + '/lib', '-lz3', '-lgmpxx', '-lgmp', '-lpthread'])
        for s in ('.l.bc', '.o.bc', '.i.bc', '.o'):
            os.remove(t + s)
    return once(exe, build)

def native_program(hs, defs, san='address'):
    hh = srchash(); ex = ThreadPoolExecutor(8); link = []
    if san == 'thread':
        cxx = CLANG; fl = ['-O1', '-g', '-fsanitize=thread', '-fopenmp', '-DSX_OMP'] + defs; extra = [ENG + '/sx_kmpc.cpp']
    elif san == 'valgrind':
        cxx = 'g++'; fl = ['-O0', '-g', '-ffp-contract=off'] + defs; extra = []
    else:
        cxx = 'g++'; fl = ['-O1', '-g', '-ffp-contract=off', '-fsanitize=address', '-fno-omit-frame-pointer'] + defs; extra = []
    if hs.get('omp') and san != 'thread':
        fl.append('-DSX_OMP'); extra = [ENG + '/sx_kmpc.cpp']
        if san == 'address': cxx = CLANG; fl += ['-fopenmp']
        else: cxx = CLANG; fl += ['-fopenmp']
    tus = [HAR + '/' + hs['src']] + [SRC + '/' + t for t in hs['tus'] + PLAIN] + [ENG + '/sx_native.cpp'] + extra
    fl = fl + hdefs(hs)
    objs = list(ex.map(lambda p: native_obj(p, [f for f in fl if not (f == '-fopenmp' and p.endswith('sx_kmpc.cpp'))], hh, cxx), tus))
    key = digest(*objs); exe = BASE + '/nexe/%s_%s_%s' % (hs['src'].replace('.cpp', ''), san, key)
    lf = [f for f in fl if f.startswith('-fsanitize')] + ['-Wl,--gc-sections'] + (['-Wl,--allow-multiple-definition'] if hs.get('override') else [])
    return once(exe, lambda t: sh([cxx] + lf + objs + ['-o', t, '-lpthread']))

def runcmd(cmd, cwd, env, timeout):
    e = dict(os.environ); e.update(env)
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout)
        return r.returncode, r.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 'timeout', ''

def replay(hs, defs, cand, kind, msg):
    """-> (reproduced, note)"""
    tmp = tempfile.mkdtemp(prefix='sxr_')
    try:
        env = {'SX_REPLAY': cand, 'ASAN_OPTIONS': 'detect_leaks=0:exitcode=43:allocator_may_return_null=0:max_allocation_size_mb=256', 'TSAN_OPTIONS': 'exitcode=44:halt_on_error=1'}
        if kind == 'race':
            exe = native_program(hs, defs, 'thread')
            for k in range(30):
                rc, err = runcmd([exe], tmp, env, 60)
                if rc == 44 or 'ThreadSanitizer: data race' in err: return True, 'ThreadSanitizer confirms the race'
            return False, 'race not observed natively in 30 runs'
        if kind == 'uninit':
            exe = native_program(hs, defs, 'valgrind')
            rc, err = runcmd(['valgrind', '-q', '--error-exitcode=45', '--undef-value-errors=yes', exe], tmp, env, 240)
            return rc in (45, 42), 'valgrind rc=%s %s' % (rc, err[-400:])
        exe = native_program(hs, defs, 'address')
        rc, err = runcmd([exe], tmp, env, 60)
        if rc == 'timeout': return kind == 'steps', 'native run did not terminate in 60 s'
        if rc == 42: return True, err.strip().splitlines()[-1] if err.strip() else ''
        if rc == 43: return kind in ('memory', 'crash', 'uninit') or True, (re.findall(r'ERROR: AddressSanitizer: [^\n]*', err) or ['asan'])[0]
        if isinstance(rc, int) and (rc < 0): return True, 'native run died with signal %d' % -rc
        return False, 'native run rc=%s %s' % (rc, err.strip()[-200:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def validate_witness(hs, defs, w):
    """native run of a path witness must succeed and print the same observations"""
    tmp = tempfile.mkdtemp(prefix='sxw_')
    try:
        exe = native_program(hs, defs, 'address'); rc, err = runcmd([exe], tmp, {'SX_REPLAY': w, 'SX_OBS': tmp + '/obs', 'ASAN_OPTIONS': 'detect_leaks=0:exitcode=43'}, 60)
        want = [float(l.split('\t')[1]) for l in open(w) if l.startswith('#obs')]
        got = [float(x) for x in open(tmp + '/obs').read().split()] if os.path.exists(tmp + '/obs') else []
        same = len(want) == len(got) and all(a == b or (a != a and b != b) or abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b)) for a, b in zip(want, got))
        return rc == 0, same, 'rc=%s %s' % (rc, err.strip()[-300:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def demangle(names):
    try: return subprocess.run(['c++filt'], input='\n'.join(names).encode(), stdout=subprocess.PIPE).stdout.decode().split('\n')
    except Exception: return names

def known_findings(prop):
    res = []
    p = VERIF + '/KNOWN_FINDINGS.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('known: property=%s ' % prop): # known: property=X harness=H kind=K match=<regex> :: text
                m = re.match(r'known: property=\S+ harness=(\S+) kind=(\S+) match=(.*?) :: (.*)$', l)
                if m: res.append(m.groups())
    return res

def main():
    if sys.argv[1] == '--setup':
        engine(); return 0
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    P = checks.PROPS[prop]; seed = int(os.environ.get('VERIF_SEED', '1'))
    total = (780 if tier == 'quick' else 10800) if 'SX_TOTAL' not in os.environ else float(os.environ['SX_TOTAL'])
    eng = engine(); ncores = os.cpu_count() or 8
    work = tempfile.mkdtemp(prefix='sx_%s_' % prop); rdir = VERIF + '/replay/' + prop
    shutil.rmtree(rdir, ignore_errors=True)
    viol = []; known_hit = []; inconcl = []; harness_stats = []; samples = []; kf = known_findings(prop)
    agg = dict(paths=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, checks=0, check_unknown=0, solver_s=0.0, lost=0, steplimit=0, abstracted=0, candidates=0, not_reproduced=0, witnesses=0, witness_ok=0, witness_disagree=0)
    try:
        runs = [h for h in P['harnesses'] if tier in h.get('tiers', ('quick', 'thorough'))]
        progs = []
        with ThreadPoolExecutor(3) as ex:
            futs = [ex.submit(symbolic_program, h, h.get('defs', []) + h.get(tier, []), eng) for h in runs]
            nfuts = []
            for h in runs:
                if h.get('witness', True): nfuts.append(ex.submit(native_program, h, h.get('defs', []) + h.get(tier, [])))
            keep = []
            for h, f in zip(list(runs), futs):
                try: progs.append(f.result()); keep.append(h)
                except RuntimeError as e: inconcl.append('%s: harness does not build against this tree: %s' % (h.get('name', h['src']), str(e)[-1500:]))
            for f in nfuts:
                try: f.result()
                except RuntimeError as e: pass
            runs = keep
            if not runs:
                for n in inconcl: print('note: ' + n)
                print('no harness of %s could be built' % prop); return 2
        built = time.time() - T0
        wsum = sum(h.get('weight', 1) for h in runs); left = max(60.0, total - built - 60)
        for i, (h, exe) in enumerate(zip(runs, progs)):
            name = h.get('name', h['src'][:-4]); defs = h.get('defs', []) + h.get(tier, [])
            out = work + '/%d' % i; cwd = out + '/cwd'; os.makedirs(cwd)
            remaining = total - 60 - (time.time() - T0)
            budget = min(h.get('budget', 1e9) if tier == 'quick' else 1e9, max(20.0, remaining * h.get('weight', 1) / max(1e-9, sum(x.get('weight', 1) for x in runs[i:]))))
            t1 = time.time()
            try:
                r = subprocess.run([exe, out, '%.1f' % budget, str(ncores)], cwd=cwd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=budget * 1.3 + 60)
                err = r.stderr.decode(errors='replace')[-1500:]
            except subprocess.TimeoutExpired:
                err = 'explorer timeout'; subprocess.run(['pkill', '-9', '-f', out], stdout=subprocess.DEVNULL)
            st = json.load(open(out + '/stats.json')) if os.path.exists(out + '/stats.json') else None
            if st is None:
                inconcl.append('%s: no result (%s)' % (name, err[-300:])); st = dict(paths=0, queries=0, functions=[], cover={}, checkmsgs={}, lostmsg=err[-200:], stopped=1, infeasible=0)
            for k in agg:
                if k in st: agg[k] += st[k]
            nrep = 0
            for c in sorted(glob.glob(out + '/cand_*.txt'))[:12]:
                kind, msg = open(c).readline().rstrip('\n').split('\t', 1)
                keep = '%s/%s_%s' % (rdir, name, os.path.basename(c)); os.makedirs(rdir, exist_ok=True); shutil.copy(c, keep)
                with open(keep, 'a') as f: f.write('#harness\t%s\n#defs\t%s\n' % (h['src'], ' '.join(defs)))
                hit = [k for k in kf if k[0] == name and k[1] == kind and re.search(k[2], msg)]
                if hit:
                    if hit[0] not in known_hit: known_hit.append(hit[0])
                    continue
                if nrep >= 2: continue
                ok, note = replay(h, defs, keep, kind, msg)
                if ok: viol.append((name, kind, msg, keep, note)); nrep += 1
                else: agg['not_reproduced'] += 1; inconcl.append('%s: %s candidate "%s" not reproduced natively (%s)' % (name, kind, msg, note))
            wits = sorted(glob.glob(out + '/wit_*.txt'))
            if h.get('witness', True) and not viol:
                with ThreadPoolExecutor(8) as ex: vr = list(ex.map(lambda w: validate_witness(h, defs, w), wits[:24]))
                for w, (ok, same, note) in zip(wits, vr):
                    agg['witnesses'] += 1
                    if ok and same: agg['witness_ok'] += 1
                    elif 'REPLAY-ASSUME' in note: pass
                    elif 'REPLAY-VIOLATION' in note or 'AddressSanitizer' in note or 'rc=-' in note:
                        # a witness of a "clean" symbolic path fails natively: rounding-level disagreement is not counted
                        keep = '%s/%s_%s' % (rdir, name, os.path.basename(w)); os.makedirs(rdir, exist_ok=True); shutil.copy(w, keep)
                        agg['witness_disagree'] += 1; inconcl.append('%s: witness %s differs natively: %s' % (name, os.path.basename(w), note[-200:]))
                    else: agg['witness_disagree'] += 1; inconcl.append('%s: witness %s differs natively: %s' % (name, os.path.basename(w), note[-200:]))
            if wits and len(samples) < 6:
                samples.append({'harness': name, 'input': [l.strip().split('\t')[:2] for l in open(wits[0]) if not l.startswith('#')][1:40]})
            miss = [c for c in h.get('cover', []) if not st['cover'].get(c)]
            if miss: inconcl.append('%s: coverage points not reached: %s' % (name, miss))
            fn = [d for d in demangle(st.get('functions', [])) if d and not re.match(r'(std::|sx_|main$|__|operator|void std::|nm\(|_GLOBAL|decltype|unsigned long std|bool std|char\S* std|double std)', d)]
            harness_stats.append(dict(harness=name, source='harness/' + h['src'], bounds=h.get('bounds', ''), defines=defs, wall_s=round(time.time() - t1, 1), complete=(not st.get('stopped')) and st.get('lost', 0) == 0 and st.get('unknown', 0) == 0 and st.get('check_unknown', 0) == 0,
                paths=st.get('paths'), assumed_away=st.get('assumed_away'), queries=st.get('queries'), sat=st.get('sat'), unsat=st.get('unsat'), unknown=st.get('unknown'), solver_s=st.get('solver_s'), checks=st.get('checks'), check_unknown=st.get('check_unknown'), lost=st.get('lost'), lostmsg=st.get('lostmsg'), stopped=st.get('stopped'), cover=st.get('cover'), assertions=st.get('checkmsgs'), functions_encoded=fn))
            if os.environ.get('SX_VERBOSE'): print(json.dumps(harness_stats[-1], indent=1)[:3000], file=sys.stderr); print(err, file=sys.stderr)
            if viol and tier == 'quick': break
        funcs = sorted({f for h in harness_stats for f in h['functions_encoded']})
        ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - T0, 1), violations=len(viol),
            coverage=dict(states=agg['paths'], transitions=agg['forks'], traces_validated_against_impl=agg['witness_ok'], samples=samples or [{'note': 'no completed path'}],
                explanation='states = execution paths of the real code explored to the end (each stands for every input satisfying its path condition); transitions = branch points where the solver found both sides feasible; traces validated = path witnesses re-run natively against /repo with identical observations and no violation.',
                functions_encoded=funcs, solver=dict(name='z3 (C API)', queries=agg['queries'], sat=agg['sat'], unsat=agg['unsat'], unknown=agg['unknown'], time_s=round(agg['solver_s'], 2)), assertion_instances=agg['checks'], assertion_instances_undecided=agg['check_unknown'],
                inputs_lost_to_concretisation_or_budget=agg['lost'], abstracted_math_calls=agg['abstracted'], candidates=agg['candidates'], candidates_not_reproduced=agg['not_reproduced'], harnesses=harness_stats, inconclusive=inconcl, exhaustive=all(h['complete'] for h in harness_stats)),
            assumptions=checks.ASSUME + P.get('assume', []))
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open(VERIF + '/evidence/%s.json' % prop, 'w') as f: json.dump(ev, f, indent=1)
        for k in known_hit: print('KNOWN-FINDING: property=%s %s' % (prop, k[3]))
        for n in inconcl: print('note: ' + n.replace('\n', ' ')[:300])
        print('%s %s: %d paths, %d queries (%d unsat, %d sat, %d unknown), %d assertion instances, %d/%d witnesses validated, %.0f s' % (prop, tier, agg['paths'], agg['queries'], agg['unsat'], agg['sat'], agg['unknown'], agg['checks'], agg['witness_ok'], agg['witnesses'], time.time() - T0))
        if viol:
            for name, kind, msg, keep, note in viol: print('  %s [%s] %s -- %s' % (name, kind, msg, note)); print('VIOLATION property=%s replay=%s' % (prop, keep))
            return 1
        return 0
    finally:
        if not os.environ.get('SX_KEEP'): shutil.rmtree(work, ignore_errors=True)
        else: print('kept', work)

if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
