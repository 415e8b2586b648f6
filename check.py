#!/usr/bin/env python3
"""Solver-based checks of GenericContainer.

usage: check.py build            build the symbolic executor and its library models
       check.py PROP [--tier quick|thorough] [--keep]

For one property: recompile /repo's current sources to LLVM bitcode, link them with the property's
harnesses (harness/<PROP>_*.cc) and the library models, execute symbolically (engine/), replay every
counterexample (and a sample of proved paths) natively under ASan, write evidence/<PROP>.json.
"""
import sys, os, re, json, time, hashlib, subprocess, shutil, glob, tempfile, concurrent.futures as cf

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('GC_REPO', '/repo')
ENG = V + '/engine'
CACHE = V + '/.cache'
NPROC = os.cpu_count() or 4
CLANG = 'clang++-18'
INC = ['-I' + REPO + '/include', '-I' + REPO + '/src_json_interface', '-I' + REPO + '/src_yaml_interface',
       '-I' + REPO + '/src_toml_interface', '-I' + REPO + '/src_lua_interface', '-I' + REPO + '/src_lua_interface/lua-5.4.6/src',
       '-I' + V + '/harness', '-I' + V + '/harness/mex']
BCFLAGS = ['-std=c++17', '-O1', '-fno-pic', '-fno-pie', '-gline-tables-only', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-vectorize', '-fno-slp-vectorize',
           '-DGC_SYMBOLIC', '-isystem', ENG + '/shim', '-w', '-emit-llvm', '-c']
NATFLAGS = ['-std=c++17', '-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-w', '-c']
LUA = 'src_lua_interface/lua-5.4.6/src/'

CHDR = 'cmath cstdlib cstring cstdio cstddef climits cfloat clocale ctime csignal cerrno csetjmp cstdarg cassert cctype cwchar algorithm'.split()

def modfiles(m):
    g = lambda p: sorted(glob.glob(REPO + '/' + p))
    if m == 'core': return g('src/*.cc')
    if m == 'json': return [f for f in g('src_json_interface/*.cc') if os.path.basename(f) in ('from_json.cc', 'to_json.cc')]
    if m == 'json2': return [f for f in g('src_json_interface/*.cc') if os.path.basename(f) not in ('from_json.cc', 'to_json.cc')]
    if m == 'jsonall': return g('src_json_interface/*.cc')
    if m == 'yaml': return g('src_yaml_interface/*.cc')
    if m == 'toml': return g('src_toml_interface/*.cc')
    if m == 'lua': return [f for f in g('src_lua_interface/*.cc') if 'Pmain' not in f]
    if m == 'matlab': return g('src_matlab_interface/GenericContainerInterface_matlab.cc')
    if m == 'luavm':
        return [f for f in g(LUA + '*.c') if os.path.basename(f) not in ('lua.c', 'luac.c')]
    raise Exception('module ' + m)

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def sha(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]

def build_engine():
    """engine binary + library models, cached by content of engine/ (never by content of /repo)"""
    os.makedirs(CACHE, exist_ok=True)
    src = [f for f in glob.glob(ENG + '/**/*', recursive=True) if os.path.isfile(f)]
    key = sha(src)
    binp, modp = f'{CACHE}/gcsym-{key}', f'{CACHE}/models-{key}.bc'
    if os.path.exists(binp) and os.path.exists(modp): return binp, modp
    with tempfile.TemporaryDirectory(prefix='gceng') as td:
        q = lambda a: subprocess.check_output(['llvm-config-18', a], text=True).split()
        jobs = []
        for f in ('expr', 'solver', 'exec'):
            jobs.append(['g++', '-std=c++17', '-O2', '-w', '-fno-rtti'] + q('--cppflags') + ['-c', f'{ENG}/{f}.cc', '-o', f'{td}/{f}.o'])
        jobs.append([CLANG, '-std=c++17', '-O1', '-fno-builtin', '-gline-tables-only', '-isystem', ENG + '/shim', '-w', '-emit-llvm', '-c', ENG + '/models.cc', '-o', f'{td}/models.bc'])
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for j, r in zip(jobs, ex.map(run, jobs)):
                if r.returncode: raise Exception('engine build failed: ' + ' '.join(j) + '\n' + r.stdout[-3000:])
        r = run(['g++'] + [f'{td}/{f}.o' for f in ('expr', 'solver', 'exec')] + ['-o', f'{td}/gcsym'] + q('--ldflags') + ['-lLLVM-18', '-lz3'])
        if r.returncode: raise Exception('engine link failed\n' + r.stdout[-3000:])
        for a, b in ((f'{td}/gcsym', binp), (f'{td}/models.bc', modp)):
            shutil.copy(a, b + '.tmp%d' % os.getpid()); os.rename(b + '.tmp%d' % os.getpid(), b)
    return binp, modp

def parse_harness(path):
    h = {'path': path, 'name': os.path.basename(path)[:-3], 'modules': ['core'], 'split': 1, 'covers': [], 'engine': [], 'nmodules': [],
         'quick': {}, 'thorough': {}, 'flags': [], 'bounds': [], 'stubs': [], 'nativeflags': []}
    for l in open(path):
        m = re.match(r'//@ (\w+): *(.*)', l)
        if not m: continue
        k, v = m.group(1), m.group(2).strip()
        if k in ('modules', 'covers', 'engine', 'flags', 'nativeflags', 'nmodules'): h[k] = h[k] + v.split() if k == 'covers' else v.split()
        elif k == 'split': h['split'] = int(v)
        elif k in ('quick', 'thorough'):
            d = {'defs': [], 'time': 60, 'steps': 20000000, 'timeout': 10000}
            for t in v.split():
                if t.startswith('-D'): d['defs'].append(t)
                else:
                    a, b = t.split('='); d[a] = float(b) if a == 'time' else int(b)
            h[k] = d
        elif k in ('bounds', 'stubs'): h[k].append(v)
    for t in ('quick', 'thorough'):
        if not h[t]: h[t] = {'defs': [], 'time': 60, 'steps': 20000000, 'timeout': 10000}
    return h

class Work:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.td = tempfile.mkdtemp(prefix='gcv_' + prop + '_')
        self.hs = [parse_harness(f) for f in sorted(glob.glob(f'{V}/harness/{prop}_*.cc'))]
        only = os.environ.get('GC_ONLY')
        if only: self.hs = [h for h in self.hs if re.search(only, h['name'])]
        if not self.hs: raise Exception('no harness for ' + prop)

    def bc_of(self, f): return f'{self.td}/bc_' + f.replace('/', '_') + '.bc'
    def nat_of(self, f): return f'{self.td}/nat_' + f.replace('/', '_') + '.o'

    def compile_jobs(self, native):
        jobs = []; files = {}
        for h in self.hs:
            for m in h['modules']:
                for f in modfiles(m): files[f] = 1
        for f in files:
            src = f
            if f.endswith('.c'):
                # the Lua library: compiled as C++ with C linkage, so that its errors are exceptions instead of longjmp (its own option)
                src = f'{self.td}/cxx_' + os.path.basename(f) + '.cc'
                open(src, 'w').write(''.join(f'#include <{x}>\n' for x in CHDR) + f'extern "C" {{\n#include "{f}"\n}}\n')
            if native: jobs.append(['g++'] + NATFLAGS + INC + [src, '-o', self.nat_of(f)])
            else: jobs.append([CLANG] + BCFLAGS + INC + (['-DLUA_USE_JUMPTABLE=0'] if src != f else []) + [src, '-o', self.bc_of(f)])
        for h in self.hs:
            defs = h[self.tier]['defs'] + h['flags'] + [f'-DTIER_{self.tier.upper()}']
            if native: jobs.append(['g++'] + NATFLAGS + INC + defs + [h['path'], '-o', self.nat_of(h['name'])])
            else: jobs.append([CLANG] + BCFLAGS + INC + defs + [h['path'], '-o', self.bc_of(h['name'])])
        if native: jobs.append(['g++'] + NATFLAGS + INC + [V + '/harness/native_rt.cc', '-o', self.nat_of('native_rt')])
        return jobs

    def runjobs(self, jobs, n=NPROC):
        bad = []
        with cf.ThreadPoolExecutor(n) as ex:
            for j, r in zip(jobs, ex.map(run, jobs)):
                if r.returncode: bad.append(' '.join(j[-3:]) + '\n' + '\n'.join([l for l in r.stdout.splitlines() if 'error' in l][:8]))
        return bad

    def link_bc(self, h, modp):
        out = f"{self.td}/{h['name']}.bc"
        files = [self.bc_of(h['name'])] + [self.bc_of(f) for m in h['modules'] for f in modfiles(m)] + [modp]
        r = run(['llvm-link-18'] + files + ['-o', out + '.0'])
        if r.returncode: return r.stdout
        r = run(['opt-18', '-passes=internalize,globaldce', '-internalize-public-api-list=harness_main,gcm_throw_bad_alloc', out + '.0', '-o', out])
        if r.returncode: return r.stdout
        os.remove(out + '.0')
        return None

    def link_native(self, h):
        out = f"{self.td}/{h['name']}.exe"
        files = [self.nat_of(h['name'])] + [self.nat_of(f) for m in h['modules'] for f in modfiles(m)] + [self.nat_of('native_rt')]
        r = run(['g++', '-fsanitize=address'] + files + ['-ldl', '-lm', '-lpthread', '-o', out])
        return r.stdout if r.returncode else None

def replay(exe, cexfile, kind, uninit):
    """-> (reproduced, description)"""
    fills = [0xbe] if not uninit else [0x00, 0xff, 0xbe, 0x01]
    last = ''
    for fb in fills:
        env = dict(os.environ, ASAN_OPTIONS=f'detect_leaks=0:exitcode=44:allocator_may_return_null=1:malloc_fill_byte={fb}:max_malloc_fill_size=65536:detect_stack_use_after_return=0:handle_abort=0:quarantine_size_mb=16:max_allocation_size_mb=2048')
        try:
            p = subprocess.run([exe, cexfile], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=60, cwd='/tmp')
        except subprocess.TimeoutExpired:
            return True, 'does not terminate (60 s)'
        out = p.stdout.decode('latin1')
        tail = [l for l in out.splitlines() if l.startswith(('ASSERT-FAIL', 'TERMINATE', 'UNCAUGHT', 'DIVERGED', 'ASSUME-FALSE', 'OK', 'SKIP')) or 'ERROR: AddressSanitizer' in l or 'SUMMARY' in l]
        last = f'rc={p.returncode} ' + ' | '.join(tail)[:400]
        if p.returncode in (42, 43, 44) or (p.returncode < 0) : return True, last
    return False, last

def main():
    if len(sys.argv) < 2: print(__doc__); return 2
    if sys.argv[1] == 'build': print('\n'.join(build_engine())); return 0
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    keep = '--keep' in sys.argv
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    w = Work(prop, tier)
    os.environ['GC_SCRATCH'] = w.td   # files that native replays create (harness/files.hh)
    try:
        return check(w, prop, tier, seed, t0)
    finally:
        if keep: print('kept', w.td)
        else: shutil.rmtree(w.td, ignore_errors=True)

def check(w, prop, tier, seed, t0):
    with cf.ThreadPoolExecutor(2) as ex:
        fe = ex.submit(build_engine)
        fb = ex.submit(w.runjobs, w.compile_jobs(False))
        eng, modp = fe.result(); bad = fb.result()
    if bad:
        print('ENCODING FAILED (the current tree does not lower to bitcode):'); print('\n'.join(bad)); return 2
    for h in w.hs:
        e = w.link_bc(h, modp)
        if e: print('bitcode link failed', h['name'], e[-2000:]); return 2
    t_compile = time.time() - t0
    # symbolic execution, split over the first choice of each harness
    pieces = []
    for h in w.hs:
        o = h[tier]; d = f"{w.td}/out_{h['name']}"; os.makedirs(d, exist_ok=True)
        for i in range(h['split']):
            pieces.append((h, i, [eng, f"{w.td}/{h['name']}.bc", '--out', d, '--time', str(o['time']), '--steps', str(o['steps']), '--timeout', str(o['timeout']),
                           '--split', f"{i}/{h['split']}", '--maxviol', '12', '--mem', '7000'] + h['engine']))
    natjobs = w.compile_jobs(True)
    res = {}; natbad = []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        nat = [ex.submit(run, j) for j in natjobs] if tier == 'quick' else []
        futs = {ex.submit(run, p[2]): p for p in pieces}
        if not nat: nat = [ex.submit(run, j) for j in natjobs]
        for f in cf.as_completed(futs):
            h, i, cmd = futs[f]; r = f.result(); fn = f"{w.td}/out_{h['name']}/result_{i}.json"
            if os.path.exists(fn): res[(h['name'], i)] = json.load(open(fn, encoding='latin1'))
            else: res[(h['name'], i)] = {'crash': (r.stdout or '')[-500:] + f' rc={r.returncode}'}
        for j, f in zip(natjobs, nat):
            r = f.result()
            if r.returncode: natbad.append(' '.join(j[-3:]) + r.stdout[-1500:])
    t_sym = time.time() - t0
    natok = not natbad
    if natok:
        with cf.ThreadPoolExecutor(NPROC) as ex:
            errs = [e for e in ex.map(w.link_native, w.hs) if e]
        if errs: natbad += errs; natok = False
    # known findings
    kf = json.load(open(V + '/known_findings.json')) if os.path.exists(V + '/known_findings.json') else {'findings': []}
    known = [k for k in kf['findings'] if k['property'] == prop and k.get('status') == 'known']
    # replay counterexamples
    viol, unconf, knownhit = [], [], {}
    todo = []
    for (hn, i), r in sorted(res.items()):
        for v in r.get('violations', []): todo.append((hn, i, v))
    def do(t):
        hn, i, v = t
        cex = v['file'] if os.path.isabs(v['file']) else f"{w.td}/out_{hn}/" + os.path.basename(v['file'])
        if not natok: return t, cex, False, 'native build failed'
        ok, d = replay(f'{w.td}/{hn}.exe', cex, v['kind'], v['uninit'])
        return t, cex, ok, d
    with cf.ThreadPoolExecutor(NPROC) as ex: rep = list(ex.map(do, todo))
    seen = set()
    for (hn, i, v), cex, ok, d in rep:
        text = f"{hn} {v['kind']}: {v['msg']} @ {v['loc']}"
        cextxt = open(cex, encoding='latin1').read() if os.path.exists(cex) else ''
        k = next((k for k in known if k['harness'] == hn and re.search(k['msg'], v['kind'] + ': ' + v['msg']) and all(re.search(p, cextxt, re.M) for p in k.get('inputs', []))), None)
        if k and ok: knownhit[k['id']] = k; continue
        key = (hn, v['kind'], v['msg'])
        if not ok: unconf.append({'what': text[:600], 'native': d}); continue
        if key in seen: continue
        seen.add(key)
        rd = f'{V}/evidence/replay'; os.makedirs(rd, exist_ok=True)
        rp = f"{rd}/{prop}_{hn}_{len(viol)}.txt"
        with open(rp, 'w') as o:
            o.write(f"# property {prop}, harness harness/{hn}.cc, tier {tier}\n# {v['kind']}: {v['msg']}\n# at {v['loc']}\n# native replay: {d}\n# inputs in creation order:\n{cextxt}")
        viol.append((text, d, rp))
    # validate proved paths natively
    validated = 0; mism = []
    if natok:
        sm = []
        for (hn, i), r in sorted(res.items()):
            for n, s in enumerate(r.get('samples', [])):
                f = f'{w.td}/sample_{hn}_{i}_{n}.txt'; open(f, 'w').write(s); sm.append((hn, f, s))
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for (hn, f, s), (rep_, d) in zip(sm, ex.map(lambda t: replay(f'{w.td}/{t[0]}.exe', t[1], 'sample', False), sm)):
                if d.startswith('rc=0 '): validated += 1
                else: mism.append({'harness': hn, 'inputs': s[:400], 'native': d})
    tot = lambda k: sum(int(r.get(k, 0) or 0) for r in res.values())
    covers = {}
    for (hn, i), r in res.items():
        for c, n in r.get('covers', {}).items(): covers[c] = covers.get(c, 0) + n
    missing = [f"{h['name']}:{c}" for h in w.hs for c in h['covers'] if c not in covers]
    funcs = {}
    for r in res.values():
        for f, n in r.get('functions', {}).items(): funcs[f] = funcs.get(f, 0) + n
    msgs = {}
    for r in res.values():
        for m, n in r.get('assert_messages', {}).items(): msgs[m] = msgs.get(m, 0) + n
    complete = all(r.get('complete') for r in res.values()) and not tot('unknown_assert') and not tot('unknown_branch')
    samples = [s for r in list(res.values())[:4] for s in r.get('samples', [])[:1]]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
          'coverage': {
              'states': tot('paths') + tot('assume_killed') + tot('error_paths'), 'transitions': tot('steps'), 'traces_validated_against_impl': validated, 'samples': samples,
              'exhaustive': bool(complete),
              'exhaustive_means': 'every path within the stated bounds was explored and every query was decided; false = some path stopped (see incomplete)',
              'symbolic_paths_completed': tot('paths'), 'forks': tot('forks'), 'assertions_evaluated': tot('asserts'), 'assertions_decided_by_solver': tot('symbolic_asserts'),
              'distinct_assertions': len(msgs), 'memory_accesses_checked': tot('mem_checks'), 'queries': tot('queries'), 'query_cache_hits': tot('cache_hits'), 'sat': tot('sat'), 'unsat': tot('unsat'), 'unknown': tot('unknown'),
              'solver_s': round(sum(r.get('solver_s', 0) for r in res.values()), 3), 'max_query_s': max([r.get('max_query_s', 0) for r in res.values()] + [0]),
              'compile_s': round(t_compile, 2), 'symbolic_s': round(t_sym - t_compile, 2),
              'bounds': [b for h in w.hs for b in h['bounds']], 'harnesses': {h['name']: {'modules': h['modules'], 'options': h[tier], 'engine': h['engine']} for h in w.hs},
              'functions_encoded_count': len(funcs), 'functions_encoded': sorted(f for f in funcs if 'GC_namespace' in f or not f.startswith('std::'))[:400],
              'witnesses': covers, 'witnesses_missing': missing,
              'incomplete': {'unsupported': {k: v for r in res.values() for k, v in r.get('unsupported_what', {}).items()}, 'unexplored_states': tot('unexplored'), 'step_bound_hits': tot('step_bound_hits'), 'unknown_branches': tot('unknown_branch'), 'unknown_asserts': tot('unknown_assert'), 'crashed_pieces': [f'{k}: {r["crash"]}' for k, r in res.items() if 'crash' in r]},
              'unconfirmed_counterexamples': unconf, 'sample_replay_mismatches': mism, 'native_build_errors': natbad[:3], 'known_findings_seen': sorted(knownhit)},
          'assumptions': ['compiled by clang 18 -O1 to LLVM IR, x86-64 data layout; libstdc++ containers/strings/algorithms are the real headers',
                          'stream classes (ostream/istream/sstream/iomanip), <regex>, exception classes and the out-of-line part of libstdc++ are the models in engine/shim and engine/models.cc; files never open',
                          'memory allocation fails only for requests above 64 KiB of symbolic size or 64 MiB'] + [s for h in w.hs for s in h['stubs']]}
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    c = ev['coverage']
    print(f"{prop} [{tier}] paths={c['symbolic_paths_completed']} asserts={c['assertions_evaluated']} (solver {c['assertions_decided_by_solver']}) queries={c['queries']} solver={c['solver_s']}s exhaustive={complete} validated={validated} wall={ev['wall_s']}s")
    for k, v in c['incomplete'].items():
        if v: print('  incomplete:', k, json.dumps(v)[:1500])
    for m in missing: print('  witness not reached:', m)
    for m in mism[:6]: print('  sample mismatch:', json.dumps(m)[:700])
    for u in unconf[:8]: print('  unconfirmed:', json.dumps(u)[:900])
    for n in natbad[:2]: print('  native build:', n[:1500])
    for k in sorted(knownhit): print(f"KNOWN-FINDING: property={prop} {k}: {knownhit[k]['what']}")
    for text, d, rp in viol:
        print(f'  {text}\n    native: {d}')
        print(f'VIOLATION property={prop} replay={rp}')
    return 1 if viol else 0

if __name__ == '__main__':
    try: rc = main()
    except Exception as e:
        import traceback; traceback.print_exc(); rc = 2
    sys.exit(rc)
