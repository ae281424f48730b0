"""Compiles harnesses against /repo's current tree, runs the symbolic executor on every case,
replays counterexamples natively, compares sampled paths with native runs, writes evidence."""
import concurrent.futures as cf
import hashlib, json, multiprocessing as mp, os, random, re, shutil, subprocess, sys, tempfile, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin/'
CLANGXX = LLVM + 'clang++'
OPT = LLVM + 'opt'
GXX = 'g++-11' if shutil.which('g++-11') else 'g++'
NPROC = min(8, os.cpu_count() or 4)

PLATFORM = {
    'def': [],
    'le2c': ['-DUPD_PLATFORM_ENDIANESS=LITTLE', '-DUPD_PLATFORM_SIGNED_MODE=TWOS_COMPLEMENT'],
    'le': ['-DUPD_PLATFORM_ENDIANESS=LITTLE'],
    '2c': ['-DUPD_PLATFORM_SIGNED_MODE=TWOS_COMPLEMENT'],
    'be': ['-DUPD_PLATFORM_ENDIANESS=BIG'],
    'be2c': ['-DUPD_PLATFORM_ENDIANESS=BIG', '-DUPD_PLATFORM_SIGNED_MODE=TWOS_COMPLEMENT'],
}
UBSAN = ['-fsanitize=bool,enum,return,unreachable,bounds,builtin,pointer-overflow,integer-divide-by-zero',
         '-fsanitize-trap=all']
BE_TARGET = ['-target', 'powerpc64-unknown-linux-gnu', '-D__x86_64__', '-nostdinc++', '-isystem', '/usr/include/c++/13',
             '-isystem', '/usr/include/x86_64-linux-gnu/c++/13', '-isystem', '/usr/include/x86_64-linux-gnu']


class Unit:
    """One harness file compiled in one configuration."""
    def __init__(self, file, std='c++17', plat='def', defs=(), ub=False, uninit=False, target='host', flags=(),
                 match=None, native=True, budget=None, optional=False):
        self.file, self.std, self.plat, self.defs, self.ub, self.uninit = file, std, plat, tuple(defs), ub, uninit
        self.target, self.flags, self.match, self.native = target, tuple(flags), match, native
        self.budget = budget
        self.optional = optional
        self.name = '%s[%s,%s%s%s%s%s]' % (os.path.splitext(file)[0], std, plat, ',be-host' if target == 'be' else '',
                                         ',ub' if ub else '', ',uninit' if uninit else '',
                                         ''.join(',' + d for d in self.defs))
        self.key = hashlib.sha1((self.name + ' '.join(self.flags)).encode()).hexdigest()[:12]

    def common(self):
        return (['-std=' + self.std, '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(ROOT, 'harness')] +
                PLATFORM[self.plat] + ['-D' + d for d in self.defs] + list(self.flags))

    srcfile = partial = None

    def src(self):
        return self.srcfile or os.path.join(ROOT, 'harness', self.file)

    def prune(self, errors, work):
        """Leave out the cases the compiler's messages point at: the others can still be decided."""
        path = self.src()
        lines = open(path).read().split('\n')
        bad = set()
        for m in re.finditer(r'^%s:(\d+):' % re.escape(path), errors, re.M):
            i = int(m.group(1)) - 1
            if re.match(r'VP_CASE\(\w+\) \{.*\}\s*$', lines[i]): bad.add(i)
        for i in bad: lines[i] = ''
        if bad:
            self.srcfile = os.path.join(work, self.key + '.src.cpp')
            with open(self.srcfile, 'w') as f: f.write('\n'.join(lines))
        return len(bad)

def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)

def compile_ir(u, work):
    bc0 = os.path.join(work, u.key + '.0.bc'); bc = os.path.join(work, u.key + '.bc')
    cmd = [CLANGXX] + (BE_TARGET if u.target == 'be' else []) + u.common() + \
          ['-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only', '-w', '-ftemplate-depth=4000', '-fbracket-depth=4000',
           '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-threadsafe-statics'] + (UBSAN if u.ub else []) + ['-emit-llvm', '-c', u.src(), '-o', bc0]
    p = sh(cmd)
    failed = None
    if p.returncode: failed = 'compilation to IR failed:\n' + ' '.join(cmd) + '\n' + p.stdout.decode(errors='replace')[-3000:]
    for _ in range(3 if failed and not u.optional else 0):
        if not u.prune(sh(cmd + ['-ferror-limit=0', '-ftemplate-backtrace-limit=0']).stdout.decode(errors='replace'), work): break
        cmd[cmd.index('-c') + 1] = u.src()
        p = sh(cmd)
        if not p.returncode: break
    if p.returncode: return failed
    p = sh([OPT, '-passes=mem2reg', bc0, '-o', bc])
    if p.returncode: return 'opt failed: ' + p.stdout.decode(errors='replace')[-2000:]
    os.unlink(bc0)
    u.partial = failed
    return None

def native_main(u, cases, work):
    path = os.path.join(work, u.key + '.main.cpp')
    with open(path, 'w') as f:
        f.write('#include <cstring>\n#include <cstdlib>\n')
        for c in cases: f.write('extern "C" void vp_case_%s();\n' % c)
        f.write('extern "C" void vp_main(const char *n) {\n')
        for c in cases: f.write('  if (!std::strcmp(n, "%s")) return vp_case_%s();\n' % (c, c))
        f.write('  std::exit(91);\n}\n')
    return path

def build_native(u, cases, work, kind):
    """kind: plain (g++-11 -O1), asan (g++-11 address+undefined), msan (clang memory)"""
    out = os.path.join(work, '%s.%s' % (u.key, kind))
    if os.path.exists(out): return out, None
    main = native_main(u, cases, work)
    wrap = ['-Wl,--wrap=malloc', '-Wl,--wrap=free']
    cc = [GXX]
    # the test suite's compiler; its optimiser is off where sanitizers look for undefined behaviour
    fl = {'plain': ['-O1'],
          'asan': ['-O0', '-g', '-fsanitize=address', '-fno-omit-frame-pointer'] +
                  (['-fsanitize=undefined', '-fno-sanitize=vptr,null', '-fno-sanitize-recover=all'] if u.ub else []),
          'csan': ['-O0', '-g', '-fsanitize=address', '-fno-omit-frame-pointer'] +
                  (['-fsanitize=undefined', '-fno-sanitize=vptr,null,function', '-fno-sanitize-recover=all'] if u.ub else []),
          'msan': ['-O0', '-g', '-fsanitize=memory', '-fno-omit-frame-pointer', '-fsanitize-memory-track-origins']}[kind]
    if kind in ('msan', 'csan'): cc = [CLANGXX]
    if kind == 'msan': wrap += ['-Wl,--wrap=' + x for x in ['_Znwm', '_Znam', '_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm']]
    cmd = cc + u.common() + ['-w', '-ftemplate-depth=4000'] + (['-fbracket-depth=4000'] if kind in ('msan', 'csan') else []) + fl + wrap + \
        [u.src(), main, os.path.join(ROOT, 'engine', 'vp_native.cpp'), '-o', out + '.tmp']
    p = sh(cmd)
    if p.returncode: return None, 'native build failed:\n' + ' '.join(cmd) + '\n' + p.stdout.decode(errors='replace')[-3000:]
    os.rename(out + '.tmp', out)
    return out, None

def run_native(binary, case, inputs, work, timeout=20):
    fd, path = tempfile.mkstemp(dir=work)
    with os.fdopen(fd, 'w') as f: f.write('\n'.join(str(x) for x in inputs) + '\n')
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0:exitcode=98',
               UBSAN_OPTIONS='print_stacktrace=0:exitcode=97', MSAN_OPTIONS='exitcode=96')
    try:
        p = subprocess.run([binary, case, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    finally:
        os.unlink(path)

# ---------------------------------------------------------------- worker
# when the first violation was found, 0 if none was: the tasks still under way then have GRACE seconds left
FOUND = mp.Value('d', 0.0)
GRACE = 30

def run_task(args):
    (path, uname, case, ub, uninit, seed, budget, ntraces, ndump, ends) = args
    t = time.time()
    res = dict(unit=uname, case=case, violations=[], error=None, covers={}, stats={}, traces=[], executed=[], dump=[])
    try:
        sys.setrecursionlimit(20000)
        import symex, z3
        symex.Engine.symvars = {}
        if ends: budget = max(5, min(budget, ends[0] - t))
        e = symex.Engine(path, ub=ub, uninit=uninit, deadline=t + budget, seed=seed)
        if ends: e.stop = lambda: 0 < FOUND.value < time.time() - GRACE
        if ndump: e.dump = []
        try:
            e.run_case(case)
        except symex.Unsupported as x:
            res['error'] = 'unsupported: %s at %s' % (x, e.where()[:3])
            # undecided, but a violation may still be found
            if not e.violations and 'elsewhere' not in str(x):
                n = e.hunt_case(case, min(time.time() + 90, ends[1]) if ends else time.time() + 90)
                res['error'] += ' (and no violation on %d paths drawn at random)' % n
        if e.incomplete and not e.violations and not res['error']: res['error'] = 'unsupported: too many values for a symbolic address'
        if e.violations and ends and not FOUND.value: FOUND.value = time.time()
        res['violations'] = e.violations
        res['covers'] = e.covers
        res['stats'] = dict(vars(e.stats))
        res['completed'] = len(e.paths_done)
        if not e.violations: res['traces'] = e.traces(ntraces)
        res['executed'] = [(n, e.fns[n].file) for n in e.executed]
        if ndump:
            rng = random.Random(seed)
            d = e.dump if len(e.dump) <= ndump else rng.sample(e.dump, ndump)
            for conj, sat in d:
                s = z3.Solver(); s.add(*conj)
                res['dump'].append(('(set-logic QF_BV)\n' + s.to_smt2(), sat))
    except Exception:
        res['error'] = 'internal error: ' + traceback.format_exc()[-1500:]
    res['wall'] = time.time() - t
    return res

def list_cases(path):
    """Cases of a module and the names of its cover points."""
    import ctypes
    import ir
    import llvmc as L
    m = ir.Module(path)
    cases = sorted(n[8:] for n, f in m.functions.items() if n.startswith('vp_case_') and not L.LLVMIsDeclaration(f))
    covers = set()
    f = m.functions.get('vp_cover')
    u = L.LLVMGetFirstUse(f) if f else None
    while u:
        i = L.LLVMGetInitializer(L.LLVMGetOperand(L.LLVMGetUser(u), 0))
        if i and L.LLVMIsConstantString(i):
            n = ctypes.c_size_t()
            covers.add(ctypes.string_at(L.LLVMGetAsString(i, ctypes.byref(n)), n.value).rstrip(b'\0').decode())
        u = L.LLVMGetNextUse(u)
    return cases, covers

# ---------------------------------------------------------------- a whole check
def load_known():
    p = os.path.join(ROOT, 'KNOWN_FINDINGS.json')
    if not os.path.exists(p): return []
    return json.load(open(p)).get('findings', [])

def check(pid, units, tier, seed, description, assumptions, budget=300, ntraces=3, ndump=0, extra=None, level='model_checking'):
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='vp-%s-' % pid)
    try:
        return _check(pid, units, tier, seed, description, assumptions, budget, ntraces, ndump, work, t0, extra, level)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def _check(pid, units, tier, seed, description, assumptions, budget, ntraces, ndump, work, t0, extra, level):
    evdir = os.path.join(ROOT, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    # workers are forked before any thread exists (forking a threaded process can deadlock)
    pool = cf.ProcessPoolExecutor(NPROC, mp_context=mp.get_context('fork'))
    for f in [pool.submit(os.getpid) for _ in range(NPROC)]: f.result()
    errors = []
    results = []
    skipped = []
    try:
        with cf.ThreadPoolExecutor(NPROC) as tp:
            cerr = list(tp.map(lambda u: compile_ir(u, work), units))
        for u, e in zip(units, cerr):
            if e and u.optional: skipped.append(u.name)
            elif e or u.partial: errors.append('%s: %s' % (u.name, e or u.partial))
        good = [u for u, e in zip(units, cerr) if not e]
        cases = {}
        wanted = {}
        tasks = []
        # a quick check has 900 s at most: to decide, then to look for violations where that was too long, then to replay them
        ends = (t0 + 480, t0 + 700) if tier == 'quick' and not any(k.get('property') == pid and not k.get('fixed') for k in load_known()) else None
        byname = {u.name: u for u in units}
        for u in good:
            cs, cv = list_cases(os.path.join(work, u.key + '.bc'))
            wanted.setdefault(u.file, set()).update(cv)
            cases[u.name] = cs
            sel = [c for c in cs if u.match is None or re.search(u.match, c)]
            if not sel: errors.append('%s: no case' % u.name)
            for c in sel:
                tasks.append((os.path.join(work, u.key + '.bc'), u.name, c, u.ub, u.uninit, seed, u.budget or budget, ntraces, ndump, ends))
        t1 = time.time()
        # native binaries for the comparison of sampled paths are built while the solver works
        tpool = cf.ThreadPoolExecutor(3)
        natf = {u.name: tpool.submit(build_native, u, cases[u.name], work, 'plain')
                for u in (lambda l: l if tier == 'thorough' or len(l) <= 3 else random.Random(seed).sample(l, 3))([u for u in good if u.native and u.target == 'host'])}
        for r in pool.map(run_task, tasks):
            results.append(r)
    finally:
        pool.shutdown(wait=True, cancel_futures=True)
    t2 = time.time()
    # ---- totals
    tot = {}
    for r in results:
        for k, v in r['stats'].items(): tot[k] = tot.get(k, 0) + v
        if r['error']: errors.append('%s %s: %s' % (r['unit'], r['case'], r['error']))
        elif not r['violations'] and not r.get('completed'):
            errors.append('%s %s: vacuous, no path reaches the end' % (r['unit'], r['case']))
    # ---- violations: replay
    known = [k for k in load_known() if k.get('property') == pid and not k.get('fixed')]
    viol, kfs = [], []
    nviol = 0
    for r in results:
        u = byname[r['unit']]
        for v in r['violations']:
            nviol += 1
            kf = next((k for k in known if re.fullmatch(k['unit'], r['unit']) and re.fullmatch(k['case'], r['case'])
                       and re.search(k['msg'], v['msg'])), None)
            if kf:
                if kf not in kfs: kfs.append(kf)
                continue
            viol.append((u, r['case'], v))
    reported = []
    unrepro = []
    seen = set()
    for u, case, v in viol:
        key = (case, v['msg'])
        if key in seen: continue
        if len(reported) >= 3 or (reported and time.time() > t0 + 780): break
        seen.add(key)
        ins = [x[2] for x in v['inputs']]
        rep = None
        if u.target != 'host':
            rep = dict(kind='model', output='IR compiled for a big-endian target: no such machine here; solver model only')
        else:
            kinds = {'uninit': ['msan', 'asan'], 'memory': ['asan', 'csan'], 'ub': ['asan', 'csan']}.get(v['kind'], ['plain', 'csan', 'asan', 'msan'])
            for kind in kinds:
                b, err = build_native(u, cases[u.name], work, kind)
                if err: continue
                rc, out = run_native(b, case, ins, work)
                if rc not in (0, 77, 78, 90, 91):
                    rep = dict(kind=kind, rc=rc, output=out[-3000:])
                    break
        rec = dict(property=pid, unit=u.name, harness='harness/' + u.file, case=case, violation=v['kind'], message=v['msg'],
                   inputs=v['inputs'], where=v['where'], replay=rep, flags=u.common())
        if rep is None:
            unrepro.append(rec)
            continue
        path = os.path.join(evdir, '%s-violation-%d.json' % (pid, len(reported)))
        json.dump(rec, open(path, 'w'), indent=1, default=str)
        reported.append((rec, path))
    # ---- comparison of sampled paths with the real build
    validated = 0
    mismatches = []
    samples = []
    if not viol:
        jobs = []
        for r in results:
            f = natf.get(r['unit'])
            if not f: continue
            for t in r['traces']: jobs.append((r['unit'], f, t))
        limit = 400 if tier == 'thorough' else 120
        random.Random(seed).shuffle(jobs)
        jobs = jobs[:limit]
        def one(j):
            un, f, (case, ins, log) = j
            b, err = f.result()
            if err: return ('err', un, err)
            rc, out = run_native(b, case, ins, work)
            got = [int(x.split()[1]) for x in out.splitlines() if x.startswith('LOG ')]
            if rc == 77: return ('skip', un, '')
            ok = rc == 0 and got == log
            return ('ok' if ok else 'bad', un, (case, ins, log, rc, got, out[-500:]))
        with cf.ThreadPoolExecutor(NPROC) as tp:
            for k, un, info in tp.map(one, jobs):
                if k == 'err': errors.append('%s: %s' % (un, info))
                elif k == 'bad': mismatches.append((un, info))
                elif k == 'ok':
                    validated += 1
                    if len(samples) < 8: samples.append(dict(unit=un, case=info[0], inputs=info[1][:40], observations=info[2][:40]))
    tpool.shutdown(wait=True, cancel_futures=True)
    for un, info in mismatches[:3]:
        errors.append('encoding disagrees with the real build: %s case %s inputs %s expected %s rc %s got %s %s' % ((un,) + tuple(info)))
    # ---- vacuity: every cover point of every harness file used
    covers = {}
    for r in results:
        f = byname[r['unit']].file
        for k, v in r['covers'].items(): covers.setdefault(f, {}); covers[f][k] = covers[f].get(k, 0) + v
    missing = []
    for f in sorted(set(u.file for u in good)):
        if all(u.match for u in units if u.file == f): continue
        missing += [f + ':' + w for w in wanted.get(f, set()) - set(covers.get(f, {}))]
    if missing and not viol: errors.append('cover points never reached: ' + ', '.join(sorted(missing)))
    # ---- cross-check of a sample of queries with cvc5
    cross = dict(queries=0, agree=0, disagree=0, unknown=0)
    if ndump and not viol:
        qs = [d for r in results for d in r['dump']]
        random.Random(seed).shuffle(qs)
        qs = qs[:200]
        def cv(q):
            fd, p = tempfile.mkstemp(suffix='.smt2', dir=work)
            with os.fdopen(fd, 'w') as f: f.write(q[0])
            try:
                o = sh(['cvc5', '--tlimit=20000', p], timeout=40).stdout.decode().strip()
            except subprocess.TimeoutExpired:
                o = 'unknown'
            return o.splitlines()[0] if o else 'unknown', q[1]
        with cf.ThreadPoolExecutor(NPROC) as tp:
            for o, sat in tp.map(cv, qs):
                cross['queries'] += 1
                if o == ('sat' if sat else 'unsat'): cross['agree'] += 1
                elif o in ('sat', 'unsat'): cross['disagree'] += 1; errors.append('cvc5 and z3 disagree on a query')
                else: cross['unknown'] += 1
    repofns = set()
    for r in results:
        for n, f in r['executed']:
            if f.startswith(os.path.join(REPO, '')): repofns.add((n, os.path.relpath(f, REPO)))
    names = sorted(repofns)
    dem = sh(['c++filt'], input='\n'.join(n for n, _ in names).encode()).stdout.decode().splitlines() if names else []
    def short(s):
        return s if len(s) < 160 else s[:157] + '...'
    base = set()
    for (n, f), d in zip(names, dem):
        m = re.search(r'((?:upd::)[\w:~]*(?:operator[^(<]{1,3})?[\w~]*)', re.sub(r'<.*', '', d) or d)
        base.add(f + ': ' + short(re.sub(r'\(.*', '', re.sub(r'<.*?>', '<>', d))))
    ev = dict(property=pid, tier=tier, seed=seed, level=level, wall_s=round(time.time() - t0, 2), violations=len(reported),
              assumptions=assumptions,
              coverage=dict(states=tot.get('paths', 0), transitions=tot.get('instrs', 0), traces_validated_against_impl=validated,
                            samples=samples or [dict(note='no trace sampled')],
                            description=description, units=[u.name for u in units], cases=len(tasks),
                            assertions_checked=tot.get('asserts', 0), assertions_closed_by_simplification=tot.get('asserts_structural', 0),
                            solver_queries=tot.get('queries', 0), solver_queries_cached=tot.get('queries_cached', 0),
                            solver_seconds=round(tot.get('solver_s', 0), 2), symbolic_branches=tot.get('branches', 0), forks=tot.get('forks', 0),
                            merges=tot.get('merges', 0), memory_bytes_bounds_checked=tot.get('bytes_checked', 0),
                            repo_functions_encoded=len(names), functions=sorted(base)[:400],
                            cover_points={f + ':' + k: v for f, d in covers.items() for k, v in d.items()},
                            cross_solver=cross if ndump else None, slowest=sorted(((round(r['wall'], 2), r['unit'], r['case']) for r in results), reverse=True)[:5]))
    ev['coverage'].update(seconds_compiling=round(t1 - t0, 1), seconds_deciding=round(t2 - t1, 1),
                          seconds_deciding_all_workers=round(sum(r['wall'] for r in results), 1))
    if skipped: ev['coverage']['units_left_out'] = skipped
    if extra: ev['coverage'].update(extra)
    json.dump(ev, open(os.path.join(evdir, pid + '.json'), 'w'), indent=1, default=str)
    for k in kfs: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for rec, path in reported:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  %s, case %s: %s' % (rec['unit'], rec['case'], rec['message']))
        print('  inputs: %s' % [(x[2]) for x in rec['inputs']][:60])
        print('  at: %s' % ('; '.join('%s' % w[1] for w in rec['where'][:4])))
    print('%s %s: %d cases, %d paths, %d instructions, %d assertions, %d queries (%.1f s), %d traces validated, %.1f s' %
          (pid, tier, len(tasks), tot.get('paths', 0), tot.get('instrs', 0), tot.get('asserts', 0), tot.get('queries', 0),
           tot.get('solver_s', 0), validated, time.time() - t0))
    if reported: return 1
    for rec in unrepro:
        print('NOT REPRODUCED: %s case %s: %s inputs %s at %s' % (rec['unit'], rec['case'], rec['message'], [x[2] for x in rec['inputs']][:60], rec['where'][:4]))
    for e in errors[:12]: print('ERROR: ' + e[:1500])
    if len(errors) > 12: print('... and %d more errors' % (len(errors) - 12))
    if errors or unrepro: return 2
    return 0
