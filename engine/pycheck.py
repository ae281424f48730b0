"""Runs CrossHair (symbolic execution of Python over z3) on every condition of a harness, replays counterexamples."""
import ast, concurrent.futures as cf, json, os, re, subprocess, sys, time

from driver import ROOT, REPO, NPROC, load_known

def conditions(path):
    tree = ast.parse(open(path).read())
    return [f for f in tree.body if isinstance(f, ast.FunctionDef) and 'post:' in (ast.get_docstring(f) or '')]

def replay(path, call, env):
    """Runs one call against the real code, without CrossHair."""
    code = ('import importlib.util, sys\n'
            's = importlib.util.spec_from_file_location("h", sys.argv[1]); h = importlib.util.module_from_spec(s); s.loader.exec_module(h)\n'
            'ok = eval(sys.argv[2], dict(vars(h)))\nprint("RESULT", ok)\nsys.exit(0 if ok else 66)\n')
    try:
        p = subprocess.run([sys.executable, '-c', code, path, call], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env=env)
        return p.returncode, p.stdout.decode(errors='replace')[-2000:]
    except subprocess.TimeoutExpired:
        return 'timeout', ''

def check(pid, file, target, tier, seed, description, assumptions, defs, timeout):
    t0 = time.time()
    path = os.path.join(ROOT, 'harness', file)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', VP_REPO=REPO, PYTHONHASHSEED=str(seed), **defs)
    evdir = os.path.join(ROOT, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    fns = conditions(path)
    def one(f):
        t = time.time()
        cmd = ['crosshair', 'check', '%s:%d' % (path, f.lineno), '--report_all', '--analysis_kind', 'PEP316',
               '--per_condition_timeout', str(timeout), '--per_path_timeout', '20']
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=3 * timeout + 60, env=env)
            out = p.stdout.decode(errors='replace')
        except subprocess.TimeoutExpired:
            out = 'info: Not confirmed.'
        return f.name, out, time.time() - t
    with cf.ThreadPoolExecutor(NPROC) as tp:
        res = list(tp.map(one, fns))
    errors, reported, unrepro, confirmed, partial = [], [], [], [], []
    known = [k for k in load_known() if k.get('property') == pid and not k.get('fixed')]
    for name, out, wall in res:
        bad = [l for l in out.splitlines() if ': error:' in l]
        if bad:
            m = re.search(r'when calling (%s\(.*?\))(?: with crosshair| \(which returns|$)' % name, bad[0])
            call = m.group(1) if m else None
            rec = dict(property=pid, harness='harness/' + file, case=name, message=bad[0].split(': error:', 1)[1].strip(), call=call, defs=defs)
            if call is None: errors.append('%s: %s' % (name, bad[0])); continue
            rc, o = replay(path, call, env)
            rec['replay'] = dict(rc=rc, output=o)
            if rc == 0: unrepro.append(rec); continue
            if any(re.fullmatch(k['case'], name) and re.search(k['msg'], rec['message']) for k in known): continue
            p = os.path.join(evdir, '%s-violation-%d.json' % (pid, len(reported)))
            json.dump(rec, open(p, 'w'), indent=1)
            reported.append((rec, p))
        elif 'Confirmed over all paths' in out: confirmed.append(name)
        elif 'Not confirmed' in out: partial.append(name)
        else: errors.append('%s: no verdict: %s' % (name, out[-800:]))
    if not confirmed and not reported: errors.append('no condition is confirmed')
    src = open(os.path.join(REPO, target)).read()
    functions = ['%s: %s' % (target, n.name) for n in ast.walk(ast.parse(src)) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(reported), assumptions=assumptions,
              coverage=dict(states=len(fns), transitions=len(fns), traces_validated_against_impl=len(confirmed),
                            samples=[dict(condition=n, verdict=o.split(':', 2)[-1].strip()[:200], seconds=round(w, 1)) for n, o, w in res][:8],
                            description=description, conditions_confirmed_over_all_paths=confirmed, conditions_without_counterexample_only=partial,
                            functions=functions, bounds=defs, engine='CrossHair (z3)', seconds_deciding_all_workers=round(sum(w for _, _, w in res), 1)))
    json.dump(ev, open(os.path.join(evdir, pid + '.json'), 'w'), indent=1)
    for k in known: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for rec, p in reported:
        print('VIOLATION property=%s replay=%s' % (pid, p))
        print('  %s' % rec['message'])
    print('%s %s: %d conditions, %d confirmed over all paths, %d without counterexample, %.1f s' % (pid, tier, len(fns), len(confirmed), len(partial), time.time() - t0))
    if reported: return 1
    for rec in unrepro: print('NOT REPRODUCED: %s' % rec['message'])
    for e in errors: print('ERROR: ' + e[:1500])
    return 2 if errors or unrepro else 0
