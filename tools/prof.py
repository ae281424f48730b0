"""Development aid: run one case of one unit under a profiler."""
import sys, os, tempfile, time, cProfile, pstats
sys.path[:0] = ['/verif/engine', '/verif']
sys.setrecursionlimit(20000)
import driver, registry, symex
pid, case = sys.argv[1:3]
pat = sys.argv[3] if len(sys.argv) > 3 else ''
tier = os.environ.get('TIER', 'quick')
u = [u for u in registry.SPECS[pid]['units'](tier) if pat in u.name][0]
w = tempfile.mkdtemp()
e = driver.compile_ir(u, w)
assert not e, e
en = symex.Engine(os.path.join(w, u.key + '.bc'), ub=u.ub, uninit=u.uninit, deadline=time.time() + float(os.environ.get('T', '60')))
pr = cProfile.Profile(); pr.enable()
try: en.run_case(case)
except Exception as x: print('EXC', type(x), x, en.where()[:5])
pr.disable()
print(u.name, vars(en.stats))
for v in en.violations: print(v['msg'], v['where'][:4], v['inputs'][:20])
pstats.Stats(pr).sort_stats(os.environ.get('S', 'cumtime')).print_stats(35)
