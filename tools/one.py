"""Development aid: one case with a memory limit. one.py FILE CASE 'Unit kwargs'"""
import sys
sys.path[:0]=['/verif/engine','/verif'];sys.setrecursionlimit(20000)
import driver,symex,tempfile,os,time,resource
u=eval('driver.Unit(%r, %s)' % (sys.argv[1], sys.argv[3]))
w=tempfile.mkdtemp();e=driver.compile_ir(u,w)
if e: print(e); sys.exit(1)
resource.setrlimit(resource.RLIMIT_AS,(8<<30,8<<30))
t=time.time()
en=symex.Engine(os.path.join(w,u.key+'.bc'),ub=u.ub,uninit=u.uninit,deadline=time.time()+float(os.environ.get('T','60')))
try: en.run_case(sys.argv[2])
except BaseException as x:
    print(type(x),str(x)[:300])
    if not isinstance(x,symex.Unsupported): import traceback; traceback.print_exc(limit=-5)
print(round(time.time()-t,1),vars(en.stats))
for x in en.where()[:12]: print(x)
for v in en.violations: print(v['msg'],v['where'][:4],[i[2] for i in v['inputs']][:20])
