import sys, shutil, importlib
sys.path.insert(0,'/tmp/plant')
import lib
from concurrent.futures import ThreadPoolExecutor
mods=sys.argv[1].split(',')
only=sys.argv[2].split(',') if len(sys.argv)>2 and sys.argv[2] else None
for m in mods: importlib.import_module(m)
base='/tmp/base'
shutil.rmtree(base,ignore_errors=True); lib.sh(f'cp -a /repo {base}')
bugs=[b for b in lib.BUGS if not only or b['id'] in only]
good=[]
def prep(b):
    e=lib.make(b,base)
    if not e: e=lib.verify(b,base)
    return e
with ThreadPoolExecutor(4) as ex:
    for b,e in zip(bugs,ex.map(prep,bugs)):
        if e: print('REJECT',b['id'],e); shutil.rmtree('/tmp/wt.'+b['id'],ignore_errors=True); shutil.rmtree(lib.SEEDED+'/'+b['id'],ignore_errors=True)
        else: good.append(b); print('kept',b['id'],flush=True)
for b in good:
    r=lib.check(b)
    p=b['prop']; rc,nv,o=r[p]
    print('CAUGHT' if rc==1 and nv else 'MISSED',b['id'],rc,nv,o,flush=True)
    shutil.rmtree('/tmp/wt.'+b['id'],ignore_errors=True)
