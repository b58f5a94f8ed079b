import os,sys,time
os.environ['NUMBA_DISABLE_JIT']='1'
sys.path.insert(0,'/verif'); sys.path.insert(0,os.environ.get('VERIF_REPO','/repo'))
import warnings; warnings.filterwarnings("ignore")
import vectorbt
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import importlib, multiprocessing as mp
from pyvc import run
importlib.import_module('monitors.'+sys.argv[1])
def go(a):
    m,k=a; t=time.time(); p=m.props[0]
    r=run.concrete_task(("monitor",m.name,k,max(1,int(m.trials*float(os.environ.get('X','1')))),p,time.time()+float(os.environ.get('T','120'))))
    return m.name,k,time.time()-t,r
if __name__=='__main__':
    seen={}
    for p,ms in run.MONITORS.items():
        for m in ms:
            if len(sys.argv)<3 or m.name.split('.')[1] in sys.argv[2:]: seen[m.name]=m
    with mp.Pool(8) as pool:
        for n,k,t,r in pool.imap_unordered(go,[(m,k) for m in seen.values() for k in range(int(os.environ.get('K','2')))]):
            print(n,k,'used',r['used'],'fails',len(r['fails']),r.get('error') or '','%.1fs'%t)
            for f in r['fails'][:int(os.environ.get('F','1'))]: print('   ',str(f)[:int(os.environ.get('L','1500'))])
