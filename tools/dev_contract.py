# try4.py mod func prop : proofs + concrete
import os,sys,time
os.environ['NUMBA_DISABLE_JIT']='1'
sys.path.insert(0,'/verif'); sys.path.insert(0,os.environ.get('VERIF_REPO','/repo'))
import warnings; warnings.filterwarnings("ignore")
import vectorbt
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import importlib, multiprocessing as mp
from pyvc import run
from pyvc.contract import REGISTRY
importlib.import_module('contracts.'+sys.argv[1])
prop=sys.argv[2]; funcs=sys.argv[3:]
def go(t):
    return t, (run.proof_task if t[0] is None else run.concrete_task)(t[1])
if __name__=='__main__':
    tasks=[]
    for n,c in REGISTRY.items():
        if funcs and n.split(':')[1] not in funcs: continue
        if not funcs and prop not in c.props: continue
        if c.module!='lemma' and c.check_concrete:
            tasks.append((1,("contract",n,int(os.environ.get('SEED','1')),int(os.environ.get('N',c.trials)),prop,time.time()+60)))
        if os.environ.get('NOPROOF'): continue
        for case in ([i for i in range(len(c.cases)) if os.environ.get('CASE','') in c.cases[i][0]] if c.cases else [None]): tasks.append((None,(n,case,prop,float(os.environ.get('B','200')),float(os.environ.get('SB','200')),int(os.environ.get('TO','5000')))))
    with mp.Pool(8) as p:
        for t,r in p.imap_unordered(go,tasks,chunksize=1):
            if t[0] is None:
                print("PROOF",r['name'].split(':')[1],r['case'],'%d/%d'%(r['discharged'],r['obligations']),'triv',r['trivial'],'paths',r.get('paths'),r.get('ended'),'gen %.1f wall %.1f'%(r.get('gen_s',0),r.get('wall_s',0)),r['errors'] or '',r.get('reached') or '',r.get('inlined') or '',flush=True)
                for f in r['fails']:
                    print("    FAIL",f['label'],f['kind'],f['count'],f['status'],'REPLAY' if f['replay'] else '')
                    if os.environ.get('V'): print("       goal",f.get('goal'),"\n      model",f.get('model'),'\n     replay',f['replay'])
            else:
                print("CONC ",r['name'].split(':')[1],'used',r['used'],'tried',r['tried'],'fails',len(r['fails']),r.get('error') or '',flush=True)
                for f in r['fails'][:3]: print("    ",str(f)[:1500])
