import sys, os, pickle, unittest, importlib, hashlib, traceback
import numpy as np
os.environ.update(TESTFLO_RUNNING='1',OPENMDAO_REPORTS='0',MPLBACKEND='Agg')
import openmdao.api as om
from openmdao.core.component import Component
from openmdao.core.problem import Problem
seen={}
def enc(v):
    from aviary.utils.aviary_values import AviaryValues
    from enum import Enum
    from pathlib import Path
    if isinstance(v,Enum): return {'__e':[type(v).__name__, v.name]}
    if isinstance(v,np.ndarray): return {'__a':v.tolist() if v.dtype!=object else [enc(x) for x in v.tolist()],'d':str(v.dtype),'s':list(v.shape)}
    if isinstance(v,(bool,np.bool_)): return bool(v)
    if isinstance(v,np.integer): return int(v)
    if isinstance(v,np.floating): return float(v)
    if v is None or isinstance(v,(int,float,str)): return v
    if isinstance(v,tuple): return {'__t':[enc(x) for x in v]}
    if isinstance(v,list): return [enc(x) for x in v]
    if isinstance(v,dict): return {'__d':[[enc(a),enc(b)] for a,b in v.items()]}
    if isinstance(v,Path): return {'__p':str(v)}
    if isinstance(v,AviaryValues): return {'__av':[[n,enc(x),u] for n,(x,u) in v]}
    return {'__x':str(type(v))}
def harvest(prob):
    for s in prob.model.system_iter(include_self=True,recurse=True,typ=Component):
        m=type(s).__module__
        if not m.startswith('aviary.'): continue
        try:
            opts={k:s.options._dict[k]['val'] if 'val' in s.options._dict[k] else s.options[k] for k in s.options}
        except Exception:
            opts={}
            for k in s.options:
                try: opts[k]=s.options[k]
                except Exception: opts[k]=None
        base={'always_opt','distributed','run_root_only','use_jit','derivs_method','default_shape','assembled_jac_type','auto_order'}
        rec={'cls':type(s).__name__,'mod':m,'opts':{k:enc(v) for k,v in opts.items() if k not in base}}
        ins={}
        vals={}
        try:
            inp=s._inputs; 
            for n in s._var_rel2meta['input'] if False else s._var_rel_names['input']:
                md=s._var_rel2meta[n] if n in s._var_rel2meta else {}
                if n in s._var_discrete['input']:
                    ins[n]={'disc':enc(s._var_discrete['input'][n]['val'])}
                    continue
                v=inp[n] if inp is not None else md['val']
                ins[n]={'v':np.array(v,dtype=float).tolist(),'u':md.get('units')}
        except Exception as e:
            rec['err']=repr(e)
        rec['ins']=ins
        key=hashlib.md5(repr((rec['cls'],rec['opts'],sorted((k,np.shape(v.get('v'))) for k,v in ins.items()))).encode()).hexdigest()
        L=seen.setdefault(key,[])
        if len(L)<3: L.append(rec)
orig=Problem.run_model
def rm(self,*a,**k):
    r=orig(self,*a,**k)
    try: harvest(self)
    except Exception: traceback.print_exc()
    return r
Problem.run_model=rm
orig2=Problem.run_driver
def rd(self,*a,**k):
    r=orig2(self,*a,**k)
    try: harvest(self)
    except Exception: traceback.print_exc()
    return r
Problem.run_driver=rd
mod=sys.argv[1]
os.makedirs('/tmp/w/harv/cwd/'+mod,exist_ok=True); os.chdir('/tmp/w/harv/cwd/'+mod)
s=unittest.defaultTestLoader.loadTestsFromName(mod)
r=unittest.TextTestRunner(verbosity=0).run(s)
pickle.dump(seen,open('/tmp/w/harv/out/'+mod+'.pkl','wb'))
