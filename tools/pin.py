import sys,json
sys.path.insert(0,'/tmp/base')
mod=sys.argv[1]; names=sys.argv[2:]
import importlib
m=importlib.import_module('fluids.'+mod)
def cv(x):
    import numpy as np
    if isinstance(x,dict): return {str(k):cv(v) for k,v in x.items()}
    if isinstance(x,(list,tuple)): return [cv(v) for v in x]
    if isinstance(x,np.ndarray): return cv(x.tolist())
    if isinstance(x,np.generic): return x.item()
    if isinstance(x,(set,frozenset)): return sorted(x)
    return x
json.dump({n:cv(getattr(m,n)) for n in names},open('/verif/vf/data/%s.json'%mod.split('.')[-1],'w'))
