import pickle,glob,json,gzip,hashlib
recs={}
for f in sorted(glob.glob('out/*.pkl')):
    d=pickle.load(open(f,'rb'))
    for k,l in sorted(d.items()):
        for r in l:
            if '.test' in r['mod'] or 'open_aero_struct' in r['mod']: continue
            key=hashlib.md5(repr((r['mod'],r['cls'],r['opts'],sorted((n,str(v.get('v') and __import__('numpy').shape(v['v']))) for n,v in r['ins'].items()))).encode()).hexdigest()
            e=recs.setdefault(key,{'mod':r['mod'],'cls':r['cls'],'opts':r['opts'],'ins':{n:({'u':v['u']} if 'u' in v else {'disc':1}) for n,v in r['ins'].items()},'smp':[]})
            s={n:(v['v'] if 'v' in v else v['disc']) for n,v in r['ins'].items()}
            if s not in e['smp'] and len(e['smp'])<4: e['smp'].append(s)
L=[recs[k] for k in sorted(recs,key=lambda k:(recs[k]['mod'],recs[k]['cls'],k))]
import numpy as np
def big(e): return sum(np.size(v) for v in e['smp'][0].values())
L=[e for e in L if big(e)<20000]
print(len(L), sum(len(e['smp']) for e in L))
def rnd(o):
    if isinstance(o,float): return float('%.12g'%o)
    if isinstance(o,list): return [rnd(x) for x in o]
    if isinstance(o,dict): return {k:rnd(v) for k,v in o.items()}
    return o
for e in L:
    e['smp']=[rnd(s) for s in e['smp']]
s=json.dumps(L)
open('/verif/data/corpus.json.gz','wb').write(gzip.compress(s.encode(),9,mtime=0))
print(len(s))
import collections
c=collections.Counter(e['cls'] for e in L); print(len(c))
print(sorted([(big(e),e['cls']) for e in L])[-10:])
