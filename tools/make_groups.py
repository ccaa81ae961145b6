"""usage: make_groups.py OUTDIR : merge the recorded groups into data/groups.json.gz"""
import collections
import glob
import gzip
import hashlib
import json
import pickle
import sys
from pathlib import Path

import numpy as np

recs = {}
for f in sorted(glob.glob(sys.argv[1] + '/*.pkl')):
    for k, l in sorted(pickle.load(open(f, 'rb')).items()):
        for r in l:
            if r['cls'] in ('AviaryGroup', 'CorePreMission', 'StaticGroup', 'BaseODE') or 'open_aero_struct' in r['mod']:
                continue
            key = hashlib.md5(repr((r['mod'], r['cls'], r['opts'], sorted((n, np.shape(v['v'])) for n, v in r['ins'].items()))).encode()).hexdigest()
            e = recs.setdefault(key, {'mod': r['mod'], 'cls': r['cls'], 'opts': r['opts'], 'ins': {n: {'u': v['u']} for n, v in r['ins'].items()}, 'smp': []})
            s = {n: v['v'] for n, v in r['ins'].items()}
            if s not in e['smp'] and len(e['smp']) < 2:
                e['smp'].append(s)
by = collections.defaultdict(list)
for k in sorted(recs, key=lambda k: (recs[k]['mod'], recs[k]['cls'], k)):
    by[recs[k]['mod'], recs[k]['cls']].append(recs[k])
L = []
for k, l in by.items():
    # at most 25 configurations of a class, with as many different options as possible
    step = max(1, len(l) / 25)
    L += [l[int(i * step)] for i in range(min(25, len(l)))]


def rnd(o):
    if isinstance(o, float):
        return float('%.12g' % o)
    if isinstance(o, list):
        return [rnd(x) for x in o]
    if isinstance(o, dict):
        return {k: rnd(v) for k, v in o.items()}
    return o


s = json.dumps(rnd(L))
(Path(__file__).resolve().parent.parent / 'data' / 'groups.json.gz').write_bytes(gzip.compress(s.encode(), 9, mtime=0))
print(len(L), len(s), collections.Counter(e['mod'].split('.')[-1] + ':' + e['cls'] for e in L))
