import json,glob,sys
from collections import Counter
for f in sorted(glob.glob('/verif/evidence/replay/%s-*.json'%sys.argv[1])):
    j=json.load(open(f)); c=Counter(); ex={}
    for x in j['cases']:
        k=tuple(str(x.get('case',{}).get(y)) for y in sys.argv[2:])
        c[k]+=1
    print(j['clause'],j['count'],dict(c),f)
