#!/usr/bin/env python3
import json,sys
d=json.load(open(sys.argv[1]))
print(d['clause'],d['count'])
for c in d['cases'][:int(sys.argv[2]) if len(sys.argv)>2 else 4]:
    if 'traceback' in c: print(c['traceback']); continue
    case=c['case']; ev=c['event']
    s={k:v for k,v in case.items() if k!='ops'} if isinstance(case,dict) else case
    print(json.dumps(s)[:1500]); 
    if isinstance(case,dict) and 'ops' in case:
        for o in case['ops'][:ev]: print('   ',json.dumps(o)[:1200])
