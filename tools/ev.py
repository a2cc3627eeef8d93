#!/usr/bin/env python3
"""shows the events of a replayed case: ev.py FILE"""
import json, sys
d = json.load(open(sys.argv[1]))


def find(o):
    if isinstance(o, dict):
        if 'events' in o:
            return o
        o = list(o.values())
    if isinstance(o, list):
        for v in o:
            r = find(v)
            if r:
                return r


x = find(d)
print({k: v for k, v in x.items() if k != 'events'})
for e in x['events']:
    print({k: v for k, v in e.items() if v not in ([], '', 0, 'ok')})
