#!/usr/bin/env python3
"""writes KNOWN_FINDINGS.txt from the fix commits in /repo and the property each belongs to (tools/fixmap.txt)"""
import os, subprocess
here = os.path.dirname(os.path.abspath(__file__))
props = dict(l.split() for l in open(os.path.join(here, 'fixmap.txt')) if l.strip())
out = []
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h\t%s']).decode().splitlines():
    h, t = l.split('\t', 1)
    if t.startswith('fix:'):
        p = next((v for k, v in props.items() if h.startswith(k) or k.startswith(h)), None)
        if p is None:
            raise SystemExit('no property for ' + l)
        out.append('fixed: property=%s %s did not hold: %s' % (p, h, t[5:]))
out.sort()
with open(os.path.join(here, '..', 'KNOWN_FINDINGS.txt'), 'w') as f:
    f.write('# Defects found in zounds by these checks. Repaired ones ("fixed:") suppress nothing.\n'
            '# There are no open findings: every genuine defect that was found was repaired.\n')
    f.write('\n'.join(out) + '\n')
