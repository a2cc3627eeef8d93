"""DESIGN.md: tools/design_head.md, then a section per property made from the specifications, notes, fixes and planted bugs."""
import glob
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.join(HERE, '..')
sys.path.insert(0, HERE)
from props_src import P
NOT, NOTES = {}, {}
exec(open(os.path.join(HERE, 'manifest_notes.py')).read())
findings = [l.strip() for l in open(os.path.join(ROOT, 'KNOWN_FINDINGS.txt')) if l.startswith('fixed:')]
DETAIL = {}
d = os.path.join(HERE, 'design_detail.md')
if os.path.exists(d):
    for part in re.split(r'(?m)^## ', open(d).read())[1:]:
        k, t = part.split('\n', 1)
        DETAIL[k.strip()] = t.strip()
seeds = {}
for m in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    x = json.load(open(m))
    seeds.setdefault(x['property'], []).append((os.path.basename(os.path.dirname(m)), x))
CAUGHT = {}
c = os.path.join(HERE, 'caught.json')
if os.path.exists(c):
    CAUGHT = json.load(open(c))


def header(module):
    text = open(os.path.join(ROOT, 'specs', module)).read()
    lines = re.findall(r'(?m)^\(\*(.*?)\*\)\s*$', text.split('EXTENDS')[0])
    return re.sub(r'\s+', ' ', ' '.join(l.strip() for l in lines)).strip()


def constants(cfg):
    text = open(cfg).read()
    m = re.search(r'CONSTANTS?\s(.*?)(?=^[A-Z_]+\b)', text + '\nEND', re.S | re.M)
    return re.sub(r'\s+', ' ', m.group(1)).strip() if m else ''


def checked(cfg):
    return re.findall(r'(?m)^(?:INVARIANTS?|PROPERT(?:Y|IES))\s+(.*)$', open(cfg).read())


out = [open(os.path.join(HERE, 'design_head.md')).read(), '## Properties\n']
for p in P:
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    if i in NOT:
        out.append('Not applicable: %s.\n' % NOT[i])
        continue
    spec, note = NOTES[i]
    for spec in spec.split(', '):
        base = spec[:-4]
        out.append('*Specification* `specs/%s`, judge `specs/%sTrace.tla`, driver `harness/props/%s.py`. %s\n' % (
            spec, base, i.lower(), re.sub(r'^C\d\d( / C\d\d|, second part)?[.:] ', '', header(spec))))
        cfg = os.path.join(ROOT, 'specs', base + '.cfg')
        out.append('*Design* checks `%s` with %s.\n' % (', '.join(checked(cfg)), constants(cfg) or 'no constants'))
        gens = sorted(glob.glob(os.path.join(ROOT, 'specs', base + 'Gen*.cfg')))
        if gens:
            out.append('*Behaviours* replayed into the code: ' + '; '.join('`%s` (%s)' % (os.path.basename(g), constants(g)) for g in gens) + '.\n')
    if i in DETAIL:
        out.append(DETAIL[i] + '\n')
    out.append('*Limits.* ' + note.replace(GENERIC, '') + '\n')
    out.append('*Beyond the tests:* ' + re.sub(r'\s+', ' ', p['why_tests_cant']) + '.\n')
    mine = [re.sub(r'fixed: property=\S+ (\S+) did not hold: (.*)', r'\1 %s' % r'\2', f) for f in findings if 'property=%s ' % i in f]
    if mine:
        out.append('*Defects found and repaired* (what holds since):\n' + '\n'.join('* ' + m for m in mine) + '\n')
    if i in seeds:
        out.append('*Planted bugs:*\n' + '\n'.join('* `%s` %s - %s' % (k, x['what_it_breaks'].strip().rstrip('.'),
                   'caught by ' + CAUGHT[k] if CAUGHT.get(k) else 'not caught' if k in CAUGHT else 'see tools/plant.py') for k, x in seeds[i]) + '\n')
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out))
