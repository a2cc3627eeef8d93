"""MANIFEST.json from the properties and the checks that exist."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props_src import P
ROOT = os.path.join(HERE, '..')
NOT = {}
NOTES = {}
exec(open(os.path.join(HERE, 'manifest_notes.py')).read())
checks, na = [], []
for p in P:
    i = p['id']
    if os.path.exists(os.path.join(ROOT, 'harness', 'props', i.lower() + '.py')):
        spec, note = NOTES[i]
        checks.append(dict(
            property=i,
            quick_cmd='./check.sh %s quick' % i,
            thorough_cmd='./check.sh %s thorough' % i,
            technique='TLA+ specification (%s): TLC model checking, TLC behaviours replayed '
                      'into the code, recorded traces judged by TLC' % spec,
            level='model_checking', level_note=note))
    else:
        na.append(dict(property=i, reason=NOT.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='./setup.sh',
               hooks=dict(guard='ZOUNDS_VERIF_HOOKS', enable='no hooks: the checks observe the public API only', source_commits=[]),
               checks=checks, not_applicable=na),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not applicable')
