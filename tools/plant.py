"""Plant bugs: plant(id, prop, edits, demo, needs, breaks); each is verified in a scratch copy.

edits: [(file, old, new)].  Writes /verif/seeded/<id>/ and appends the verdict of the
property's check (and whether the tests still pass) to /tmp/plant.log.
"""
import json, os, shutil, subprocess, sys

VERIF = os.environ.get('V', '/verif')
REPO, SEEDED = os.environ.get('R', '/repo'), VERIF + '/seeded'
PYTHON = '/opt/venv/bin/python'
DEMO_SH = '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore OMP_NUM_THREADS=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd=None, timeout=900, env=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def tests(copy):
    out = copy + '.xml'
    sh('. /opt/vp/env.sh; cd %s; PYTHONPATH=/opt/vp/plugins $PY -m pytest -p zounds_seed -q -n 8 -p no:cacheprovider --timeout=120 '
       '--continue-on-collection-errors -o junit_family=xunit2 --junitxml=%s -W ignore --tb=short zounds' % (copy, out), cwd=copy)
    c, o = sh('%s /opt/vp/results.py %s.json junit:%s' % (PYTHON, out, out))
    def passed(d):
        for k in ('passed', 'stable', 'tests'):
            if k in d:
                return set(x for x in d[k])
    base = passed(json.load(open('/opt/vp/BASELINE.json')))
    now = passed(json.load(open(out + '.json')))
    os.remove(out); os.remove(out + '.json')
    return sorted(base - now)


def copy_repo(name):
    d = '/tmp/plant-' + name
    shutil.rmtree(d, ignore_errors=True)
    sh('cp -a %s %s' % (REPO, d))
    sh('git checkout -q -- . ', cwd=d)
    return d


def log(s):
    print(s); sys.stdout.flush()
    with open('/tmp/plant.log', 'a') as f:
        f.write(s + '\n')


def note(id, by):
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'caught.json')
    d = json.load(open(p)) if os.path.exists(p) else {}
    d[id] = by
    json.dump(d, open(p, 'w'), indent=1, sort_keys=True)


def check(id, prop, d, checks=None):
    r = []
    for c in [prop] + list(checks or []):
        ev = d + '.ev'
        code, out = sh('./check.sh %s quick' % c, cwd=VERIF, env=dict(VERIF_REPO=d, VERIF_EVIDENCE=ev, VERIF_SEED='1'))
        shutil.rmtree(ev, ignore_errors=True)
        hit = [l for l in out.splitlines() if l.startswith('VIOLATION property=%s' % c) or 'clause:' in l]
        r.append('%s exit %d %s' % (c, code, '; '.join(x.strip() for x in hit if 'clause' in x)[:300]))
        if code not in (0, 1):
            r.append(out[-1500:])
    return ' | '.join(r)


def plant(id, prop, edits, demo, needs, breaks, run_check=True, keep=True):
    d = copy_repo(id)
    try:
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                return log('%s: %r occurs %d times in %s' % (id, old[:60], s.count(old), f))
            open(p, 'w').write(s.replace(old, new))
        c, diff = sh('git diff', cwd=d)
        root = sh('git rev-list --max-parents=0 HEAD', cwd=d)[1].split()[0]
        for f, _, _ in edits:
            orig = sh('git show %s:%s' % (root, f), cwd=d)[1].splitlines()
            gone = [l[1:] for l in sh('git diff -U0 -- ' + f, cwd=d)[1].splitlines()
                    if l.startswith('-') and not l.startswith('---')]
            if not gone or any(l not in orig for l in gone):
                log('%s: (not only original lines: %r)' % (id, [l for l in gone if l not in orig]))
        out = os.path.join(SEEDED, id)
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.sh', 'w').write(DEMO_SH); os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo.py', 'w').write(demo.strip() + '\n')
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(out + '/meta.json', 'w'), indent=1)
        ok0, o0 = sh('bash %s/demo.sh' % out, cwd=REPO, timeout=300)
        ok1, o1 = sh('bash %s/demo.sh' % out, cwd=d, timeout=300)
        if ok0 != 0 or ok1 == 0:
            shutil.rmtree(out)
            return log('%s: DEMO BAD clean=%d patched=%d\n%s\n%s' % (id, ok0, ok1, o0[-1500:], o1[-500:]))
        miss = tests(d)
        if miss:
            shutil.rmtree(out)
            return log('%s: TESTS CATCH IT %s' % (id, miss[:5]))
        r = check(id, prop, d) if run_check else ''
        log('%s: kept. %s' % (id, r))
        note(id, prop if ' exit 1' in r else '')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def recheck(ids=None):
    for id in sorted(os.listdir(SEEDED)):
        if ids and id not in ids and not any(id.startswith(x + '-') for x in ids):
            continue
        meta = json.load(open(os.path.join(SEEDED, id, 'meta.json')))
        d = copy_repo(id)
        c, o = sh('git apply %s/%s/patch.diff' % (SEEDED, id), cwd=d)
        if c:
            log('%s: does not apply %s' % (id, o))
        else:
            r = check(id, meta['property'], d)
            log('%s: %s' % (id, r))
            note(id, meta['property'] if ' exit 1' in r else '')
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    recheck(sys.argv[1:])
