"""C18: versions of learned steps (StepVersion.tla)."""
import copy
import json
import os
import subprocess
import sys
from core import Machinery
import versions as V


class Proc(object):
    """a fresh interpreter, with its own hash seed"""

    def __init__(self, work, seed):
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        env = dict(os.environ, PYTHONHASHSEED=str(seed), OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
                   PYTHONPATH=os.pathsep.join([p for p in sys.path if p] + [here]), PYTHONDONTWRITEBYTECODE='1')
        self.p = subprocess.Popen([sys.executable, '-W', 'ignore', os.path.join(here, 'versions.py'), work], env=env, cwd=work,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(os.path.join(work, 'err%s' % seed), 'w'))

    def call(self, **cmd):
        try:
            self.p.stdin.write((json.dumps(cmd) + '\n').encode())
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except OSError:
            line = b''
        if not line:
            raise Machinery('a version process died')
        return json.loads(line)

    def stop(self):
        self.p.stdin.close()
        self.p.kill()
        self.p.wait()


def run(ctx):
    rng = ctx.rng
    ctx.design('StepVersion')
    gen = ctx.generate('StepVersion', 'StepVersionGen', limit=ctx.n(500, 5000))
    work = ctx.dir('docs')
    procs = [Proc(work, s) for s in (1, 2, 77)]
    kinds = V.kinds()
    allatoms = [(k, v) for k in sorted(kinds) for v in range(kinds[k])]
    cases = []
    # everything ever versioned, for one case that compares all of it
    union = []
    seen = set()

    def name(a):
        return '%s/%d' % a

    def case(ops, atoms):
        """ops as printed by the model; atoms[k] the step that atom k stands for"""
        nm = 'c%d' % len(cases)
        events, where, content = [], {}, {}
        n = 0
        for o in ops:
            ev = dict(op=o['op'], i=o['i'], steps=[], lo=o['lo'], hi=o['hi'], idx=[], doc=o['doc'], conv='', st='ok', v='', sv=[], fv='',
                      computed=-1, match=True)
            if o['op'] == 'build':
                n += 1
                st = [atoms[k] for k in o['steps']]
                where[n] = rng.choice(procs)
                content[n] = st
                ev['steps'] = [name(a) for a in st]
                r = where[n].call(op='build', steps=st, to=n, case=nm)
            elif o['op'] in ('reload', 'send'):
                n += 1
                src = where[o['i']]
                where[n] = src if o['op'] == 'reload' else rng.choice([p for p in procs if p is not src])
                content[n] = content[o['i']]
                d = src.call(op='dump', i=o['i'], case=nm)
                r = d if d['st'] != 'ok' else where[n].call(op='load', data=d['data'], to=n, case=nm)
            elif o['op'] == 'slice':
                n += 1
                where[n] = where[o['i']]
                content[n] = content[o['i']][o['lo'] - 1:o['hi']]
                r = where[n].call(op='slice', i=o['i'], lo=o['lo'], hi=o['hi'], to=n, case=nm)
            elif o['op'] in ('reverse', 'pick'):
                n += 1
                where[n] = where[o['i']]
                k = len(content[o['i']])
                idx = list(range(k, 0, -1)) if o['op'] == 'reverse' else o['idx']
                ev['op'], ev['idx'] = 'pick', idx
                content[n] = [content[o['i']][j - 1] for j in idx]
                r = where[n].call(op='pick', i=o['i'], idx=idx, to=n, case=nm)
            else:
                conv = V.CONVS[o['conv']]
                r = where[o['i']].call(op='read', i=o['i'], doc=o['doc'], conv=conv, case=nm)
                ev['conv'] = conv
                if r['st'] == 'ok' and not r['read']:
                    ev['op'] = 'look'
            ev['st'] = r['st']
            if r['st'] == 'ok':
                for k in ('v', 'sv', 'fv', 'computed', 'match'):
                    ev[k] = r[k]
            else:
                ev['err'] = r.get('err', '')
            events.append(ev)
            if r['st'] != 'ok':
                break
            # a summary for the comparison with everything else
            ct = [name(a) for a in content[n if ev['op'] not in ('read', 'look') else o['i']]]
            key = (tuple(ct), ev['v'], tuple(ev['sv']), ev['fv'], ev['conv'])
            if key not in seen:
                seen.add(key)
                union.append(dict(ev, op='build', steps=ct, computed=-1))
        cases.append(events)
        for p in set(where.values()):
            p.call(op='forget', case=nm)
        return events

    def blank(op, **kw):
        return dict(dict(op=op, i=0, steps=[], lo=0, hi=0, idx=[], doc=0, conv=0), **kw)

    try:
        # the whole catalogue, made and made again, in several processes
        for lo in range(0, len(allatoms), 6):
            part = allatoms[lo:lo + 6]
            ops = []
            for j in range(len(part)):
                ops += [blank('build', steps=[j]), blank('build', steps=[j]), blank('build', steps=[j])]
                ops.append(blank('send', i=len([o for o in ops if o['op'] != 'read'])))
                ops.append(blank('read', i=len([o for o in ops if o['op'] != 'read']), conv=0))
            case(ops, part)
        for g in gen:
            # the atoms of a behaviour are often variants of each other
            if rng.random() < .7:
                k = rng.choice([k for k in sorted(kinds) if kinds[k] > 1])
                atoms = [(k, v) for v in rng.sample(range(kinds[k]), 2)]
            else:
                atoms = rng.sample(allatoms, 2)
            convs = rng.sample(range(len(V.CONVS)), 2)
            if rng.random() < .5:
                convs[0] = 0
            for o in g:
                if o['op'] == 'read':
                    o['conv'] = convs[o['conv'] % 2]
            case(g, atoms)
        for _ in range(ctx.n(150, 1500)):
            atoms = rng.sample(allatoms, rng.randint(1, 4))
            ops, sizes = [], []
            for _ in range(rng.randint(5, 20)):
                m = rng.random()
                if not sizes or m < .25:
                    st = [rng.randrange(len(atoms)) for _ in range(rng.randint(1, 5))]
                    ops.append(blank('build', steps=st))
                    sizes.append(len(st))
                    continue
                i = rng.randint(1, len(sizes))
                k = sizes[i - 1]
                if m < .45:
                    ops.append(blank(rng.choice(['send', 'reload']), i=i))
                    sizes.append(k)
                elif m < .55:
                    a = rng.randint(1, k)
                    b = rng.randint(a, k)
                    ops.append(blank('slice', i=i, lo=a, hi=b))
                    sizes.append(b - a + 1)
                elif m < .65:
                    idx = [rng.randint(1, k) for _ in range(rng.randint(1, 4))]
                    ops.append(blank('pick', i=i, idx=idx))
                    sizes.append(len(idx))
                else:
                    ops.append(blank('read', i=i, doc=rng.randrange(2), conv=rng.randrange(len(V.CONVS)) if rng.random() < .3 else 0))
            case(ops, atoms)
    finally:
        for p in procs:
            p.stop()
    # everything of all cases together, in parts small enough to compare
    rng.shuffle(union)
    for lo in range(0, min(len(union), ctx.n(3000, 20000)), 600):
        cases.append(union[lo:lo + 600])
    def make_canaries():
        can = []
        pool = [k for k in cases if 3 <= len(k) <= 40 and k[-1]['st'] == 'ok']
        for k in rng.sample(pool, 15):
            k = copy.deepcopy(k)
            m = rng.randrange(4)
            e = k[-1]
            if m == 0:
                e['sv'].append('x')
            elif m == 1 and any(o['op'] in ('send', 'reload') for o in k):
                o = [o for o in k if o['op'] in ('send', 'reload')][0]
                o['v'] = 'something else'
            elif m == 2 and any(o['op'] == 'read' for o in k):
                [o for o in k if o['op'] == 'read'][0]['computed'] = 0
            else:
                k.append(dict(k[0], op='build', steps=['other'], sv=k[0]['sv'][:1]))
            can.append(k)
        return can
    ctx.validate('StepVersionTrace', cases, make_canaries, label='StepVersion')
    ctx.extra['atoms'] = len(allatoms)
    ctx.extra['versions_compared'] = len(union)
