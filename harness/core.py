"""Shared machinery of all checks: TLC runs, trace validation, evidence."""
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, 'specs')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class Machinery(Exception):
    """The check itself failed: neither pass nor violation."""


class ImplTimeout(Exception):
    pass


# what TLC says when a value is not of the kind that the specification expects
_NOT_UNDERSTOOD = re.compile(r'Attempted to|was not in the domain|nonexistent field|Overflow when|'
                             r'A non-function|is not enumerable')
_STATES = re.compile(r'^(\d+) states generated, (\d+) distinct states found')


class TlcResult(object):
    def __init__(self):
        self.generated = 0
        self.distinct = 0
        self.prints = []
        self.error = None
        self.out = ''


class Ctx(object):
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.seed = seed
        self.rng = random.Random(seed * 1000003 + sum(map(ord, pid)))
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        self.t0 = time.time()
        self.violations = []      # (signature, description, payload)
        self.cov = dict(states=0, transitions=0,
                        traces_validated_against_impl=0, samples=[])
        self.extra = {}
        self.canaries = 0
        self.assumptions = []
        self._n = 0

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def dir(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, workers=4, timeout=600,
            args=(), heap='3g'):
        self._n += 1
        work = self.dir('tlc%d' % self._n)
        for f in os.listdir(SPECS):
            if f.endswith(('.tla', '.cfg')):
                shutil.copy(os.path.join(SPECS, f), work)
        cmd = ['java', '-Xmx' + heap, '-Xss16m', '-XX:+UseParallelGC', '-cp', JARS, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', os.path.join(work, 'meta'),
               '-noGenerateSpecTE', '-config', (cfg or module) + '.cfg']
        cmd += list(args) + [module + '.tla']
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            raise Machinery('TLC timed out on %s' % module)
        out = p.stdout.decode('utf-8', 'replace')
        r = TlcResult()
        r.out = out
        for line in out.splitlines():
            m = _STATES.match(line)
            if m:
                r.generated, r.distinct = int(m.group(1)), int(m.group(2))
            elif line.startswith('"') and line.endswith('"'):
                try:
                    r.prints.append(json.loads(line))
                except ValueError:
                    r.prints.append(line[1:-1])
            elif line.startswith('Error:') and r.error is None:
                r.error = line
        if p.returncode != 0 and r.error is None:
            r.error = 'exit status %d' % p.returncode
        shutil.rmtree(work, ignore_errors=True)
        return r

    def design(self, module, cfg=None, **kw):
        """Model check the design: every invariant, small constants."""
        r = self.tlc(module, cfg, **kw)
        if r.error:
            raise Machinery('design model %s/%s: %s\n%s' % (
                module, cfg, r.error, r.out[-3000:]))
        if r.distinct < 2:
            raise Machinery('design model %s explored nothing' % module)
        self.cov['states'] += r.distinct
        self.cov['transitions'] += r.generated
        self.extra.setdefault('design_models', []).append(
            dict(module=module, cfg=cfg or module, distinct=r.distinct,
                 generated=r.generated))
        return r

    def generate(self, module, cfg=None, limit=None, **kw):
        """Run a model and collect the behaviours it prints (GEN {json})."""
        r = self.design(module, cfg, **kw)
        gen = []
        seen = set()
        for s in r.prints:
            if s.startswith('GEN ') and s not in seen:
                seen.add(s)
                gen.append(s[4:])
        if not gen:
            raise Machinery('model %s/%s generated no behaviours' % (module, cfg))
        # TLC's workers print in any order
        gen.sort()
        total = len(gen)
        if limit and len(gen) > limit:
            gen = self.rng.sample(gen, limit)
        gen = [json.loads(g) for g in gen]
        self.extra.setdefault('generated_behaviours', []).append(
            dict(module=module, cfg=cfg or module, total=total, replayed=len(gen)))
        return gen

    # ------------------------------------------------- trace validation
    def validate(self, module, cases, canaries=(), cfg=None, label='',
                 workers=4, batch=20000, timeout=600, describe=None):
        """TLC judges recorded executions.

        cases: list of JSON-able records; canaries: records the spec must
        reject (else the binding is vacuous -> machinery failure).
        The trace module prints `OK <i>` or `BAD <i> <event> <clause>`.
        """
        cases = list(cases)
        if not cases:
            raise Machinery('no traces recorded for ' + module)
        problems = []
        if callable(canaries):
            # canaries are made from recorded cases, which may be useless when
            # the code under test is broken: then the violations count
            try:
                canaries = canaries()
            except Machinery:
                raise
            except Exception:
                problems.append('canaries of %s: %s' % (module, traceback.format_exc()))
                canaries = []
        canaries = list(canaries)
        allc = cases + canaries
        nbad = 0
        for lo in range(0, len(allc), batch):
            part = allc[lo:lo + batch]
            path = os.path.join(self.scratch, 'trace%d.json' % self._n)
            with open(path, 'w') as f:
                json.dump(part, f)
            r, verdict = self._judge(module, cfg, path, workers, timeout)
            if r.error and lo + len(part) > len(cases) > lo:
                # was it a canary?
                part = part[:len(cases) - lo]
                with open(path, 'w') as f:
                    json.dump(part, f)
                first = r
                r, verdict = self._judge(module, cfg, path, workers, timeout)
                if not r.error:
                    problems.append('canaries of %s: %s\n%s' % (module, first.error, first.out[-3000:]))
            if r.error or len(verdict) != len(part):
                if not _NOT_UNDERSTOOD.search(r.out):
                    raise Machinery('trace spec %s: %s (%d verdicts for %d cases)\n%s' % (
                        module, r.error, len(verdict), len(part), r.out[-4000:]))
                # the code gave an answer of a kind that no valid execution gives
                self.violation('%s: an answer of a kind that the specification does not know' % (label or module),
                               dict(module=module, error=r.out[-4000:], case=dict(events=[])))
                part = [part[i] for i in range(len(part)) if i + 1 in verdict]
                verdict = dict((j + 1, verdict[i]) for j, i in enumerate(sorted(verdict)))
            self.cov['transitions'] += r.generated
            for i, case in enumerate(part):
                v = verdict[i + 1]
                if lo + i >= len(cases):
                    if v is None:
                        problems.append(
                            'canary accepted by %s: %s' % (module, json.dumps(case)[:2000]))
                    self.canaries += 1
                    continue
                self.cov['traces_validated_against_impl'] += 1
                if v is not None:
                    nbad += 1
                    ev, clause = v
                    if clause.startswith('harness:'):
                        problems.append('%s: %s at event %d of %s' % (
                            module, clause, ev, json.dumps(case)[:3000]))
                        continue
                    desc = describe(case, ev, clause) if describe else None
                    self.violation(
                        '%s: %s' % (label or module, clause),
                        dict(module=module, event=ev, clause=clause, case=case,
                             description=desc),
                        known=case.get('known') if isinstance(case, dict) else None)
            os.remove(path)
        if problems and not self.violations:
            raise Machinery(problems[0])
        if len(self.cov['samples']) < 4:
            self.cov['samples'].append(dict(
                module=module, label=label, case=_clip(cases[len(cases) // 2])))
        return nbad

    def _judge(self, module, cfg, path, workers, timeout):
        r = self.tlc(module, cfg, env={'TRACE': path}, workers=workers,
                     timeout=timeout, heap='6g')
        verdict = {}
        for s in r.prints:
            w = s.split(' ', 3)
            if w[0] == 'OK':
                verdict.setdefault(int(w[1]), None)
            elif w[0] == 'BAD':
                verdict[int(w[1])] = (int(w[2]), w[3])
        return r, verdict

    # ------------------------------------------------------- violations
    def violation(self, clause, payload, known=None):
        self.violations.append((clause, payload, known))

    def call(self, fn, *a, **k):
        """-> ('ok', value) or ('err', exception class name)"""
        try:
            return 'ok', fn(*a, **k)
        except ImplTimeout:
            return 'hang', 'ImplTimeout'
        except Exception as e:
            return 'err', e.__class__.__name__


def _clip(x, n=1500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + '...'


class time_limit(object):
    """Bound a call into the implementation (main thread only)."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def handler(*_):
            raise ImplTimeout()
        self.old = signal.signal(signal.SIGALRM, handler)
        # and what cleans up must not wait forever, either
        signal.setitimer(signal.ITIMER_REAL, self.seconds, 5)

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


def ints(a):
    """nested lists of python ints from an integer-valued array"""
    import numpy as np
    a = np.asarray(a)
    if a.dtype == object:
        return [int(x) for x in a.ravel()]
    if a.dtype.kind == 'f' and a.size:
        if not np.all(np.isfinite(a)):
            a = np.where(np.isfinite(a), a, -999999)
        r = np.rint(a)
        # values that are not integers are made to stand out
        a = np.where(np.abs(a - r) > 1e-6, -777777, r)
    return a.astype(np.int64).tolist()


def load_known():
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.jsonl')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith('#') and not line.startswith('fixed:'):
                out.append(json.loads(line))
    return out
