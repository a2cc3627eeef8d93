"""run.py ID TIER: run one check in a supervised child process."""
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import time
import traceback

from core import Ctx, Machinery, VERIF, load_known

REPO = os.environ.get('VERIF_REPO', '/repo')
LIMIT = dict(quick=840, thorough=7200)


def child(pid, tier, seed):
    import contextlib
    mod = importlib.import_module('props.' + pid.lower())
    ctx = Ctx(pid, tier, seed)
    code = 0
    try:
        t0 = time.time()
        try:
            # the code under test prints; keep stdout for the verdict
            with open(os.path.join(ctx.scratch, 'stdout'), 'w') as so, \
                    contextlib.redirect_stdout(so):
                mod.run(ctx)
        except Machinery:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            impl = [f for f in tb if f.filename.startswith(REPO + '/zounds')]
            if not impl and isinstance(e, (OSError, MemoryError, subprocess.SubprocessError)):
                raise
            # the code under test raised where no valid execution raises, or
            # gave an answer of a kind that no valid execution gives
            where = os.path.relpath(impl[-1].filename, REPO) if impl else 'the interpretation of what the code did'
            ctx.violation('unexpected %s in %s' % (e.__class__.__name__, where),
                          dict(traceback=traceback.format_exc()))
        code = report(ctx, pid, tier, seed, time.time() - t0)
    except Machinery as e:
        print('MACHINERY %s: %s' % (pid, e))
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def report(ctx, pid, tier, seed, wall):
    known = [k for k in load_known() if k['property'] == pid]
    new, matched = {}, {}
    for clause, payload, kn in ctx.violations:
        hit = next((k for k in known if kn and k['id'] == kn
                    and ('clause' not in k or k['clause'] in clause)), None)
        if hit:
            matched[hit['id']] = hit
        else:
            new.setdefault(clause, []).append(payload)
    for k in known:
        if k['id'] in matched:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    edir = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
    rdir = os.path.join(edir, 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + '-'):
            os.remove(os.path.join(rdir, f))
    for i, (clause, payloads) in enumerate(sorted(new.items())):
        path = os.path.join(rdir, '%s-%d.json' % (pid, i + 1))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, clause=clause, count=len(payloads),
                           cases=payloads[:5]), f, indent=1, default=str)
        if i < 10:
            print('  clause: %s (%d)' % (clause, len(payloads)))
            print('VIOLATION property=%s replay=%s' % (
                pid, os.path.relpath(path, VERIF)))
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking',
              coverage=dict(ctx.cov, canaries_rejected=ctx.canaries, **ctx.extra),
              assumptions=ctx.assumptions, wall_s=round(wall, 2),
              violations=len(new))
    with open(os.path.join(edir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d states, %d transitions, %d traces validated, %d violation(s), %.1fs' % (
        pid, tier, ctx.cov['states'], ctx.cov['transitions'],
        ctx.cov['traces_validated_against_impl'], len(new), wall))
    return 1 if new else 0


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if os.environ.get('VERIF_CHILD') == '1':
        child(pid, tier, seed)
    env = dict(os.environ, VERIF_CHILD='1')
    p = subprocess.Popen([sys.executable, '-W', 'ignore', os.path.abspath(__file__), pid, tier],
                         env=env, start_new_session=True)
    try:
        rc = p.wait(timeout=LIMIT.get(tier, 840))
    except subprocess.TimeoutExpired:
        rc = None
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    if rc is None:
        print('MACHINERY %s: check did not finish' % pid)
        sys.exit(2)
    if rc < 0:
        # killed by a signal: the code under test brought the process down
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-crash.json' % pid)
        with open(path, 'w') as f:
            json.dump(dict(property=pid, clause='process killed by signal %d' % -rc), f)
        if rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGABRT, -signal.SIGFPE):
            print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(path, VERIF)))
            sys.exit(1)
        sys.exit(2)
    sys.exit(rc)


if __name__ == '__main__':
    main()
