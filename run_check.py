#!/usr/bin/env python3
"""run_check.py ID [--tier quick|thorough] [--seed N] [--replay FILE]

Runs the monitors of one property against /repo's working tree.
Exit 0: held on everything observed.  Exit 1 + VIOLATION line: broken.
Exit 2: inconclusive (monitor not reached, time out, harness error).
"""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VT_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'
LEVEL = 'exploration'
WALL = {'quick': 780., 'thorough': 5400.}       # watchdog: inconclusive
BUDGET = {'quick': 420., 'thorough': 3000.}     # stop generating new cases
HANG_CPU = 240.        # far beyond any case (the signal in vt.core is at 120)


def read(path):
    try:
        with open(path) as f:
            return f.read()
    except OSError:
        return None


def cpu_seconds(pid):
    try:
        with open(f'/proc/{pid}/stat') as f:
            f = f.read().rsplit(')', 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError):
        return 0.


def known_findings():
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('{'):
                out.append(json.loads(line))
    return out


def matches(entry, v):
    if entry.get('status') != 'known' or entry['property'] != v['property']:
        return False
    if entry['mechanism'] != v['mechanism']:
        return False
    want = entry.get('stream')
    if want is not None and want != v.get('stream'):
        return False
    contains = entry.get('contains')
    if contains and contains not in json.dumps(v.get('detail')):
        return False
    return True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    only = a.only or '-'
    if a.replay:
        r = json.load(open(a.replay))
        a.seed, a.tier = r['seed'], r['tier']
        if r.get('stream') is not None:
            only = f"{r['stream']}:{r['index']}"
    t0 = time.monotonic()
    tmp = tempfile.mkdtemp(prefix='vt_' + a.prop + '_')
    try:
        code = run(a, only, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def run(a, only, tmp, t0):
    scratch = os.path.join(tmp, 'scratch')
    os.makedirs(scratch)
    os.makedirs(os.path.join(tmp, 'mpl'))
    out = os.path.join(tmp, 'out.json')
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(('PYTHON', 'NUMBA_', 'MPL'))}
    env.update(
        PYTHONPATH=f'{REPO}:{HERE}', PYTHONDONTWRITEBYTECODE='1',
        PYTHONHASHSEED='0', MPLBACKEND='Agg',
        MPLCONFIGDIR=os.path.join(tmp, 'mpl'),
        NUMBA_BOUNDSCHECK='1', NUMBA_CACHE_DIR=os.path.join(tmp, 'numba'),
        OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
        NUMBA_NUM_THREADS='1',
        HOME=tmp, TMPDIR=tmp, VT_REPO=REPO, VT_SCRATCH=scratch,
    )
    p = subprocess.Popen(
        [PYTHON, '-m', 'vt.child', a.prop, a.tier, str(a.seed), out, only,
         str(BUDGET[a.tier])],
        cwd=scratch, env=env, stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT, start_new_session=True)
    stuck, since, case_now = False, 0., None
    end = time.monotonic() + WALL[a.tier]
    while True:
        try:
            log, _ = p.communicate(timeout=5)
            break
        except subprocess.TimeoutExpired:
            pass
        if time.monotonic() > end:
            os.killpg(p.pid, signal.SIGKILL)
            log, _ = p.communicate()
            print(log.decode(errors='replace')[-2000:])
            print(f'INCONCLUSIVE property={a.prop}: watchdog expired')
            return 2
        # processor time, not wall time, decides that a case does not end
        used, here = cpu_seconds(p.pid), read(out + '.case')
        if here != case_now:
            case_now, since = here, used
        elif here and used - since > HANG_CPU and not stuck:
            stuck = True
            os.kill(p.pid, signal.SIGABRT)      # faulthandler says where
    log = log.decode(errors='replace')
    crash = None
    if not os.path.exists(out):
        case = {}
        if os.path.exists(out + '.case'):
            case = json.load(open(out + '.case'))
        if stuck and case:
            crash = dict(property=a.prop, mechanism='no_progress',
                         detail={'what': f'one case used {HANG_CPU:.0f} s of '
                                 'processor time without finishing',
                                 'log': log[-3000:]},
                         case=None, **case)
            res = dict(evaluations=1, distinct_nontrivial=1, rule='hang',
                       samples=[], observations={}, oracle_verdicts=1,
                       violations=[crash], missing=[], cut={}, trivial=0,
                       skipped=0, largest_deviation={}, assumptions=[])
        elif p.returncode in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGFPE,
                            -signal.SIGABRT, -signal.SIGILL) and case:
            crash = dict(property=a.prop, mechanism='process_crash',
                         detail={'signal': -p.returncode, 'log': log[-3000:]},
                         case=None, **case)
            res = dict(evaluations=1, distinct_nontrivial=1, rule='crash',
                       samples=[], observations={}, oracle_verdicts=1,
                       violations=[crash], missing=[], cut={}, trivial=0,
                       skipped=0, largest_deviation={}, assumptions=[])
        else:
            print(log[-4000:])
            # the code under test failing to import, or to be driven at all,
            # before any case: no verdict
            print(f'INCONCLUSIVE property={a.prop}: harness exit '
                  f'{p.returncode}')
            return 2
    else:
        res = json.load(open(out))
    known = known_findings()
    new, seen = [], {}
    for v in res['violations']:
        for k in known:
            if matches(k, v):
                seen[k['what']] = k
                break
        else:
            new.append(v)
    for what in seen:
        print(f'KNOWN-FINDING: property={a.prop} {what}')
    replay = None
    if new:
        rdir = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, f'{a.prop}.json')
        with open(replay, 'w') as f:
            json.dump(dict(new[0], others=new[1:]), f, indent=1)
    if not a.no_evidence and not a.replay and only == '-':
        ev = {
            'property': a.prop, 'tier': a.tier, 'seed': a.seed,
            'level': LEVEL,
            'coverage': {
                'evaluations': res['evaluations'],
                'distinct_nontrivial': res['distinct_nontrivial'],
                'rule': res['rule'],
                'samples': res['samples'],
                'oracle_verdicts': res['oracle_verdicts'],
                'trivial_cases': res['trivial'],
                'skipped_out_of_domain': res['skipped'],
                'observed_events': res['observations'],
                'largest_deviation_from_oracle': res['largest_deviation'],
                'cut_by_time': res['cut'],
                'known_findings_seen': len(seen),
                'monitors_not_reached': res['missing'],
            },
            'assumptions': res['assumptions'],
            'wall_s': round(time.monotonic() - t0, 2),
            'violations': len(new),
        }
        edir = os.path.join(HERE, 'evidence')
        os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, a.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print(f"{a.prop} {a.tier} seed={a.seed}: {res['evaluations']} cases, "
          f"{res['distinct_nontrivial']} distinct, "
          f"{res['oracle_verdicts']} oracle verdicts, "
          f"{time.monotonic() - t0:.1f} s")
    if new:
        for v in new[:4]:
            print(f"  {v['mechanism']} stream={v.get('stream')}:"
                  f"{v.get('index')} {json.dumps(v.get('detail'))[:700]}")
        print(f'VIOLATION property={a.prop} replay={replay}')
        return 1
    if res['missing']:
        print(f"INCONCLUSIVE property={a.prop}: monitors not reached: "
              f"{res['missing']}")
        return 2
    return 0


if __name__ == '__main__':
    main()
