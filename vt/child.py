"""Runs one check's workload in this process and writes its result as JSON."""
import faulthandler
import importlib
import json
import os
import sys
import tempfile
import time
import warnings

faulthandler.enable()


def load(prop):
    return importlib.import_module('checks.' + prop.lower())


def main():
    prop, tier, seed, outfile, only, budget = sys.argv[1:7]
    seed = int(seed)
    budget = float(budget)
    os.environ.setdefault('MPLBACKEND', 'Agg')
    import numpy as np
    import defdap
    repo = os.path.realpath(os.environ['VT_REPO'])
    assert os.path.realpath(defdap.__file__).startswith(repo + os.sep), \
        defdap.__file__
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    from vt.core import Ctx, install_signal
    install_signal()
    mod = load(prop)
    ctx = Ctx(prop, seed, tier)
    ctx.scratch = os.environ['VT_SCRATCH']
    progress = outfile + '.case'
    t0 = time.monotonic()
    cut = {}

    def write_progress(stream, i):
        with open(progress, 'w') as f:
            json.dump({'stream': stream, 'index': i, 'seed': seed,
                       'tier': tier}, f)

    if hasattr(mod, 'setup'):
        mod.setup(ctx)
    streams = list(mod.STREAMS)
    if only != '-':
        name, idx = only.rsplit(':', 1)
        for s in streams:
            if s.name == name:
                write_progress(s.name, int(idx))
                ctx.run_case(s, int(idx))
    else:
        total = {s.name: (s.n_quick if tier == 'quick' else s.n_thorough)
                 for s in streams}
        done = dict.fromkeys(total, 0)
        # proportional interleaving, so that a time cut shortens all streams
        while True:
            left = [s for s in streams if done[s.name] < total[s.name]]
            if not left or len(ctx.violations) >= ctx.MAX_VIOLATIONS:
                break
            if time.monotonic() - t0 > budget:
                cut = {s.name: total[s.name] - done[s.name] for s in left}
                break
            s = min(left, key=lambda s: done[s.name] / total[s.name])
            write_progress(s.name, done[s.name])
            ctx.run_case(s, done[s.name])
            done[s.name] += 1
        if hasattr(mod, 'finish'):
            mod.finish(ctx)
    missing = []
    if only == '-' and not ctx.violations:
        for name, need in getattr(mod, 'REQUIRE', {}).items():
            if ctx.obs.get(name, 0) < need and name not in ctx.waived:
                missing.append(f'{name}: {ctx.obs.get(name, 0)} < {need}')
    with open(outfile, 'w') as f:
        json.dump({
            'evaluations': ctx.evaluations,
            'oracle_verdicts': ctx.oracle_verdicts,
            'distinct_nontrivial': len(ctx.distinct),
            'trivial': ctx.trivial,
            'skipped': ctx.skipped,
            'observations': ctx.obs,
            'largest_deviation': ctx.max_values,
            'samples': ctx.samples,
            'violations': ctx.violations,
            'missing': missing,
            'waived': sorted(ctx.waived),
            'cut': cut,
            'rule': mod.RULE,
            'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
            'wall_s': time.monotonic() - t0,
        }, f)


if __name__ == '__main__':
    main()
