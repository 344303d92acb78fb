"""Monitor framework: cases, observations, verdicts.

A check module (checks/cNN.py) defines

    PROPERTY, RULE, ASSUMPTIONS
    STREAMS = [Stream(name, n_quick, n_thorough, func), ...]
    REQUIRE = {observation name: minimum count}   # else inconclusive
    TRACE = [(dotted name of a defdap callable), ...]  # optional call counting

Each case of a stream runs real DefDAP code on a workload generated from a
generator seeded by (VERIF_SEED, property, stream, index), so every case is
replayable on its own.  `func(ctx, rng, i)` drives the code and hands what it
saw to `ctx.check(...)`, whose oracle verdicts are the only thing that decides.
"""
import contextlib
import hashlib
import io
import json
import os
import signal
import sys
import time
import traceback
import zlib

import numpy as np

CASE_CPU_LIMIT = float(os.environ.get('VT_CASE_CPU', '120'))


class Violation(Exception):
    pass


class Skip(Exception):
    """Case turned out to be outside the property's domain."""


class CaseOverrun(Exception):
    pass


class Stream:
    def __init__(self, name, n_quick, n_thorough, func):
        self.name, self.n_quick, self.n_thorough, self.func = (
            name, n_quick, n_thorough, func)


def jsonable(o, depth=0):
    if depth > 6:
        return repr(o)[:200]
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(o.items())[:60]}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in list(o)[:60]]
    if isinstance(o, np.ndarray):
        if o.dtype == object or o.size > 400:
            return {'shape': list(o.shape), 'dtype': str(o.dtype),
                    'head': jsonable(o.ravel()[:20].tolist(), depth + 1)}
        return jsonable(o.tolist(), depth + 1)
    if isinstance(o, (bool, int, str)) or o is None:
        return o
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, (float, np.floating)):
        f = float(o)
        return f if np.isfinite(f) else repr(f)
    return repr(o)[:300]


class Ctx:
    MAX_VIOLATIONS = 12

    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.obs = {}
        self.waived = set()
        self.evaluations = 0
        self.oracle_verdicts = 0
        self.distinct = set()
        self.trivial = 0
        self.samples = []
        self.violations = []
        self.skipped = 0
        self.cur = None
        self.case_desc = None
        self.case_distinct = None
        self.scratch = None
        self.max_values = {}

    # ---- used by checks -------------------------------------------------
    def rng_for(self, stream, i):
        key = zlib.crc32(f'{self.prop}/{stream}'.encode())
        return np.random.default_rng([self.seed, key, i])

    def observe(self, name, n=1):
        self.obs[name] = self.obs.get(name, 0) + int(n)

    def internal(self, module, name, params, *counts):
        """Function that is no public interface, or None where the code has
        been rearranged: then the counts that need it are not asked for."""
        import importlib
        import inspect
        try:
            obj = importlib.import_module(module)
            for part in name.split('.'):
                obj = getattr(obj, part)
            func = getattr(obj, 'py_func', obj)
            if list(inspect.signature(func).parameters) == params:
                return obj
        except (ImportError, AttributeError, TypeError, ValueError):
            pass
        self.waived.update(counts)
        self.observe('not_there:' + name)
        return None

    def record_max(self, name, value):
        """Largest deviation from the oracle seen: the margin of a tolerance."""
        value = float(value)
        if value > self.max_values.get(name, -np.inf):
            self.max_values[name] = value

    def describe(self, distinct=None, **desc):
        """Describe the current case; `distinct` None marks it trivial."""
        self.case_desc = desc
        self.case_distinct = distinct

    def check(self, cond, mechanism, **detail):
        """One verdict of the oracle about one observation."""
        self.oracle_verdicts += 1
        self.observe('verdict:' + mechanism)
        if not bool(cond):
            self.fail(mechanism, **detail)

    def fail(self, mechanism, **detail):
        self._record(mechanism, detail)
        raise Violation(mechanism)

    def close(self, got, want, mechanism, atol=1e-9, rtol=0., **detail):
        got = np.asarray(got)
        want = np.asarray(want)
        self.oracle_verdicts += 1
        self.observe('verdict:' + mechanism, max(1, want.size))
        ok = got.shape == want.shape
        if ok and want.size:
            g = got.astype(float)
            w = want.astype(float)
            nan = np.isnan(w)
            ok = np.array_equal(np.isnan(g), nan)
            if ok:
                err = np.abs(g - w)[~nan]
                tol = (atol + rtol * np.abs(w))[~nan]
                if err.size:
                    with np.errstate(all='ignore'):
                        same = g[~nan] == w[~nan]
                        bad = ~((err <= tol) | same)
                        ratio = np.where(same, 0, err)
                    ok = not bad.any()
                    if ok:
                        self.record_max(mechanism, np.max(ratio))
        if not ok:
            self.fail(mechanism, got=got, want=want, **detail)

    def equal(self, got, want, mechanism, **detail):
        got = np.asarray(got)
        want = np.asarray(want)
        self.oracle_verdicts += 1
        self.observe('verdict:' + mechanism, max(1, want.size))
        ok = got.shape == want.shape
        if ok:
            if want.dtype.kind == 'f' and got.dtype.kind == 'f':
                ok = np.array_equal(got, want, equal_nan=True)
            else:
                ok = np.array_equal(got, want)
        if not ok:
            self.fail(mechanism, got=got, want=want, **detail)

    @contextlib.contextmanager
    def raises(self, exc, mechanism, **detail):
        """The code must refuse: raise one of `exc` (or a subclass)."""
        self.oracle_verdicts += 1
        self.observe('verdict:' + mechanism)
        try:
            yield
        except exc:
            return
        except (Violation, CaseOverrun):
            raise
        except Exception as e:
            self.fail(mechanism, **{**detail, 'raised': repr(e),
                                    'exception_wanted': str(exc)})
        else:
            self.fail(mechanism, **{**detail, 'raised': None,
                                    'exception_wanted': str(exc)})

    # ---- machinery ------------------------------------------------------
    def _record(self, mechanism, detail):
        if len(self.violations) < self.MAX_VIOLATIONS:
            self.violations.append({
                'property': self.prop, 'mechanism': mechanism,
                'stream': self.cur[0] if self.cur else None,
                'index': self.cur[1] if self.cur else None,
                'seed': self.seed, 'tier': self.tier,
                'case': jsonable(self.case_desc),
                'detail': jsonable(detail),
            })

    def run_case(self, stream, i):
        self.cur = (stream.name, i)
        self.case_desc, self.case_distinct = None, None
        rng = self.rng_for(stream.name, i)
        out = io.StringIO()
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
        try:
            with contextlib.redirect_stdout(out):
                stream.func(self, rng, i)
        except Violation:
            pass
        except Skip:
            self.skipped += 1
            return
        except CaseOverrun:
            self._record('no_progress', {
                'what': f'case used more than {CASE_CPU_LIMIT:.0f} s of CPU '
                        f'without finishing'})
        except MemoryError:
            raise
        except Exception as e:
            self._record('unexpected_exception', {
                'exception': repr(e)[:500],
                'traceback': traceback.format_exc()[-3500:]})
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        self.evaluations += 1
        self.observe('stream:' + stream.name)
        if self.case_distinct is not None:
            h = hashlib.sha1(repr((stream.name, jsonable(self.case_distinct))
                                  ).encode()).hexdigest()
            new = h not in self.distinct
            self.distinct.add(h)
        else:
            self.trivial += 1
            new = False
        if new and sum(s['stream'] == stream.name for s in self.samples) < 2:
            self.samples.append({'stream': stream.name, 'index': i,
                                 'case': jsonable(self.case_desc)})


def _overrun(signum, frame):
    raise CaseOverrun()


def install_signal():
    signal.signal(signal.SIGPROF, _overrun)
