"""C36: a failed, refused or interrupted step leaves the analysis usable."""
import ast
import dis
import os
import sys
from pathlib import Path

import matplotlib.pyplot as plt
import numpy as np

import defdap
from checks import c29
from checks.c29 import plain
from vt import build, gui
from vt.core import Skip, Stream
from defdap import ebsd, hrdic
from defdap.experiment import Experiment

PROPERTY = 'C36'
RULE = ('analysis steps on an EBSD map and a linked DIC map stopped by an '
        'exception raised at a random line of the code they execute, then '
        'repeated, against a twin analysis that was never stopped; refused '
        'requests; files that fail or are stopped while loading; distinct by '
        'step, point of failure and map')
ASSUMPTIONS = [
    'a step is stopped by an exception (Ctrl-C, out of memory); the process '
    'itself goes on; it is stopped where something is called, so not between '
    'assignments next to each other, nor in clean-up clauses (finally)',
    'steps that move a whole map in place (rotate_data, set_crop) are not '
    'stopped half way, only refused',
    'a DIC map with a single row or column, whose file loads but which has '
    'no displacement gradient, is not judged']
REQUIRE = {'verdict:kept': 4000, 'verdict:repeat': 60, 'verdict:same': 60,
           'stopped': 60, 'distinct_points': 40, 'distinct_steps': 12,
           'verdict:refused': 100, 'verdict:unchanged': 2000,
           'verdict:load_stopped': 20, 'verdict:experiment': 60,
           'verdict:reload': 20}


class Stop(KeyboardInterrupt):
    pass


class NoMemory(MemoryError):
    pass


def setup(ctx):
    gui.no_rendering()


# ---- failure injection -----------------------------------------------------
PKG = os.path.dirname(os.path.abspath(defdap.__file__)) + os.sep


def _clean_up(path):
    """Lines of clean-up clauses, which Python offers no way to protect."""
    out = set()
    for node in ast.walk(ast.parse(Path(path).read_text())):
        for s in getattr(node, 'finalbody', []):
            out.update(range(s.lineno, s.end_lineno + 1))
    return out


CLEAN_UP = {}
CALLS = {}


def _calls(code):
    """Lines that call something: what fails or is stopped is a call, while
    assignments next to each other are made together."""
    out, line = set(), None
    for ins in dis.get_instructions(code):
        line = getattr(ins.positions, 'lineno', None) or line
        if ins.opname.startswith('CALL'):
            out.add(line)
    return out



class Lines:
    """Lines of the package executed inside, raising at a chosen one."""

    def __init__(self, at=None, exc=None):
        self.at, self.exc = at, exc
        self.count = {}
        self.hit = False

    def _call(self, frame, event, arg):
        return self._line if frame.f_code.co_filename.startswith(PKG) else None

    def _line(self, frame, event, arg):
        if event == 'line' and not self.hit:
            path = frame.f_code.co_filename
            if path not in CLEAN_UP:
                CLEAN_UP[path] = _clean_up(path)
            code = frame.f_code
            if code not in CALLS:
                CALLS[code] = _calls(code)
            if frame.f_lineno in CLEAN_UP[path] or \
                    frame.f_lineno not in CALLS[code]:
                return self._line
            key = (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
            n = self.count[key] = self.count.get(key, 0) + 1
            if self.at == (key, n):
                self.hit = True
                raise self.exc('injected')
        return self._line

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self._call)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)


def pick(rng, count):
    """(line, occurrence): every line equally likely, or every event."""
    keys = sorted(count)
    if not keys:
        return None
    w = np.array([count[k] for k in keys], float)
    p = w / w.sum() if rng.random() < .3 else None
    k = keys[rng.choice(len(keys), p=p)]
    n = count[k]
    return k, int(rng.choice([1, n, rng.integers(1, n + 1)]))


# ---- steps beyond those of c29 ---------------------------------------------

def s_generate(w, r, m):
    if m is w.d and m is not None:
        k = r.integers(3)
        if k == 0:
            return m.data.generate('mask', mask=w.arg(r.random(m.shape) < .2),
                                   return_val=True)
        return m.data.generate(
            'grains', algorithm=['warp', 'floodfill'][k - 1],
            min_grain_size=int(r.integers(1, 4)), return_val=True)
    k = r.integers(7)
    if k == 0:
        return m.data.generate('grain_boundaries',
                               misori_tol=float(r.choice([2, 10, 30])),
                               return_val=True)
    if k in (1, 2):
        return m.data.generate('grains', min_grain_size=int(r.integers(1, 5)),
                               return_val=True)
    name = ['KAM', 'GND', 'Nye_tensor', 'phase_boundaries'][k - 3]
    return m.data.generate(name, return_val=True)


def s_filter(w, r, m):
    return w.e.filter_data(misori_tol=float(r.choice([2, 5, 20])))


def s_link(w, r, m):
    if w.d is None:
        return None
    t = str(r.choice(['affine', 'projective', 'polynomial']))
    w.d.link_ebsd_map(w.e, transform_type=t,
                      **({'order': 1} if t == 'polynomial' else {}))
    return w.d.data.grain_boundaries


def s_points(w, r, m):
    f = (m or w.e).frame
    pts = w.arg([tuple(float(v) for v in p)
                 for p in r.integers(0, 9, (4, 2)) + .5])
    keep = list(f.homog_points)
    f.set_homog_points(pts)
    got = list(f.homog_points)
    f.set_homog_points(keep)
    return got


def s_proxigram(w, r, m):
    if not len(m.data.grain_boundaries.points):
        return None
    return m.proxigram


def s_schmid(w, r, m):
    e = w.e
    if any(g.phase is None or g.phase.slip_systems is None for g in e):
        return None
    e.calc_average_grain_schmid_factors(w.arg(r.normal(size=3)))
    return [g.average_schmid_factors for g in e]


def s_traces(w, r, m):
    out = []
    for g in w.e:
        if g.phase is not None and g.phase.slip_systems is not None:
            g.calc_slip_traces()
            out.append([list(map(float, g.slip_traces)),
                        g.slip_trace_inclinations])
    return out


STEPS = [s_generate] * 6 + [s_filter, s_link, s_link, s_proxigram, s_schmid,
                            s_traces] + \
    [c29.o_access] * 3 + [
    c29.o_plot_map, c29.o_colours, c29.o_bound_plots, c29.o_mis_map,
    c29.o_data_map, c29.o_data_ipf, c29.o_to_map, c29.o_profile,
    c29.o_grain_data, c29.o_grain_plot, c29.o_oris, c29.o_oris, c29.o_slip,
    c29.o_schmid_map, c29.o_network, c29.o_proxigram, c29.o_frames,
    c29.o_regenerate, c29.o_highlight, c29.o_click]
POINTS, NAMES = set(), set()
# what is a consequence of looking at things and no data
VOLATILE = ()


# those that leave something behind
CHANGES = [s_generate] * 3 + [s_filter, s_filter, s_link, s_proxigram,
                              s_schmid, s_traces, c29.o_oris, c29.o_oris,
                              c29.o_slip, c29.o_network, c29.o_mis_map,
                              c29.o_data_ipf]


def run(w, step, seed, mm):
    m = w.d if mm == 'd' else w.e
    w.args = []
    np.random.seed(1)
    try:
        return plain(step(w, np.random.default_rng(seed), m))
    except (Stop, NoMemory):
        raise
    except Exception as e:
        # not possible at this point of the analysis
        return 'raised', type(e).__name__
    finally:
        plt.close('all')


def snap(w):
    out = w.snapshot()
    for m, pre in ((w.e, 'e'), (w.d, 'd')):
        if m is not None and m._grains is not None:
            out[pre + '.n'] = plain(len(m))
            for g in m:
                for a in ('average_schmid_factors', 'rdr', 'phase_id'):
                    if getattr(g, a, None) is not None:
                        out[f'{pre}g{g.grain_id}.{a}'] = plain(getattr(g, a))
    net = w.e.neighbour_network
    if net is not None:
        out['e.network'] = plain(sorted(
            (sorted((p.grain_id, q.grain_id)), len(x['boundary']))
            for p, q, x in net.edges(data=True)))
    if w.d is not None:
        out['d.linked'] = plain(w.d.ebsd_map is w.e)
        out['d.relations'] = plain(sorted(
            (a is w.d.frame, b is w.e.frame, plain(v)) for (a, b), v in
            w.d.experiment.frame_relations.items()))
    return out


def differ(a, b):
    return [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]


def s_stop(ctx, rng, i, steps=STEPS, stops=(0, 1, 1, 2)):
    seed0 = int(rng.integers(2 ** 31))
    dic = i % 2 == 1
    a = c29.World(ctx, np.random.default_rng(seed0), dic)
    b = c29.World(ctx, np.random.default_rng(seed0), dic)
    n = int(rng.integers(4, 9))
    done = []
    ctx.describe(distinct=[a.spec.shape, i], shape=a.spec.shape, dic=dic,
                 steps=done)
    # every read must give the same on both sides
    sa, sb = snap(a), snap(b)
    ctx.check(not differ(sa, sb), 'same', differ=differ(sa, sb)[:5])
    for _ in range(n):
        step = steps[rng.integers(len(steps))]
        mm = 'd' if a.d is not None and rng.random() < .5 else 'e'
        seed = int(rng.integers(2 ** 31))
        with Lines() as t:
            want = run(b, step, seed, mm)
        ctx.observe('not_possible', want[0] == 'raised')
        sb2 = snap(b)
        count = t.count
        at = stop = None
        got = None
        for _ in range(int(rng.choice(stops))):
            at, stop = pick(rng, count), None
            if at is None:
                break
            exc = [Stop, NoMemory][rng.integers(2)]
            done.append([step.__name__, mm, str(at), exc.__name__])
            with Lines(at, exc) as t:
                try:
                    got = run(a, step, seed, mm)
                except (Stop, NoMemory):
                    stop = 'stopped'
            if not t.hit:
                # lines of the first run only
                ctx.observe('point_not_reached')
                break
            if stop is None:
                # caught inside: a complete result, or another exception
                stop = 'other' if got != want and got[0] == 'raised' \
                    else 'swallowed'
            ctx.observe(stop)
            if stop == 'swallowed':
                break
            for seen, key, name in ((POINTS, at[0], 'distinct_points'),
                                    (NAMES, step.__name__, 'distinct_steps')):
                if key not in seen:
                    seen.add(key)
                    ctx.observe(name)
            # each item is as it was before or as after the complete step
            now = snap(a)
            for k in sorted(set(now) | set(sa)):
                if now.get(k) not in (sa.get(k), sb2.get(k)):
                    ctx.fail('kept', step=step.__name__, on=mm, at=str(at),
                             item=k, before=repr(sa.get(k))[:300],
                             after=repr(now.get(k))[:300],
                             complete=repr(sb2.get(k))[:300])
            ctx.oracle_verdicts += 1
            ctx.observe('verdict:kept', len(now))
            if step is s_filter and now.get('e:orientation') == \
                    sb2['e:orientation'] != sa.get('e:orientation'):
                # filtered already: again would filter twice
                got, stop = want, 'complete'
                break
        else:
            done.append([step.__name__, mm])
        if stop not in ('swallowed', 'complete') and not (
                at is not None and stop is None):
            got = run(a, step, seed, mm)
        ctx.check(got == want, 'repeat', step=step.__name__, on=mm,
                  at=str(at), how=stop, want=repr(want)[:400],
                  got=repr(got)[:400])
        sa, sb = snap(a), sb2
        d = differ(sa, sb)
        ctx.check(not d, 'same', step=step.__name__, on=mm, at=str(at),
                  how=stop, differ=d[:5], want=repr([sb.get(k) for k in d[:2]]),
                  got=repr([sa.get(k) for k in d[:2]]))


def s_change(ctx, rng, i):
    s_stop(ctx, rng, i, CHANGES, (2, 4, 7))


# ---- refused requests ------------------------------------------------------

def refusals(w, r):
    e, d = w.e, w.d
    n = len(e)
    h, wd = e.shape
    L = [
        ('unknown data', lambda: e.data['nothing']),
        ('unknown attribute', lambda: e.data.nothing),
        ('unknown metadata', lambda: e.data['phase', 'nothing']),
        ('no generator', lambda: e.data.generate('phase')),
        ('add existing', lambda: e.data.add('phase', np.zeros(e.shape))),
        ('bad tolerance', lambda: e.data.generate('grain_boundaries',
                                                  misori_tol='wide')),
        ('bad grain size', lambda: e.data.generate('grains',
                                                   min_grain_size='big')),
        ('bad argument', lambda: e.data.generate('KAM', nothing=1)),
        ('map of unknown', lambda: e.plot_map('nothing')),
        ('component', lambda: e.plot_map('euler_angle', 'nothing')),
        ('tensor component', lambda: e.plot_map('euler_angle', (0, 1))),
        ('scalar component', lambda: e.plot_map('phase', (0,))),
        ('too few values', lambda: e.grain_data_to_map_data([1.] * (n + 1))),
        ('too many ids', lambda: e.grain_data_to_map_data(
            [1.], grain_ids=list(range(n)) + [0])),
        ('rgb of four', lambda: e.grain_data_to_map_data(np.ones((n, 4)))),
        ('no such grain', lambda: e[n]),
        ('grain list of unknown', lambda: e[0].plot_map('nothing')),
        ('nothing to plot', lambda: e.plot_grain_data_map()),
        ('nothing to plot', lambda: e.plot_grain_data_ipf(
            np.array([0, 0, 1]))),
        ('bad centre', lambda: e[0].centre_coords('middle')),
        ('bad load direction', lambda: e[0].calc_average_schmid_factors(
            np.array([1., 0]))),
        ('save type', lambda: e.save(build.scratch_file(w.scratch, ''),
                                     data_type='nothing')),
        ('save folder', lambda: e.save('x', file_dir=str(
            Path(w.scratch) / 'no such folder'))),
        ('point index', lambda: e.frame.update_homog_points(99, (1, 1))),
        ('point index type', lambda: e.frame.update_homog_points(.5, (1, 1))),
        ('point delta', lambda: e.frame.update_homog_points(
            int(r.choice([0, -1])), delta=(1., 'a')) if e.frame.homog_points
            else e.data['nothing']),
        ('point nothing', lambda: e.frame.update_homog_points(0)),
        ('points nothing', lambda: e.frame.update_homog_points(-1)),
        ('points', lambda: e.frame.set_homog_points([(1, 2), 3])),
        ('axis', lambda: e.plot_ipf_map('up')),
        ('derive from itself', lambda: e.data.update(3)),
    ]
    if d is not None:
        k = str(r.choice(['left', 'right', 'top', 'bottom']))
        crop = {s: int(r.integers(0, 3)) for s in
                ('left', 'right', 'top', 'bottom')}
        crop[k] = ['wide', [1, 2], np.nan][r.integers(3)]
        L += [('crop', lambda: d.set_crop(**crop, update_homog_points=bool(
            r.integers(2))))] * 6
        L += [
            ('crop argument', lambda: d.set_crop(left=1, front=2)),
            ('mask shape', lambda: d.data.generate(
                'mask', mask=np.zeros((d.shape[0] + 1, d.shape[1]), bool))),
            ('mask type', lambda: d.data.generate('mask', mask='all')),
            ('algorithm', lambda: d.data.generate('grains',
                                                  algorithm='nothing')),
            ('grain size', lambda: d.data.generate(
                'grains', algorithm='floodfill', min_grain_size='big')),
            ('no correlation file', lambda: d.load_corr_val_data(
                Path(w.scratch) / 'no such file')),
            ('correlation type', lambda: d.load_corr_val_data(
                'x', data_type='nothing')),
            ('bad component', lambda: d.plot_map('e', (0, 1, 2))),
            ('table', lambda: d.print_stats_table([101.], ['e'])),
            ('table', lambda: d.print_stats_table([1.], ['nothing'])),
        ]
        if not d.data.get_metadata('pattern', 'path'):
            L.append(('no pattern', lambda: d.data.pattern))
        else:
            L.append(('pattern file', lambda: d.data.pattern))
    return L


def corr_file(ctx, rng, shape):
    p = build.scratch_file(ctx.scratch, '.txt')
    a = rng.random(shape)
    with open(p, 'w') as f:
        f.write('header\n')
        for row in a:
            f.write('\t'.join('%.6f' % v for v in row) + '\n')
    return p, a


def s_refused(ctx, rng, i):
    w = c29.World(ctx, rng, i % 3 != 0)
    names = []
    ctx.describe(distinct=[w.spec.shape, i], shape=w.spec.shape, tried=names)
    before = snap(w)
    for _ in range(int(rng.integers(8, 16))):
        L = refusals(w, rng)
        what, f = L[rng.integers(len(L))]
        names.append(what)
        with ctx.raises(Exception, 'refused', what=what):
            try:
                f()
            finally:
                plt.close('all')
        after = snap(w)
        # lazily calculated data may have been needed on the way
        for k in before:
            if after.get(k) != before[k]:
                ctx.fail('unchanged', what=what, changed=k,
                         before=repr(before[k])[:300],
                         after=repr(after.get(k))[:300])
        ctx.oracle_verdicts += 1
        ctx.observe('verdict:unchanged', len(before))
        before = after
        if w.d is not None:
            d = w.d
            # what is cropped fits the map
            ctx.check(tuple(d.data.e.shape[2:]) == tuple(d.shape), 'fits',
                      what=what, got=d.data.e.shape, want=tuple(d.shape))


def s_corr(ctx, rng, i):
    """Correlation values refused for their size do not replace others."""
    shape = tuple(int(v) for v in rng.integers(3, 8, 2))
    d = build.dic_map(ctx.scratch, build.smooth_disp(rng, shape), 4)
    made = []
    ctx.describe(distinct=[shape, i], shape=shape)
    try:
        good, a = corr_file(ctx, rng, shape)
        made.append(good)
        d.load_corr_val_data(good)
        ctx.close(d.corr_val, a, 'corr', atol=1e-5)
        k = rng.integers(3)
        bad_shape = [(shape[0] + 1, shape[1]), (shape[0], shape[1] - 1),
                     (shape[0] - 1, shape[1] + 2)][k]
        bad, _ = corr_file(ctx, rng, bad_shape)
        made.append(bad)
        with ctx.raises(Exception, 'refused', shape=shape, file=bad_shape):
            d.load_corr_val_data(bad)
        ctx.close(d.corr_val, a, 'corr', atol=1e-5)
    finally:
        for p in made:
            os.path.exists(p) and os.remove(p)


# ---- loading ---------------------------------------------------------------

def s_load(ctx, rng, i):
    kind = i % 3
    made = []
    spec = build.ebsd_spec(rng, max_dim=8)
    disp = build.smooth_disp(rng, tuple(int(v) for v in
                                        rng.integers(3, 8, 2)))
    if kind == 0:
        m = build.ebsd_map(spec)
        p = build.scratch_file(ctx.scratch, '')
        m.save(p)
        name = p + '.ctf' if os.path.exists(p + '.ctf') else None
        if name is None:
            raise Skip()
        made.append(name)

        def make(**kw):
            return ebsd.Map(name, **kw)
    elif kind == 1:
        given = build.ebsd_dict(spec)

        def make(**kw):
            return ebsd.Map(given, data_type='PythonDict', **kw)
    else:
        name = build.scratch_file(ctx.scratch, '.txt')
        build.write_davis(name, build.dic_coords(disp.shape[1:], 4), disp, 4)
        made.append(name)

        def make(**kw):
            return hrdic.Map(name, **kw)

    def world():
        exp = Experiment()
        return exp, [exp.add_increment(k=k) for k in range(2)]

    def listed(exp):
        return [(plain(inc.metadata), sorted(
            (k, id(v)) for k, v in inc.maps.items()))
            for inc in exp.increments]

    try:
        # a complete load, to know the lines
        exp, incs = world()
        with Lines() as t:
            ref = make(experiment=exp)
        ctx.describe(distinct=[kind, i], kind=kind)
        want = c29.store(ref.data, '')
        # what is executed before the map joins the experiment
        files = [k for k in t.count if k[0] in ('file_readers.py',)]
        for _ in range(3):
            exp, incs = world()
            # maps already there stay
            first = make(increment=incs[0])
            kw = [{'experiment': exp}, {'increment': incs[1]},
                  {'increment': incs[0]},
                  {}][rng.integers(4)]
            x = defdap.anonymous_experiment if not kw else exp
            before = listed(x)
            bad = rng.random() < .35
            if bad:
                wrong = [('no such file.ctf', None), ('x.ctf', 'nothing'),
                         ('no such file.txt', 'Davis')][rng.integers(3)]
                cls = ebsd.Map if wrong[1] != 'Davis' else hrdic.Map
                with ctx.raises(Exception, 'refused', wrong=wrong):
                    cls(str(Path(ctx.scratch) / wrong[0]),
                        data_type=wrong[1], **kw)
            else:
                part = {k: v for k, v in t.count.items() if k in files}
                at = pick(rng, part or t.count)
                exc = [Stop, NoMemory][rng.integers(2)]
                with Lines(at, exc) as t2:
                    ctx.oracle_verdicts += 1
                    try:
                        make(**kw)
                    except (Stop, NoMemory):
                        pass
                    except Exception:
                        if not t2.hit:
                            raise
                    else:
                        if t2.hit:
                            ctx.fail('load_stopped', at=str(at),
                                     what='a stopped load gave a map')
                if not t2.hit:
                    ctx.observe('point_not_reached')
                    continue
                ctx.observe('verdict:load_stopped')
            ctx.check(listed(x) == before, 'experiment', kw=list(kw),
                      before=before, after=listed(x))
            m = make(**kw)
            d = differ(c29.store(m.data, ''), want)
            ctx.check(not d, 'reload', differ=d)
            now = [sorted(inc.maps) for inc in x.increments]
            if 'increment' not in kw:
                ctx.check(len(now) == len(before) + 1 and
                          x.increments[-1].maps == {type(m).MAPNAME: m},
                          'experiment', got=now)
            else:
                ctx.check(m.increment is kw['increment'] and
                          m.increment.maps[type(m).MAPNAME] is m and
                          len(now) == len(before), 'experiment', got=now)
    finally:
        for p in made:
            os.path.exists(p) and os.remove(p)


STREAMS = [Stream('stop', 40, 1500, s_stop),
           Stream('change', 40, 1500, s_change),
           Stream('refused', 30, 600, s_refused),
           Stream('corr', 10, 100, s_corr),
           Stream('load', 24, 500, s_load)]
