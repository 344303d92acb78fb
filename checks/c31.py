"""C31: experiments keep increments, maps, frames and points apart."""
import numpy as np

import defdap
from vt import build, gui
from vt.core import Stream
from defdap import ebsd, hrdic
from defdap.experiment import Experiment, Frame

PROPERTY = 'C31'
RULE = ('histories of adding increments and maps to several experiments, of '
        'setting, selecting (mouse), moving (keys), saving (button), updating '
        'and shifting homologous points of several maps with own and shared '
        'frames, against a model; distinct by history')
ASSUMPTIONS = ['pixels are not rendered; mouse positions go through the real '
               'axes', 'points are saved rounded to whole map points']
REQUIRE = {'verdict:increments': 200, 'verdict:iter': 200,
           'verdict:owner': 100, 'verdict:points': 200, 'op:save': 40,
           'op:key': 40, 'op:select': 40, 'verdict:refused': 40,
           'binned': 10, 'shared_frame': 5, 'nothing_selected': 10,
           'verdict:shown': 60, 'replaced_map': 3,
           'verdict:link': 200, 'verdict:unlinked': 100, 'links': 20,
           'relinked': 10, 'moved': 10}


def setup(ctx):
    gui.no_rendering()


def s_experiment(ctx, rng, i):
    exps = [Experiment() for _ in range(int(rng.integers(1, 4)))]
    model = [[] for _ in exps]       # per experiment: list of (inc, maps)
    names = ['ebsd', 'dic', 'before', 'x']
    anon = len(defdap.anonymous_experiment.increments)
    anon_added = 0
    hist = []

    def make(kind, **kw):
        if kind == 'e':
            return ebsd.Map(build.ebsd_dict(build.ebsd_spec(
                rng, shape=(2, 3), min_cells=2)), data_type='PythonDict', **kw)
        p = build.write_davis(build.scratch_file(ctx.scratch, '.txt'),
                              build.dic_coords((2, 3), 4),
                              rng.normal(size=(2, 2, 3)), 4)
        return hrdic.Map(p, **kw)

    for _ in range(int(rng.integers(5, 16))):
        op = rng.choice(['inc', 'map', 'map', 'own', 'bad', 'anon'],
                        p=[.3, .25, .15, .15, .1, .05])
        hist.append(str(op))
        e = int(rng.integers(len(exps)))
        kind = str(rng.choice(['e', 'd']))
        default = {'e': 'ebsd', 'd': 'hrdic'}[kind]
        if op == 'inc':
            meta = {str(k): float(rng.normal()) for k in
                    rng.choice(['load', 'time', 'b', 'cycle', 'a', 'rate',
                                'temp', 'z'], int(rng.choice([0, 1, 2, 9])))}
            inc = exps[e].add_increment(**meta)
            model[e].append((inc, {}, meta))
            ctx.check(inc.metadata == meta, 'metadata')
        elif op == 'map' and model[e]:
            k = int(rng.integers(len(model[e])))
            inc = model[e][k][0]
            name = str(rng.choice(names)) if rng.random() < .7 else None
            kw = {} if rng.random() < .5 else {'experiment': exps[e]}
            m = make(kind, increment=inc, map_name=name, **kw)
            key = type(m).MAPNAME if name is None else name
            ctx.observe('replaced_map', key in model[e][k][1])
            model[e][k][1][key] = m
            ctx.check(m.increment is inc and m.experiment is exps[e], 'owner')
        elif op == 'own':
            m = make(kind, experiment=exps[e])
            model[e].append((m.increment, {type(m).MAPNAME: m}, {}))
            ctx.check(m.experiment is exps[e] and
                      m.increment.experiment is exps[e], 'owner')
        elif op == 'anon':
            m = make(kind)
            anon_added += 1
            a = defdap.anonymous_experiment
            ctx.check(m.experiment is a and m.increment is a[-1], 'owner')
        elif op == 'bad' and model[e]:
            # increment of another experiment
            other = Experiment()
            with ctx.raises(Exception, 'refused'):
                make(kind, increment=model[e][0][0], experiment=other)
            ctx.check(len(other.increments) == 0, 'increments')
        for x, mod in zip(exps, model):
            ctx.check(len(x.increments) == len(mod) and
                      all(a is b[0] for a, b in zip(x.increments, mod)),
                      'increments')
            for k, (inc, maps, meta) in enumerate(mod):
                ctx.check(x[k] is inc and inc.experiment is x and
                          inc.metadata == meta, 'increments')
                ctx.check(set(inc.maps) == set(maps) and
                          all(inc.maps[n] is maps[n] for n in maps), 'maps',
                          got=list(inc.maps), want=list(maps))
            for n in names + ['hrdic', 'nothing']:
                got = list(x.iter_over_maps(n))
                want = [(k, mp[n]) for k, (_, mp, _) in enumerate(mod)
                        if n in mp]
                ctx.check(len(got) == len(want) and all(
                    a == c and b is d for (a, b), (c, d) in zip(got, want)),
                    'iter', name=n)
        ctx.check(len(defdap.anonymous_experiment.increments) ==
                  anon + anon_added, 'increments')
    # maps of different increments have their own frames
    frames = [m.frame for mod in model for _, mp, _ in mod
              for m in mp.values()]
    ctx.check(len({id(f) for f in frames}) == len(frames), 'frames')
    frames2 = [f for f in frames if isinstance(f, Frame)]
    if len(frames2) > 1:
        a, b = frames2[0], frames2[-1]
        with ctx.raises(ValueError, 'refused'):
            exps[0].get_frame_transform(a, b)
    ctx.describe(distinct=hist, history=hist, experiments=len(exps))


KINDS = [{'type': 'affine'}, {'type': 'projective'},
         {'type': 'polynomial', 'order': 1}, {'type': 'piecewise_affine'},
         {'type': 'piecewiseaffine'}]


def s_links(ctx, rng, i):
    """Links of several frames in several experiments, points moved since."""
    base = np.array([(0., 0), (30, 0), (30, 20), (0, 20), (11, 7), (21, 13),
                     (9, 16)])[rng.permutation(7)]

    def place():
        a = np.eye(2) + rng.uniform(-.2, .2, (2, 2))
        return base @ a.T + rng.uniform(-9, 9, 2)

    exps = [Experiment() for _ in range(int(rng.integers(1, 4)))]
    frames = [Frame() for _ in range(int(rng.integers(3, 6)))]
    pts = []
    for f in frames:
        pts.append(place())
        f.set_homog_points([tuple(p) for p in pts[-1]])
    linked = [{} for _ in exps]
    hist = []
    pairs = [(a, b) for a in range(len(frames)) for b in range(a)]
    for _ in range(int(rng.integers(4, 10))):
        op = str(rng.choice(['link', 'link', 'link', 'again', 'move']))
        e = int(rng.integers(len(exps)))
        if op == 'link':
            free = [p for p in pairs if p not in linked[e]]
            if not free:
                continue
            p = free[rng.integers(len(free))]
            fwd = bool(rng.integers(2))
        elif op == 'again' and linked[e]:
            p = list(linked[e])[rng.integers(len(linked[e]))]
            fwd = linked[e][p][0]
            ctx.observe('relinked')
        elif op == 'move':
            k = int(rng.integers(len(frames)))
            pts[k] = place()
            frames[k].set_homog_points([tuple(q) for q in pts[k]])
            ctx.observe('moved', any(k in p for x in linked for p in x))
            hist.append(op)
            continue
        else:
            continue
        props = KINDS[rng.integers(len(KINDS))]
        a, b = p if fwd else p[::-1]
        exps[e].link_frames(frames[a], frames[b], dict(props))
        linked[e][p] = (fwd, props['type'])
        hist.append((op, e, a, b, props['type']))
    for x, mod in zip(exps, linked):
        ctx.observe('links', len(mod) > 1)
        for p in pairs:
            for a, b in (p, p[::-1]):
                if p not in mod:
                    with ctx.raises(ValueError, 'unlinked'):
                        x.get_frame_transform(frames[a], frames[b])
                    continue
                t = x.get_frame_transform(frames[a], frames[b])
                ctx.check(np.allclose(t(pts[a]), pts[b], rtol=0, atol=1e-6),
                          'link', pair=(a, b), kind=mod[p], history=hist)
                want = {'aff': 'Affine', 'pro': 'Projective',
                        'pol': 'Polynomial', 'pie': 'PiecewiseAffine'}[
                            mod[p][1][:3]] + 'Transform'
                ctx.check(type(t).__name__ == want, 'link_kind',
                          got=type(t).__name__, want=want)
    ctx.describe(distinct=hist, history=hist, frames=len(frames),
                 experiments=len(exps))


def whole(points):
    return [tuple(float(v) for v in p) for p in points]


def offsets(layer):
    o = layer.get_offsets()
    o = np.ma.filled(np.ma.asarray(o, float), np.nan)
    return [tuple(p) for p in o if not np.isnan(p).any()]


def s_points(ctx, rng, i):
    shape = tuple(int(v) for v in rng.integers(6, 16, 2))
    e = build.ebsd_map(build.ebsd_spec(rng, shape=shape, min_cells=3,
                                       nonindexed='none'))
    d = build.dic_map(ctx.scratch, build.smooth_disp(rng, shape), binning=4)
    binning = int(rng.choice([1, 2, 4]))
    d.data.add('fine', rng.normal(size=(shape[0] * binning,
                                        shape[1] * binning)),
               type='map', order=0, binning=binning)
    maps = [e, d]
    if rng.random() < .4:
        # another map in the frame of one of these
        maps.append(build.ebsd_map(build.ebsd_spec(
            rng, shape=shape, min_cells=3, nonindexed='none'),
            frame=maps[rng.integers(2)].frame))
        ctx.observe('shared_frame')
    frames = [m.frame for m in maps]
    uniq = []
    for f in frames:
        if not any(f is g for g in uniq):
            uniq.append(f)
    idx = [next(k for k, g in enumerate(uniq) if f is g) for f in frames]
    model = [[] for _ in uniq]
    hist = []
    shared = None

    def check():
        for f, want in zip(uniq, model):
            ctx.check(whole(f.homog_points) == whole(want), 'points',
                      got=f.homog_points, want=want, history=hist)

    try:
        for _ in range(int(rng.integers(4, 10))):
            op = str(rng.choice(['set', 'plot', 'plot', 'update', 'delta',
                                 'all', 'bad'],
                                p=[.15, .3, .15, .12, .1, .1, .08]))
            k = int(rng.integers(len(maps)))
            u, f, m = idx[k], frames[k], maps[k]
            hist.append(op)
            if op == 'set':
                pts = [tuple(int(v) for v in rng.integers(0, 20, 2))
                       for _ in range(int(rng.choice([0, 1, 2, 3, 4, 13])))]
                if shared is not None and rng.random() < .5:
                    pts = shared          # one list given to several frames
                kind = rng.integers(3)
                shared = pts
                arg = pts if kind else np.array(pts).reshape(-1, 2)
                model[u] = list(pts)
                f.set_homog_points(arg)
            elif op == 'update' and model[u]:
                j = int(rng.integers(len(model[u])))
                p = tuple(int(v) for v in rng.integers(0, 20, 2))
                f.update_homog_points(j, new_point=p)
                model[u][j] = p
            elif op in ('delta', 'all') and model[u]:
                j = -1 if op == 'all' else int(rng.integers(len(model[u])))
                dx, dy = (int(v) for v in rng.integers(-5, 6, 2))
                f.update_homog_points(j, delta=(dx, dy))
                for q in range(len(model[u])):
                    if j in (-1, q):
                        x, y = model[u][q]
                        model[u][q] = (x + dx, y + dy)
            elif op == 'bad':
                bad = rng.integers(4)
                with ctx.raises(Exception, 'refused', which=int(bad)):
                    if bad == 0:
                        f.update_homog_points(len(model[u]),
                                              new_point=(1, 2))
                    elif bad == 1:
                        f.update_homog_points(0., delta=(1, 2))
                    elif bad == 2:
                        f.update_homog_points(-1 if model[u] else 0,
                                              new_point=(1, 2))
                    else:
                        f.update_homog_points(0, new_point=(1, 2, 3))
            elif op == 'plot':
                plot(ctx, rng, m, f, model[u], hist, check)
            check()
        ctx.describe(distinct=hist, history=hist, shape=shape,
                     binning=binning, points=model)
    finally:
        gui.close()


def plot(ctx, rng, m, f, pts, hist, check):
    name, b = None, 1
    if 'fine' in m.data and rng.random() < .6:
        name, b = 'fine', m.data['fine', 'binning']
        ctx.observe('binned', b > 1)
    p = m.set_homog_point(map_name=name)
    h, w = m.shape[0] * b, m.shape[1] * b
    sel = None
    want = m.data[name or ('band_contrast' if isinstance(m, ebsd.Map) else
                           'max_shear')]
    ctx.check(np.array_equal(np.ma.filled(p.ax.images[0].get_array(), 0),
                             np.ma.filled(want, 0)), 'homog_image', name=name)

    def layers():
        ctx.check(
            offsets(p.img_layers[p.points_layer_ids[0]]) ==
            [(x * b, y * b) for x, y in whole(pts)], 'shown', points=pts,
            binning=b, got=offsets(p.img_layers[p.points_layer_ids[0]]))
        got = offsets(p.img_layers[p.points_layer_ids[1]])
        ctx.check(got == ([] if sel is None else [sel]), 'selection',
                  got=got, want=sel, history=hist)
    layers()
    for _ in range(int(rng.integers(2, 9))):
        op = str(rng.choice(['select', 'key', 'save', 'select', 'save', 'left',
                              'outside']))
        hist.append('  ' + op)
        if op == 'select':
            x, y = int(rng.integers(w)), int(rng.integers(h))
            pos = (x, y) + rng.uniform(-.45, .45, 2)
            if rng.random() < .6:
                gui.mouse(p.ax, *pos, button=3)
            else:
                gui.mouse(p.ax, *pos, button=1, key='shift')
            sel = (float(x), float(y))
            ctx.observe('op:select')
        elif op == 'key':
            key = str(rng.choice(['left', 'right', 'up', 'down', 'a',
                                  'shift+left', 'shift+down', 'shift+up',
                                  'shift+right', 'ctrl+left', 'alt+up',
                                  'shift+a', 'ctrl+c', 'shift']))
            gui.press_key(p.ax, key)
            step = 10 if key.startswith('shift') else 1
            dx, dy = {'left': (-1, 0), 'right': (1, 0), 'up': (0, -1),
                      'down': (0, 1)}.get(key.split('+')[-1], (0, 0))
            if sel is not None:
                sel = (sel[0] + dx * step, sel[1] + dy * step)
            ctx.observe('op:key')
        elif op == 'left':
            gui.mouse(p.ax, 1, 1)
        elif op == 'outside':
            gui.mouse(p.ax, -40, -40, button=3)
        else:
            gui.click_button(p.btn_store[-1], *[(1, None), (3, None), (
                1, 'shift')][rng.integers(3)])
            if sel is None:
                ctx.observe('nothing_selected')
            else:
                ctx.observe('op:save')
                got = f.homog_points[-1] if len(f.homog_points) == \
                    len(pts) + 1 else None
                ctx.check(got is not None and all(
                    abs(g - s / b) <= .5 + 1e-9 and g == round(g)
                    for g, s in zip(got, sel)), 'points', got=got, sel=sel,
                    binning=b)
                pts.append(tuple(got))
                sel = None
        check()
        layers()
    gui.close()


STREAMS = [Stream('experiment', 50, 2000, s_experiment),
           Stream('points', 140, 2000, s_points),
           Stream('links', 60, 2000, s_links)]
