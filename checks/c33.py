"""C33: plots show the requested data at the right place and colour."""
import matplotlib as mpl
import matplotlib.pyplot as plt
import os

import numpy as np
from PIL import Image
from matplotlib_scalebar.scalebar import ScaleBar

from vt import build, gui, ref
from vt.core import Stream
from checks.c05 import oracle_colour
from checks.c16 import user_data
from checks.c35 import check_cell, check_traces, true_traces
from defdap import plotting
from defdap.quat import Quat

PROPERTY = 'C33'
RULE = ('EBSD maps of up to two phases and linked, cropped and scaled DIC '
        'maps with user data of order 0 to 2; every plot call with random '
        'names, components, options, grain selections and colours, and mouse '
        'clicks; distinct by map and call')
ASSUMPTIONS = ['values outside the range a colour can have are shown clipped',
               'the opacity of boundary points is at least 0.9',
               'a grain is asked to be highlighted once per call']
REQUIRE = {'verdict:image': 400, 'verdict:label': 60, 'verdict:scale': 40,
           'verdict:refused': 200, 'verdict:highlight': 100,
           'verdict:boundary': 60, 'verdict:lines': 15, 'verdict:rgb': 100,
           'verdict:grain_image': 80, 'verdict:numbers': 15,
           'verdict:legend': 8, 'verdict:neighbours': 15, 'dic': 40,
           'two_phases': 20, 'crop': 8, 'bg_colour': 20, 'verdict:range': 60,
           'verdict:profile': 25, 'shown_alone': 10, 'given_axes': 30, 'points_moved': 8,
           'given_figure': 15, 'verdict:click': 30}
COLOURS = ['red', 'blue', 'C1', '#10ff80', 'black', (.2, .4, .6)]


def setup(ctx):
    gui.no_rendering()


def a_map(ctx, rng, i, grains=True, dic=None):
    for _ in range(20):
        spec = build.ebsd_spec(rng, max_dim=16)
        if min(spec.shape) < 3:
            continue
        m = em = build.ebsd_map(spec)
        ctx.observe('two_phases', len(spec.phases) == 2)
        em.data.generate('grains', min_grain_size=int(rng.choice([1, 1, 3])))
        if dic or dic is None and i % 3 == 2:
            m = build.dic_map(ctx.scratch, build.smooth_disp(rng, spec.shape),
                              int(rng.choice([2, 8])))
            h, w = spec.shape
            pts = [(0, 0), (w - 1, 0), (0, h - 1), (w - 1, h - 1)]
            build.link(m, em, pts, pts)
            if rng.integers(2) and min(h, w) > 6:
                m.set_crop(left=1, top=2, right=1, update_homog_points=True)
                ctx.observe('crop')
            if rng.integers(2):
                for _ in range(2):      # corrected afterwards
                    s = float(rng.uniform(.01, 2))
                    m.set_scale(s)
                    ctx.close(m.scale, s * m.binning, 'map_scale')
            m.data.generate('grains', algorithm=rng.choice(
                ['warp', 'floodfill']), min_grain_size=1)
        if len(m) or not grains:
            break
    else:
        return None, None
    if m is not em:
        ctx.observe('dic')
    return m, spec


def image(layer):
    a = layer.get_array()
    return np.ma.filled(np.ma.asarray(a).astype(float), np.nan)


def placed(ctx, layer, shape, mech='place'):
    """Point (x, y) of the data is drawn at (x, y), y downwards."""
    h, w = shape[:2]
    ext = layer.get_extent()
    if ext[2] < ext[3]:
        up = layer.origin == 'lower'
    else:
        up = layer.origin == 'upper'
    ctx.close([ext[0], ext[1], min(ext[2:]), max(ext[2:])],
              [-.5, w - .5, -.5, h - .5], mech)
    ctx.check(up and not layer.axes.yaxis_inverted() is False, mech)


def show(ctx, layer, want, mech, **kw):
    want = np.asarray(want, float)
    rgb = want.ndim == 3
    got = image(layer)
    if rgb:
        want = np.clip(want, 0, 1)
    ctx.close(got, want, mech, atol=4e-3 if mech == 'rgb' else 1e-9, **kw)
    placed(ctx, layer, want.shape)


def scale_of(plot):
    bars = [a for a in plot.ax.artists if isinstance(a, ScaleBar)]
    return bars


def label_of(plot):
    ax = plot.colour_bar.ax
    return ax.get_ylabel() or ax.get_xlabel()


def boundary_layer(ctx, layer, img, colour, dilate):
    img = np.asarray(img) != 0
    if dilate:
        p = np.pad(img, 1)
        img = (p[1:-1, 1:-1] | p[:-2, 1:-1] | p[2:, 1:-1] | p[1:-1, :-2] |
               p[1:-1, 2:])
    rgba = layer.to_rgba(np.asarray(layer.get_array()).astype(float))
    ctx.equal(rgba[..., 3] > .9, img, 'boundary')
    ctx.equal(rgba[..., 3] > 0, img, 'boundary')
    want = np.array(mpl.colors.to_rgb(colour))
    ctx.close(rgba[img][:, :3], np.tile(want, (img.sum(), 1)), 'boundary',
              atol=.01)
    placed(ctx, layer, img.shape)


def lines_layer(ctx, layer, bset, colour):
    got = [np.asarray(s).tolist() for s in layer.get_segments()]
    want = [np.asarray(s, float).tolist() for s in bset.lines]
    ctx.check(got == want, 'lines')
    if want:
        ctx.close(np.atleast_2d(layer.get_edgecolor())[0],
                  mpl.colors.to_rgba(colour), 'lines')


def highlight_layer(ctx, m, layer, ids, colours, alpha):
    rgba = layer.to_rgba(np.asarray(layer.get_array()))
    want = np.zeros(tuple(m.shape) + (4,))
    cols = colours or ['white']
    if isinstance(cols, str):
        cols = [cols]
    for k, g in enumerate(ids):
        c = mpl.colors.to_rgb(cols[min(k, len(cols) - 1)])
        for x, y in m[g].data.point:
            want[y, x] = c + (alpha,)
    on = want[..., 3] > 0
    ctx.close(rgba[..., 3], want[..., 3], 'highlight', atol=.01)
    ctx.close(rgba[on], want[on], 'highlight', atol=.01)
    placed(ctx, layer, m.shape)


def some_grains(rng, m, most=6):
    n = int(rng.integers(1, min(len(m), most) + 1))
    return [int(v) for v in rng.permutation(len(m))[:n]]


def placement(ctx, rng, kw):
    """Random figure or axes to plot on and the judge of the place."""
    k = int(rng.integers(6))
    if rng.random() < .2:
        kw['make_interactive'] = True
    fig = ax = None
    if 1 <= k <= 3:
        other = plt.figure()
        fig = plt.figure()
        ax = [fig.add_subplot(1, 2, j + 1) for j in range(2)][rng.integers(2)]
        plt.figure(other.number)       # not the current one
        if k != 1:
            kw['ax'] = ax
        if k != 2:
            kw['fig'] = fig
        if k == 1:
            fig.clear()
    n = len(plt.get_fignums())

    def judge(p):
        ctx.check(p.fig is p.ax.figure, 'where', kind=k)
        if k == 1:
            ctx.check(p.fig is fig and fig.axes[0] is p.ax, 'where', kind=k)
        elif fig is not None:
            ctx.check(p.ax is ax and p.fig is fig, 'where', kind=k)
        ctx.check(len(plt.get_fignums()) == n + (fig is None), 'where',
                  kind=k, what='number of figures')
        for lay in getattr(p, 'img_layers', []):
            ctx.check(lay.axes is p.ax, 'where', kind=k)
        ctx.observe('given_axes', k in (2, 3))
        ctx.observe('given_figure', k == 1)
    return judge


def options(ctx, rng, m):
    """Random plot options and the judge of what they must show."""
    kw, todo = {}, []
    if rng.random() < .5:
        kw['vmin'], kw['vmax'] = -float(rng.uniform(0, 2)), \
            float(rng.uniform(3, 9))
    if rng.random() < .5:
        kw['cmap'] = str(rng.choice(['gray', 'plasma', 'viridis']))
    if rng.random() < .4:
        kw['plot_gbs'] = [True, 'pixel', 'line'][rng.integers(3)]
        if rng.random() < .6:
            kw['boundary_colour'] = str(rng.choice(COLOURS[:5]))
        if rng.random() < .4:
            kw['dilate_boundaries'] = True
    if rng.random() < .4:
        kw['highlight_grains'] = some_grains(rng, m)
        if rng.random() < .6:
            kw['highlight_colours'] = [COLOURS[k] for k in rng.integers(
                0, len(COLOURS), rng.integers(1, 4))]
        if rng.random() < .6:
            kw['highlight_alpha'] = float(rng.uniform(.1, 1))
    if rng.random() < .4:
        kw['plot_scale_bar'] = True
        if m.scale is None or rng.random() < .4:
            kw['scale'] = float(rng.uniform(.1, 3))

    where = placement(ctx, rng, kw)

    def judge(plot, rgb, binning=1):
        where(plot)
        layers = list(plot.img_layers)
        img = layers.pop(0)
        if not rgb:
            if 'vmin' in kw:
                ctx.check(img.norm.vmin == kw['vmin'] and
                          img.norm.vmax == kw['vmax'], 'range')
            if 'cmap' in kw:
                ctx.check(img.get_cmap().name == kw['cmap'], 'range')
        if kw.get('plot_gbs'):
            lay = layers.pop(0)
            colour = kw.get('boundary_colour', 'white')
            bset = m.data.grain_boundaries
            if kw['plot_gbs'] == 'line':
                lines_layer(ctx, lay, bset, colour)
            else:
                boundary_layer(ctx, lay, bset.image, colour,
                               kw.get('dilate_boundaries', False))
        if 'highlight_grains' in kw:
            lay = layers.pop(0)
            highlight_layer(ctx, m, lay, kw['highlight_grains'],
                            kw.get('highlight_colours'),
                            kw.get('highlight_alpha', m.highlight_alpha))
        ctx.check(not layers, 'layers')
        bars = scale_of(plot)
        ctx.check(len(bars) == bool(kw.get('plot_scale_bar')), 'scale')
        if bars:
            want = kw['scale'] if 'scale' in kw else m.scale / binning
            ctx.close(bars[0].dx, want * 1e-6, 'scale', rtol=1e-9, atol=0)
    return kw, judge


def euler_rule(spec, phases, bg):
    out = np.empty(spec.shape + (3,))
    out[:] = bg
    for p in phases:
        sym = spec.phases[p].crystal_structure.name
        norm = [2 * np.pi, np.pi / 2, np.pi / 2] if sym == 'cubic' else \
            [np.pi, np.pi, np.pi / 3]
        on = spec.phase == p + 1
        for k in range(3):
            out[..., k][on] = spec.euler[k][on] / norm[k]
    return out


def ipf_rule(spec, d, phases, bg):
    out = np.empty(spec.shape + (3,))
    out[:] = bg
    for p in phases:
        sym = spec.phases[p].crystal_structure.name
        on = spec.phase == p + 1
        if on.any():
            out[on] = oracle_colour(ref.bunge_many(spec.euler[:, on]),
                                    np.asarray(d, float), sym).T
    return out


AXES = {'x': [1, 0, 0], 'y': [0, 1, 0], 'z': [0, 0, 1]}


def choose_component(rng, order, m, name, meta):
    """Component argument, what it stands for."""
    if order == 0:
        return None, None
    c = rng.integers(4)
    if c == 0:
        return 'norm', 'norm'
    if c == 1 and meta is not None:
        return None, meta
    n = {1: [(0,), (1,)], 2: [(0, 0), (0, 1), (1, 0), (1, 1)]}[order]
    comp = n[rng.integers(len(n))]
    if order == 1 and rng.random() < .5:
        return comp[0], comp
    return comp, comp


def pick(a, comp, order):
    if comp is None:
        return a
    if comp == 'norm':
        a = a.astype(float)
        return np.sqrt((a.reshape((-1,) + a.shape[order:]) ** 2).sum(0))
    return a[comp]


def s_map(ctx, rng, i):
    m, spec = a_map(ctx, rng, i)
    if m is None:
        return
    shape = tuple(m.shape)
    ebsd = 'euler_angle' in m.data
    # data of the user, with its own label and unit
    order = int(rng.integers(0, 3))
    a = user_data(rng, (2,) * 0 + shape, 0, 'float64') if order == 0 else \
        rng.normal(size=(2,) * order + shape)
    unit = str(rng.choice(['', 'rad', 'um']))
    meta = {}
    if rng.random() < .7:
        meta['plot_params'] = {'plot_colour_bar': True, 'clabel': 'My label'}
    default = None
    if order and rng.random() < .7:
        default = [(1,), (0, 1)][order - 1] if rng.random() < .7 else 'norm'
        meta['default_component'] = default
    binning = 1
    m.data.add('user', a.copy(), type='map', order=order, unit=unit,
               cropped=True, **meta)
    names = ['user', 'user']
    names += ['phase', 'euler_angle', 'band_contrast', 'orientation', 'KAM',
              'grains'] if ebsd else ['max_shear', 'e', 'f', 'displacement',
                                      'grains']
    name = str(rng.choice(names))
    kw, judge = options(ctx, rng, m)
    kwin = {k: list(v) if isinstance(v, list) else v for k, v in kw.items()}
    ctx.describe(distinct=[spec.shape, spec.kind, i, name], name=name,
                 shape=spec.shape, order=order, dic=not ebsd, kw=repr(kw))
    md = {k: m.data.get_metadata(name, k) for k in
          ('plot_params', 'unit', 'default_component', 'order')}
    try:
        data = np.array(m.data[name])
        rgb = False
        if name in ('orientation', 'euler_angle') and rng.random() < .8 or \
                name == 'orientation':
            rgb = True
            if name == 'euler_angle':
                arg = comp = 'all_euler'
                want = euler_rule(spec, range(len(spec.phases)), 0)
            else:
                ax = 'xyz'[rng.integers(3)]
                arg = comp = rng.choice(['IPF_', 'ipf_']) + ax
                arg = str(arg)
                if rng.random() < .2:
                    arg, comp, ax = None, 'IPF_x', 'x'
                want = ipf_rule(spec, AXES[ax], range(len(spec.phases)), 0)
            ctx.observe('verdict:rgb')
        else:
            o = md['order']
            arg, comp = choose_component(rng, o, m, name,
                                         md['default_component'])
            if name == 'euler_angle' and (arg is None):
                arg = comp = (1,)
            if isinstance(comp, str) and comp != 'norm':
                return
            want = pick(data, comp, o)
        before = repr(md)
        p = m.plot_map(name, arg, **kw) if rng.random() < .5 else \
            m.plot_map(name, component=arg, **kw)
        ctx.check(repr({k: m.data.get_metadata(name, k) for k in md}) ==
                  before, 'metadata')
        ctx.check(kw == kwin, 'arguments')
        show(ctx, p.img_layers[0], want, 'rgb' if rgb else 'image', name=name)
        judge(p, rgb)
        params = md['plot_params'] or {}
        ctx.check((p.colour_bar is not None) ==
                  bool(params.get('plot_colour_bar')), 'label')
        if p.colour_bar is not None and not rgb:
            text = params.get('clabel', '')
            if isinstance(comp, tuple):
                text += ' (' + ''.join(str(c + 1) for c in comp) + ')'
            elif isinstance(comp, str):
                text += ' (' + comp.replace('_', ' ') + ')'
            if md['unit']:
                text += f" ({md['unit']})"
            ctx.check(label_of(p) == text, 'label', got=label_of(p),
                      want=text)
        # what does not exist is refused
        for bad in ('nothing', 'grain_boundaries'):
            with ctx.raises(Exception, 'refused', bad=bad):
                m.plot_map(bad)
        wrong = {0: [(0,), 'norm', 'zz', (0, 0)],
                 1: [(0, 0), 'zz', (2,), 'ipf_q', (0, 1, 0)],
                 2: [(0,), 'zz', (0, 2), 1, (0, 0, 0)]}[order]
        for bad in wrong:
            with ctx.raises(Exception, 'refused', bad=bad):
                m.plot_map('user', bad)
        if order and default is None:
            with ctx.raises(Exception, 'refused'):
                m.plot_map('user')
    finally:
        plt.close('all')


def s_colour(ctx, rng, i):
    m, spec = a_map(ctx, rng, 0, dic=False)
    if m is None:
        return
    n = len(spec.phases)
    phases = None
    if rng.random() < .6:
        phases = [int(k) for k in rng.permutation(n)[:rng.integers(1, n + 1)]]
    bg = None
    if rng.random() < .7:
        bg = [np.array([1., 1, 1]), [.2, .3, .4], (1, 1, 1), np.array([1, 0, 0]),
              [0, 1, .5]][rng.integers(5)]
        ctx.observe('bg_colour')
    kw, judge = options(ctx, rng, m)
    ctx.describe(distinct=[spec.shape, spec.kind, i], shape=spec.shape,
                 phases=phases, bg=repr(bg), kw=repr(kw))
    use = range(n) if phases is None else phases
    back = 0 if bg is None else np.asarray(bg, float)
    args = {}
    if phases is not None:
        args['phases'] = phases
    if bg is not None:
        args['bg_colour'] = bg
    try:
        kind = rng.integers(3)
        if kind == 0:
            p = m.plot_euler_map(**args, **kw)
            want = euler_rule(spec, use, back)
        elif kind == 1:
            d = rng.normal(size=3) if rng.random() < .5 else \
                list(AXES.values())[rng.integers(3)]
            p = m.plot_ipf_map(np.array(d), **args, **kw)
            want = ipf_rule(spec, d, use, back)
        else:
            kw2 = {k: v for k, v in kw.items() if k not in ('vmin', 'vmax')}
            p = m.plot_phase_map(**kw2)
            show(ctx, p.img_layers[0], spec.phase, 'image')
            leg = p.ax.get_legend()
            names = ['Non-indexed'] + [q.name for q in spec.phases]
            ctx.check([t.get_text() for t in leg.get_texts()] == names,
                      'legend')
            for k, patch in enumerate(leg.get_patches()):
                on = np.argwhere(spec.phase == k)
                if len(on):
                    c = p.img_layers[0].to_rgba(np.asarray(
                        p.img_layers[0].get_array()))[tuple(on[0])]
                    ctx.close(patch.get_facecolor(), c, 'legend', atol=1e-6)
            cols = [tuple(q.get_facecolor()) for q in leg.get_patches()]
            ctx.check(len(set(cols)) == len(cols), 'legend')
            return
        show(ctx, p.img_layers[0], want, 'rgb')
        judge(p, True)
    finally:
        plt.close('all')


def s_pattern(ctx, rng, i):
    """The pattern image has its own pixel size."""
    m, spec = a_map(ctx, rng, i, dic=True)
    if m is None:
        return
    k = int(rng.choice([1, 2, 3]))
    full = tuple(v * k for v in m.original_shape)
    img = rng.integers(0, 256, full).astype('uint8')
    path = os.path.join(ctx.scratch, f'pattern_{i}.png')
    Image.fromarray(img).save(path)
    if m.scale is None or rng.random() < .5:
        m.set_scale(float(rng.uniform(.01, 2)))
    ctx.describe(distinct=[full, k, i], shape=full, binning=k)
    try:
        m.set_pattern(path, k)
        bar = bool(rng.integers(2))
        p = m.plot_map('pattern', plot_scale_bar=bar)
        got = np.asarray(p.img_layers[0].get_array(), float)
        want = np.asarray(m.crop(img, binning=k), float)
        ctx.check(got.shape == want.shape, 'image', got=got.shape,
                  want=want.shape)
        a = np.linalg.lstsq(np.stack([want.ravel(), np.ones(want.size)], 1),
                            got.ravel(), rcond=None)[0]
        ctx.check(np.abs(a[0] * want + a[1] - got).max() <=
                  1e-5 * max(1, np.abs(got).max()) and
                  (a[0] > 0 or np.ptp(want) == 0), 'image')
        bars = scale_of(p)
        ctx.check(len(bars) == bar, 'scale')
        if bar:
            ctx.close(bars[0].dx, m.bse_scale * m.binning / k * 1e-6, 'scale',
                      rtol=1e-9, atol=0)
        ctx.observe('patterns')
    finally:
        plt.close('all')
        os.remove(path)


def s_grain_map(ctx, rng, i):
    m, spec = a_map(ctx, rng, i)
    if m is None:
        return
    ebsd = 'euler_angle' in m.data
    kw, judge = options(ctx, rng, m)
    shape = tuple(m.shape)
    what = str(rng.choice(['values', 'average', 'number', 'special',
                           'special']))
    ctx.describe(distinct=[spec.shape, spec.kind, i, what], what=what,
                 shape=spec.shape, grains=len(m), kw=repr(kw))

    def fill(vals, ids, bg, lead=()):
        out = np.empty(shape + lead)
        out[:] = bg
        for v, g in zip(vals, ids):
            for x, y in m[g].data.point:
                out[y, x] = v
        return out
    try:
        if what in ('values', 'average'):
            ids = -1
            use = list(range(len(m)))
            if rng.random() < .5:
                ids = use = some_grains(rng, m)
            elif rng.random() < .3:
                ids = int(rng.integers(len(m)))
                use = [ids]
            args = {'grain_ids': ids} if ids != -1 or rng.random() < .5 else {}
            bg = 0
            if rng.random() < .6:
                bg = [np.nan, -1, .5][rng.integers(3)]
                args['bg'] = bg
            if what == 'average':
                a = rng.normal(size=shape)
                p = m.plot_grain_data_map(map_data=a, **args, **kw)
                vals = [np.mean([a[y, x] for x, y in m[g].data.point])
                        for g in use]
                show(ctx, p.img_layers[0], fill(vals, use, bg), 'image')
                judge(p, False)
            else:
                col = rng.random() < .4
                vals = rng.random((len(use), 3)) if col else \
                    rng.normal(size=len(use))
                if not col and rng.random() < .4:
                    vals = rng.integers(-5, 50, len(use))
                arg = vals.tolist() if rng.random() < .5 else vals.copy()
                p = m.plot_grain_data_map(grain_data=arg, **args, **kw)
                show(ctx, p.img_layers[0], fill(vals, use, bg,
                                                (3,) if col else ()),
                     'rgb' if col else 'image')
                judge(p, col)
                with ctx.raises(Exception, 'refused'):
                    m.plot_grain_data_map(grain_data=list(vals) + [vals[0]],
                                          **args)
            with ctx.raises(Exception, 'refused'):
                m.plot_grain_data_map(**args)
        elif what == 'number':
            dil = bool(rng.integers(2))
            ax = plt.figure().add_subplot() if rng.random() < .5 else None
            p = m.plot_grain_numbers(dilate_boundaries=dil, ax=ax) \
                if ax is not None else \
                m.plot_grain_numbers(dilate_boundaries=dil)
            ctx.check(ax is None or p.ax is ax, 'where')
            boundary_layer(ctx, p.img_layers[0], m.data.grain_boundaries.image,
                           'black', dil)
            ctx.check(len(p.ax.texts) == len(m), 'numbers')
            for t in p.ax.texts:
                g = m[int(t.get_text())]
                c = np.mean(g.data.point, axis=0)
                ctx.check(np.abs(np.array(t.get_position()) - c).max() <=
                          .5 + 1e-9, 'numbers')
            ctx.check(sorted(int(t.get_text()) for t in p.ax.texts) ==
                      list(range(len(m))), 'numbers')
            size = float(rng.integers(4, 30))
            p.add_grain_numbers(fontsize=size, c='lime')
            ctx.check(len(p.ax.texts) == 2 * len(m) and
                      all(t.get_fontsize() == size and t.get_color() == 'lime'
                          for t in list(p.ax.texts)[len(m):]), 'numbers')
        elif not ebsd:
            p = m.plot_grain_av_max_shear(plot_colour_bar=True, **kw)
            a = np.asarray(m.data.max_shear)
            vals = [np.mean([a[y, x] for x, y in g.data.point]) for g in m]
            show(ctx, p.img_layers[0], fill(vals, range(len(m)), 0), 'image')
            judge(p, False)
            ctx.check(label_of(p) == 'Effective shear strain', 'label')
        else:
            special(ctx, rng, m, spec, kw, judge, fill)
    finally:
        plt.close('all')


def s_ebsd_map(ctx, rng, i):
    m, spec = a_map(ctx, rng, i, dic=False)
    if m is None:
        return
    kw, judge = options(ctx, rng, m)
    ctx.describe(distinct=[spec.shape, spec.kind, i], what=i % 4 + 1,
                 shape=spec.shape, grains=len(m), kw=repr(kw))

    def fill(vals, ids, bg):
        out = np.full(spec.shape, bg, float)
        for v, g in zip(vals, ids):
            for x, y in m[g].data.point:
                out[y, x] = v
        return out
    try:
        special(ctx, rng, m, spec, kw, judge, fill, [1, 2, 3, 1][i % 4])
    finally:
        plt.close('all')


def special(ctx, rng, m, spec, kw, judge, fill, k=None):
    if k is None:
        k = int(rng.integers(5))
    if k == 0:
        p = m.plot_grain_map(**kw)
        show(ctx, p.img_layers[0], np.asarray(m.data.grains), 'image')
        judge(p, False)
    elif k == 1:
        comp = int(rng.integers(4))
        # some grains already have their lists, with or without the axis
        for g in m:
            if rng.random() < .4:
                g.build_mis_ori_list(calc_axis=bool(rng.integers(2)))
        p = m.plot_mis_ori_map(comp, **kw)
        deg = {}
        for g in m:
            R0 = ref.quat_to_mat(g.ref_ori.quat_coef)
            sym = m.phases[g.phase_id].crystal_structure.name if hasattr(
                g, 'phase_id') else g.phase.crystal_structure.name
            for n, (x, y) in enumerate(g.data.point):
                R = ref.bunge(*spec.euler[:, y, x])
                deg[x, y] = np.rad2deg(ref.mis_angle(R0, R, sym))
        got = image(p.img_layers[0])
        want = np.zeros(spec.shape)
        if comp == 0:
            for (x, y), v in deg.items():
                want[y, x] = v
            ctx.close(got, want, 'image', atol=2e-4)
        else:
            for g in m:
                ax = np.asarray(g.mis_ori_axis_list)
                for n, (x, y) in enumerate(g.data.point):
                    want[y, x] = np.rad2deg(ax[n][comp - 1])
                    # its length is the misorientation
                    ctx.check(abs(np.rad2deg(np.linalg.norm(ax[n])) -
                                  deg[x, y]) < 1e-3, 'axis_length')
            ctx.close(got, want, 'image', atol=1e-6)
        placed(ctx, p.img_layers[0], spec.shape)
        ctx.check(p.colour_bar is not None and
                  (f'{" XYZ"[comp]} axis' in label_of(p) if comp else
                   'GROD' in label_of(p)), 'label', label=label_of(p))
        judge(p, False)
    elif k == 2:
        m.calc_grain_av_oris()
        load = rng.normal(size=3)
        with ctx.raises(Exception, 'refused'):
            m.plot_average_grain_schmid_factors_map()
        if len({g.phase.crystal_structure.name for g in m}) > 1:
            return
        try:
            m.calc_average_grain_schmid_factors(load)
        except AttributeError:     # no slip systems for the structure
            return
        sf = [[list(q) for q in g.average_schmid_factors] for g in m]
        planes = dirs = None
        if rng.random() < .6:
            planes = [int(v) for v in rng.permutation(len(sf[0]))[:2]]
            if rng.random() < .5:
                dirs = [0]
        vals = []
        for s in sf:
            v = []
            for pl in (range(len(s)) if planes is None else planes):
                v += list(s[pl]) if dirs is None else [s[pl][d] for d in dirs]
            vals.append(max(v))
        p = m.plot_average_grain_schmid_factors_map(
            planes=planes, directions=dirs, **kw)
        show(ctx, p.img_layers[0], fill(vals, range(len(m)), .5), 'image')
        ctx.check(label_of(p) == 'Schmid factor', 'label')
        judge(p, False)
    elif k == 3:
        dil = bool(rng.integers(2))
        more = [{}, {'cmap': 'viridis', 'vmax': 3.},
                {'plot_colour_bar': False, 'vmin': -1.}][rng.integers(3)]
        p = m.plot_phase_boundary_map(dilate=dil, **more)
        lay = p.img_layers[0]
        ctx.check(lay.get_clim() == (more.get('vmin', lay.get_clim()[0]),
                                     more.get('vmax', 1)) and
                  lay.get_cmap().name == more.get('cmap', 'gray') and
                  (p.colour_bar is not None) ==
                  more.get('plot_colour_bar', True), 'scale', asked=more)
        img = np.asarray(m.data.phase_boundaries.image) != 0
        if dil:
            q = np.pad(img, 1)
            img = (q[1:-1, 1:-1] | q[:-2, 1:-1] | q[2:, 1:-1] | q[1:-1, :-2] |
                   q[1:-1, 2:])
        show(ctx, p.img_layers[0], img, 'image')
    else:
        p = m.plot_boundary_map()
        ctx.check(len(p.img_layers) == 1, 'layers')
        boundary_layer(ctx, p.img_layers[0], m.data.grain_boundaries.image,
                       'black', False)


def s_grain(ctx, rng, i):
    m, spec = a_map(ctx, rng, i)
    if m is None:
        return
    ebsd = 'euler_angle' in m.data
    shape = tuple(m.shape)
    g = m[int(rng.integers(len(m)))]
    pts = np.asarray(g.data.point)
    x0, y0 = pts.min(0)
    x1, y1 = pts.max(0)
    n = len(pts)
    order = int(rng.integers(0, 3))
    a = rng.normal(size=(2,) * order + (n,))
    unit = str(rng.choice(['', 'deg']))
    meta = {}
    if rng.random() < .7:
        meta['plot_params'] = {'plot_colour_bar': True, 'clabel': 'Mine'}
    if order and rng.random() < .7:
        meta['default_component'] = [(1,), (0, 1)][order - 1]
    g.data.add('user', a.copy(), type='list', order=order, unit=unit, **meta)
    ctx.describe(distinct=[spec.shape, spec.kind, i], shape=spec.shape,
                 n=n, order=order)

    def grid(vals):
        vals = np.asarray(vals, float)
        out = np.full((y1 - y0 + 1, x1 - x0 + 1) + vals.shape[1:], np.nan)
        for (x, y), v in zip(pts, vals):
            out[y - y0, x - x0] = v
        return out
    kw = {}
    if rng.random() < .4:
        kw['plot_scale_bar'] = True
        if m.scale is None or rng.random() < .4:
            kw['scale'] = float(rng.uniform(.1, 3))
    if rng.random() < .4:
        kw['vmin'], kw['vmax'] = -1., float(rng.uniform(0, 3))
    where = placement(ctx, rng, kw)

    def judge(p, rgb=False):
        where(p)
        ctx.check(len(p.img_layers) == 1, 'layers')
        if 'vmin' in kw and not rgb:
            ctx.check((p.img_layers[0].norm.vmin, p.img_layers[0].norm.vmax) ==
                      (kw['vmin'], kw['vmax']), 'range')
        bars = scale_of(p)
        ctx.check(len(bars) == bool(kw.get('plot_scale_bar')), 'scale')
        if bars:
            ctx.close(bars[0].dx, kw.get('scale', m.scale) * 1e-6
                      if 'scale' in kw else m.scale * 1e-6, 'scale', rtol=1e-9,
                      atol=0)
        ctx.check(p.calling_grain is g, 'owner')
    try:
        what = int(rng.integers(5))
        if what == 0:
            arg, comp = choose_component(rng, order, m, 'user',
                                         meta.get('default_component'))
            p = g.plot_map('user', arg, **kw)
            show(ctx, p.img_layers[0], grid(pick(a, comp, order)),
                 'grain_image')
            judge(p)
            ctx.check((p.colour_bar is not None) == ('plot_params' in meta),
                      'label')
            if p.colour_bar is not None:
                text = 'Mine'
                if isinstance(comp, tuple):
                    text += ' (' + ''.join(str(c + 1) for c in comp) + ')'
                elif comp:
                    text += f' ({comp})'
                text += f' ({unit})' if unit else ''
                ctx.check(label_of(p) == text, 'label', got=label_of(p),
                          want=text)
            for bad in ('nothing', 'point'):
                with ctx.raises(Exception, 'refused', bad=bad):
                    g.plot_map(bad)
            for bad in {0: [(0,), 'norm', 'zz'], 1: [(0, 0), 'zz', (2,)],
                        2: [(0,), 'zz', (0, 2), 1]}[order]:
                with ctx.raises(Exception, 'refused', bad=bad):
                    g.plot_map('user', bad)
        elif what == 1:
            pk = {k: kw[k] for k in ('fig', 'ax', 'make_interactive')
                  if k in kw}
            if ebsd:
                comp = str(rng.choice(['IPF_x', 'IPF_y', 'IPF_z', 'all_euler']))
                name = 'euler_angle' if comp == 'all_euler' else 'orientation'
                p = g.plot_map(name, comp, **pk)
                rule = euler_rule(spec, range(len(spec.phases)), 0) if \
                    name == 'euler_angle' else \
                    ipf_rule(spec, AXES[comp[-1]], range(len(spec.phases)), 0)
                vals = np.array([rule[y, x] for x, y in pts])
            else:
                comp = [(0, 0), (0, 1), (1, 0), (1, 1)][rng.integers(4)]
                f = np.asarray(m.data.f)
                vals = np.array([f[comp + (y, x)] for x, y in pts])
                p = g.plot_map('f', comp, **pk)
                ctx.check(label_of(p) == 'Deformation gradient (%d%d)' % (
                    comp[0] + 1, comp[1] + 1), 'label', got=label_of(p))
            show(ctx, p.img_layers[0], grid(vals),
                 'rgb' if ebsd else 'grain_image')
            kw.clear()
            judge(p, ebsd)
        elif what == 2:
            full = rng.normal(size=shape)
            if rng.random() < .5:
                p = g.plot_grain_data(map_data=full, **kw)
                vals = [full[y, x] for x, y in pts]
            else:
                vals = rng.normal(size=n)
                p = g.plot_grain_data(grain_data=vals, map_data=full, **kw)
            show(ctx, p.img_layers[0], grid(vals), 'grain_image')
            judge(p)
            with ctx.raises(Exception, 'refused'):
                g.plot_grain_data()
        elif what == 3:
            pk = {'ax': kw['ax']} if 'ax' in kw else {}
            p = g.plot_outline(plot_scale_bar=False, **pk)
            if pk:
                where(p)
            show(ctx, p.img_layers[0], grid(np.zeros(n)), 'grain_image')
            if m.scale is not None:
                p = g.plot_outline(plot_scale_bar=True)
                ctx.close(scale_of(p)[0].dx, m.scale * 1e-6, 'scale')
        elif not ebsd:
            if m.scale is None:      # a scale bar needs the scale
                m.set_scale(.7)
            if g.ebsd_grain is None:     # no slip traces to draw
                return
            p = g.plot_default()
            ctx.close(scale_of(p)[0].dx, m.scale * 1e-6, 'scale')
            ms = np.asarray(m.data.max_shear)
            show(ctx, p.img_layers[0], grid([ms[y, x] for x, y in pts]),
                 'grain_image')
        else:
            m.calc_grain_mis_ori(calc_axis=True)
            comp = int(rng.integers(4))
            p = g.plot_mis_ori(comp, **kw)
            sym = g.phase.crystal_structure.name
            R0 = ref.quat_to_mat(g.ref_ori.quat_coef)
            if comp == 0:
                vals = [np.rad2deg(ref.mis_angle(
                    R0, ref.bunge(*spec.euler[:, y, x]), sym))
                    for x, y in pts]
                ctx.close(image(p.img_layers[0]), grid(vals), 'grain_image',
                          atol=2e-4)
            else:
                vals = np.rad2deg(np.asarray(g.mis_ori_axis_list)[:, comp - 1])
                show(ctx, p.img_layers[0], grid(vals), 'grain_image')
            judge(p)
            for bad in (4, -1):
                with ctx.raises(Exception, 'refused'):
                    g.plot_mis_ori(bad)
    finally:
        plt.close('all')


def s_highlight(ctx, rng, i):
    m, spec = a_map(ctx, rng, i)
    if m is None:
        return
    ctx.describe(distinct=[spec.shape, spec.kind, i], shape=spec.shape,
                 grains=len(m))
    try:
        p = plotting.MapPlot.create(m, rng.normal(size=tuple(m.shape)))
        state = {}                       # layer index -> what it shows
        first = None                     # the layer replaced later on
        for step in range(int(rng.integers(1, 6))):
            if rng.random() < .25:
                n = len(p.img_layers)
                kind = str(rng.choice(['pixel', 'line']))
                colour = COLOURS[rng.integers(5)]
                dil = bool(rng.integers(2))
                bset = m.data.grain_boundaries
                form = int(rng.integers(3))
                given = [None, bset, bset][form]
                if form == 2:
                    # other boundaries than those of the map
                    from defdap import ebsd, hrdic
                    if 'euler_angle' in m.data:
                        bset = m.data.phase_boundaries
                        given = bset
                if kind == 'line' and rng.random() < .5:
                    col = mpl.colors.to_rgba(colour)
                    vals = None
                    if len(bset.lines) and rng.random() < .5:
                        col = vals = (rng.random(len(bset.lines)) * 3
                                      - 1.5).tolist()
                    elif len(bset.lines) == 4:
                        col = colour     # a value per line else
                    lay = p.add_grain_boundaries(kind, given, col)
                    if vals:
                        ctx.close(np.asarray(lay.get_array()), vals, 'lines')
                        ctx.check(len(lay.get_segments()) == len(vals),
                                  'lines')
                    else:
                        lines_layer(ctx, lay, bset, colour)
                else:
                    lay = p.add_grain_boundaries(kind, given, colour,
                                                 dilate=dil)
                    if kind == 'line':
                        lines_layer(ctx, lay, bset, colour)
                    else:
                        boundary_layer(ctx, lay, bset.image, colour, dil)
                ctx.check(len(p.img_layers) == n + 1 and
                          p.img_layers[-1] is lay, 'layers')
            ids = some_grains(rng, m)
            cols = None
            c = rng.integers(3)
            if c == 1:
                cols = str(COLOURS[rng.integers(5)])
            elif c == 2:
                cols = [COLOURS[k] for k in rng.integers(
                    0, len(COLOURS), rng.integers(1, 5))]
            alpha = None if rng.random() < .4 else float(rng.uniform(.1, 1))
            if rng.random() < .1:
                alpha = 0.                       # hidden
            new = bool(rng.random() < .3)
            n = len(p.img_layers)
            idin = list(ids)
            lay = p.add_grain_highlights(ids, cols, alpha, new_layer=new)
            ctx.check(ids == idin, 'arguments')
            if new or first is None:
                ctx.check(len(p.img_layers) == n + 1 and
                          p.img_layers[-1] is lay, 'layers')
                first = lay if first is None else first
            else:
                # the first layer of highlights is the one replaced
                ctx.check(len(p.img_layers) == n and lay is first, 'layers')
            state[id(lay)] = (lay, idin, cols,
                              m.highlight_alpha if alpha is None else alpha)
            for lay, a, b, c in state.values():
                highlight_layer(ctx, m, lay, a, b, c)
    finally:
        plt.close('all')


def s_layers(ctx, rng, i):
    """Maps, points, colour bars and legends added by hand."""
    m, spec = a_map(ctx, rng, i, grains=False)
    if m is None:
        return
    shape = tuple(m.shape)
    ctx.describe(distinct=[spec.shape, spec.kind, i], shape=shape)
    try:
        first = rng.normal(size=shape)
        inter = bool(rng.random() < .5)
        p = plotting.MapPlot.create(m, first, make_interactive=inter)
        maps, points = [(0, first, None, 'viridis')], []
        arrows, last, labels = [], [], []
        for _ in range(int(rng.integers(3, 9))):
            what = int(rng.integers(8))
            if what == 5:
                # another map on the same plot
                a = rng.normal(size=shape)
                n_open = len(plt.get_fignums())
                q = plotting.MapPlot.create(m, a, plot=p, cmap='gray',
                                            vmin=-1., vmax=2.)
                ctx.check(q is p and len(plt.get_fignums()) == n_open and
                          len(p.ax.images) >= len(maps) + 1, 'same_plot')
                maps.append((len(p.img_layers) - 1, a, (-1., 2.), 'gray'))
            elif what >= 6:
                # only the last of the temporary arrows stays
                keep = bool(rng.integers(2))
                se = tuple(float(v) for v in rng.uniform(0, 4, 4))
                lab = int(rng.integers(9)) if rng.random() < .4 else None
                p.add_arrow(se, persistent=keep, label=lab)
                if keep:
                    arrows.append(se)
                else:
                    last = [se]
                if lab is not None:
                    labels.append((str(lab), se[2:]))
                found = [(tuple(t.xy) + tuple(t.get_position()))
                         for t in p.ax.texts
                         if getattr(t, 'arrow_patch', None) is not None]
                ctx.check(sorted(found) == sorted(arrows + last), 'arrows',
                          got=found, want=arrows + last)
                found = [(t.get_text(), tuple(t.xy)) for t in p.ax.texts
                         if getattr(t, 'arrow_patch', None) is None]
                ctx.check(sorted(found) == sorted(labels), 'arrows',
                          got=found, want=labels)
            elif what == 0:
                a = rng.normal(size=shape)
                lim = (-float(rng.uniform(0, 2)), float(rng.uniform(3, 9)))
                cm = str(rng.choice(['gray', 'plasma', 'magma']))
                p.add_map(a, vmin=lim[0], vmax=lim[1], cmap=cm)
                maps.append((len(p.img_layers) - 1, a, lim, cm))
            elif what in (1, 2):
                n = int(rng.integers(1, 5))
                x, y = rng.uniform(0, shape[1] - 1, n), \
                    rng.uniform(0, shape[0] - 1, n)
                x, y = (list(x), list(y)) if rng.random() < .5 else (x, y)
                if points and rng.random() < .5:
                    k = int(rng.integers(len(points)))
                    p.add_points(x, y, update_layer=k)
                    points[k] = points[k][0], np.c_[x, y]
                    ctx.observe('points_moved')
                else:
                    p.add_points(x, y, c='r')
                    points.append((len(p.img_layers) - 1, np.c_[x, y]))
            elif what == 3:
                k, a, lim, cm = maps[rng.integers(len(maps))]
                lo, hi = lim or (a.min(), a.max())
                vals = [float(v) for v in rng.uniform(lo, hi, 3)]
                names = ['a', 'b', 'c']
                p.add_legend(vals, names, layer=k)
                leg = p.ax.get_legend()
                ctx.check([t.get_text() for t in leg.get_texts()] == names,
                          'legend')
                cmap = plt.get_cmap(cm)
                for h, v in zip(leg.legend_handles, vals):
                    ctx.close(h.get_facecolor(), cmap((v - lo) / (hi - lo)),
                              'legend', atol=1.1 / 128)
            else:
                k, a, lim, cm = maps[rng.integers(len(maps))]
                p.add_colour_bar('Bar', layer=k)
                ctx.check(p.colour_bar.mappable is p.img_layers[k] and
                          label_of(p) == 'Bar', 'label')
            ctx.check(len(p.img_layers) == len(maps) + len(points), 'layers')
            for k, a, lim, cm in maps:
                lay = p.img_layers[k]
                show(ctx, lay, a, 'image')
                if lim:
                    ctx.check((lay.norm.vmin, lay.norm.vmax) == lim and
                              lay.get_cmap().name == cm, 'range')
            for k, xy in points:
                ctx.close(p.img_layers[k].get_offsets(), xy, 'points',
                          atol=1e-12)
        if inter:
            p.clear()
            ctx.check(not p.ax.images and not p.ax.collections and
                      not p.img_layers and p.colour_bar is None, 'cleared')
            p.add_map(first)
            p.add_points([1], [0])
            p.add_points([0], [1], update_layer=0)
            ctx.check(len(p.img_layers) == 2, 'cleared')
            show(ctx, p.img_layers[0], first, 'image')
            ctx.close(p.img_layers[1].get_offsets(), [[0, 1]], 'points')
    finally:
        plt.close('all')


def shown_alone(ctx, m, g, ebsd):
    p = m.grain_plot
    if not p.exists:
        return               # nothing clicked since it was closed
    if ebsd:
        check_cell(ctx, p.ax, g.ref_ori.rot_matrix(),
                   g.phase.crystal_structure.name, np.pi / 6)
        return
    pts = np.asarray(g.data.point)
    x0, y0 = pts.min(0)
    want = np.full(tuple(pts.max(0)[::-1] - (y0, x0) + 1), np.nan)
    ms = np.asarray(m.data.max_shear)
    for x, y in pts:
        want[y - y0, x - x0] = ms[y, x]
    ctx.check(len(p.ax.images) == 1, 'alone')
    show(ctx, p.ax.images[0], want, 'alone')
    ctx.check(len([a for a in p.ax.artists if isinstance(a, ScaleBar)]) == 1
              and len(p.fig.axes) == 2, 'alone')
    quiv = gui.arrows(p.ax)
    traces = true_traces(g.ebsd_grain, g.ebsd_grain.ref_ori)
    check_traces(ctx, quiv[:len(traces)], traces,
                 g.phase.slip_trace_colours, g.centre_coords(), False)


def s_click(ctx, rng, i):
    m, spec = a_map(ctx, rng, i)
    if m is None:
        return
    ebsd = 'euler_angle' in m.data
    ctx.describe(distinct=[spec.shape, spec.kind, i], shape=spec.shape,
                 grains=len(m))
    alone = False
    if 'euler_angle' not in m.data:
        alone = bool(i % 2) and all(g.ebsd_grain is not None for g in m)
        if alone and m.scale is None:
            m.set_scale(.6)
        p = m.locate_grain(display_grain=True) if alone else m.locate_grain()
    elif i % 2:
        alone = bool(i // 2 % 2)
        p = m.locate_grain(display_grain=alone)
    else:
        m.build_neighbour_network()
        p = m.display_neighbours()
    ids = np.asarray(m.data.grains)
    nn = m.neighbour_network if ebsd and not i % 2 else None
    try:
        sel = None
        shown = None
        for step in range(int(rng.integers(1, 5))):
            y, x = (int(rng.integers(k)) for k in m.shape)
            dx, dy = rng.uniform(-.45, .45, 2)
            if rng.random() < .3:        # next to the map, nothing happens
                before = len(p.img_layers)
                gui.mouse(p.ax, -2 * m.shape[1] - 9, y)
                ctx.check(m.sel_grain is sel and len(p.img_layers) == before,
                          'click_outside')
            gui.mouse(p.ax, x + dx, y + dy)
            g = int(ids[y, x]) - 1
            if g >= 0:
                sel = m[g]
                shown = [g]
            ctx.check(m.sel_grain is sel, 'click', at=(x, y), grain=g)
            if sel is None:
                continue
            if alone:
                ctx.observe('shown_alone')
                shown_alone(ctx, m, sel, ebsd)
                if rng.random() < .2:        # closed by the user
                    plt.close(m.grain_plot.fig)
                    continue
            lay = p.img_layers[p.highlights_layer_id]
            if nn is None:
                highlight_layer(ctx, m, lay, shown, None, m.highlight_alpha)
                continue
            first = set(nn.neighbors(sel))
            second = set()
            for f in first:
                second |= set(nn.neighbors(f))
            second -= first | {sel}
            rgba = lay.to_rgba(np.asarray(lay.get_array()))
            want = np.zeros(ids.shape + (4,))
            for group, col in (([sel], 'white'), (first, 'yellow'),
                               (second, 'green')):
                for q in group:
                    for px, py in q.data.point:
                        want[py, px] = mpl.colors.to_rgb(col) + (
                            m.highlight_alpha,)
            on = want[..., 3] > 0
            ctx.close(rgba[..., 3], want[..., 3], 'neighbours', atol=.01)
            ctx.close(rgba[on], want[on], 'neighbours', atol=.01)
    finally:
        plt.close('all')


def s_profile(ctx, rng, i):
    m, spec = a_map(ctx, rng, i)
    if m is None:
        return
    ctx.describe(distinct=[spec.shape, spec.kind, i], shape=spec.shape)
    a = rng.normal(size=tuple(m.shape))
    m.data.add('user', a.copy(), type='map', order=0, unit='', cropped=True)
    m.plot_default = lambda *args, **kw: m.plot_map('user', *args, **kw)
    try:
        kw = {}
        if len(m) and rng.random() < .5:
            kw['highlight_grains'] = some_grains(rng, m)
            if rng.random() < .5:
                kw['plot_gbs'] = True
        p = m.draw_line_profile(**kw)
        h, w = m.shape
        for step in range(int(rng.integers(1, 4))):
            edge = .45 * bool(rng.integers(2))     # to the edge of the image
            x0, x1 = rng.uniform(-edge, w - 1 + edge, 2)
            y0, y1 = rng.uniform(-edge, h - 1 + edge, 2)
            if step and rng.random() < .5:
                # a click in another axes is no part of a line
                other = p.fig.add_axes((.9, .9, .1, .1))
                gui.mouse(p.ax, x0, y0)
                gui.mouse(other, .3, .4)
                gui.mouse(p.ax, x1, y1, 'button_release_event')
                other.remove()
            else:
                gui.drag(p.ax, x0, y0, x1, y1)
            arrows = [t for t in p.ax.texts if hasattr(t, 'arrow_patch')]
            ctx.check(len(arrows) == 1, 'drawn_line', n=len(arrows))
            ctx.close(tuple(arrows[0].xy) + tuple(arrows[0].get_position()),
                      (x0, y0, x1, y1), 'drawn_line', atol=1e-6)
            line = m.profile_plot.ax.lines
            ctx.check(len(line) == 1, 'profile')
            s, v = line[0].get_data()
            L = np.hypot(x1 - x0, y1 - y0)
            ctx.close([s[0], s[-1]], [0, L], 'profile', atol=1e-6)
            ctx.check((np.diff(s) > 0).all() and len(s) >= L + 1 - 1e-6,
                      'profile')
            for t, val in zip(s / L, v):
                x = min(max(x0 + t * (x1 - x0), 0), w - 1)
                y = min(max(y0 + t * (y1 - y0), 0), h - 1)
                X, Y = min(int(x), w - 2), min(int(y), h - 2)
                fx, fy = x - X, y - Y
                want = ((1 - fy) * ((1 - fx) * a[Y, X] + fx * a[Y, X + 1]) +
                        fy * ((1 - fx) * a[Y + 1, X] + fx * a[Y + 1, X + 1]))
                ctx.check(abs(val - want) < 1e-6, 'profile', at=(x, y),
                          got=val, want=want)
    finally:
        plt.close('all')


def s_many(ctx, rng, i):
    """Hundreds of grains, more than any block or small counter."""
    h, w = [(40, 46), (50, 36)][i % 2]
    spec = build.ebsd_spec(rng, shape=(h, w), min_cells=1, noise=1.,
                           phases=[build.cubic_phase()], nonindexed='none')
    cells = (np.indices((h, w))[0] // 2) * (w // 2) + np.indices((h, w))[1] // 2
    n = (h // 2) * (w // 2)
    base = ref.bunge_many(ref.random_eulers(rng, (n,)))
    for k in range(n):           # make sure that neighbours differ
        for o in (k - 1, k - w // 2):
            while o >= 0 and ref.mis_angle(base[k], base[o], 'cubic') < .25:
                base[k] = ref.bunge(*ref.random_eulers(rng))
    e = ref.mat_to_eulers(base)[:, cells]
    e[2] += np.deg2rad(rng.uniform(0, 2, (h, w)))
    spec.euler = e
    m = build.ebsd_map(spec)
    m.data.generate('grains', min_grain_size=1)
    ctx.describe(distinct=[h, w, i], grains=len(m))
    ctx.check(len(m) > 300, 'many_grains', n=len(m))
    ctx.observe('many_grains', len(m))
    try:
        p = m.plot_grain_map()
        show(ctx, p.img_layers[0], np.asarray(m.data.grains), 'image')
        p = m.plot_mis_ori_map(0)
        want = np.zeros((h, w))
        R = np.array([ref.quat_to_mat(g.ref_ori.quat_coef) for g in m])
        ids = np.asarray(m.data.grains) - 1
        want = np.rad2deg(ref.mis_angle(
            R[ids], ref.bunge_many(spec.euler), 'cubic'))
        ctx.close(image(p.img_layers[0]), want, 'image', atol=2e-4)
        vals = rng.normal(size=len(m))
        p = m.plot_grain_data_map(grain_data=vals, bg=0)
        show(ctx, p.img_layers[0], vals[ids], 'image')
        val = rng.normal(size=(h, w))
        p = m.plot_grain_data_map(map_data=val)
        want = np.array([val[ids == k].mean() for k in range(len(m))])[ids]
        show(ctx, p.img_layers[0], want, 'image')
        hi = [int(v) for v in rng.permutation(len(m))[:280]]
        p = m.plot_map('band_contrast', highlight_grains=hi,
                       highlight_colours=['red', 'lime', 'blue'])
        highlight_layer(ctx, m, p.img_layers[-1], hi,
                        ['red', 'lime', 'blue'], m.highlight_alpha)
    finally:
        plt.close('all')


def place_world(ctx, _made=[]):
    if not _made:
        rng = np.random.default_rng(3)
        spec = build.ebsd_spec(rng, shape=(14, 16), min_cells=3,
                               nonindexed='none',
                               phases=[build.cubic_phase()])
        em = build.ebsd_map(spec)
        em.data.generate('grains', min_grain_size=1)
        d = build.dic_map(ctx.scratch, build.smooth_disp(rng, spec.shape))
        pts = [(0, 0), (15, 0), (0, 13), (15, 13)]
        build.link(d, em, pts, pts)
        d.data.generate('grains', algorithm='warp', min_grain_size=1)
        em.calc_grain_av_oris()
        em.calc_grain_mis_ori(calc_axis=True)
        em.calc_average_grain_schmid_factors([1, 0, 0])
        _made.append((em, d))
    return _made[0]


X = np.array([1, 0, 0])
PLACED = {
    'max_shear': lambda e, d, k: d.plot_map('max_shear', **k),
    'kam': lambda e, d, k: e.plot_map('KAM', **k),
    'phase': lambda e, d, k: e.plot_map('phase', **k),
    'euler': lambda e, d, k: e.plot_euler_map(**k),
    'ipf': lambda e, d, k: e.plot_ipf_map(X, **k),
    'boundary': lambda e, d, k: e.plot_boundary_map(**k),
    'phase_boundary': lambda e, d, k: e.plot_phase_boundary_map(**k),
    'mis_ori': lambda e, d, k: e.plot_mis_ori_map(component=0, **k),
    'grain_data': lambda e, d, k: e.plot_grain_data_map(
        grain_data=np.arange(float(len(e))), **k),
    'grain_data_ipf': lambda e, d, k: e.plot_grain_data_ipf(
        X, grain_data=np.arange(float(len(e))), **k),
    'schmid': lambda e, d, k: e.plot_average_grain_schmid_factors_map(**k),
    'av_shear': lambda e, d, k: d.plot_grain_av_max_shear(**k),
    'locate': lambda e, d, k: e.locate_grain(**k),
    'g.max_shear': lambda e, d, k: d[0].plot_map('max_shear', **k),
    'g.data': lambda e, d, k: d[0].plot_grain_data(
        grain_data=d[0].data.max_shear, **k),
    'g.mis_ori': lambda e, d, k: e[0].plot_mis_ori(**k),
    'g.ref_ori': lambda e, d, k: e[0].plot_ref_ori(**k),
    'g.spread': lambda e, d, k: e[0].plot_ori_spread(**k),
    'g.cell': lambda e, d, k: e[0].plot_unit_cell(**k),
    'MapPlot': lambda e, d, k: plotting.MapPlot.create(
        e, np.zeros(e.shape), **k),
    'GrainPlot': lambda e, d, k: plotting.GrainPlot.create(
        e[0], e[0].grain_outline(), **k),
    'hist': lambda e, d, k: plotting.HistPlot.create(np.arange(5.), **k),
    'ipf_points': lambda e, d, k: Quat.plot_ipf([e[0].ref_ori], X, 'cubic',
                                                **k),
    'cell': lambda e, d, k: e[0].ref_ori.plot_unit_cell(
        e[0].phase.crystal_structure, **k),
    'numbers': lambda e, d, k: e.plot_grain_numbers(**k),
    'g.outline': lambda e, d, k: d[0].plot_outline(**k),
}


def drawn(ax):
    return len(ax.images) + len(ax.collections) + len(ax.lines) + \
        len(ax.patches) + len(ax.texts)


def s_place(ctx, rng, i):
    """A plot goes to the figure and axes it is asked to go to."""
    em, d = place_world(ctx)
    name = list(PLACED)[i % len(PLACED)]
    how = ['ax', 'fig', 'both', 'new'][int(rng.integers(4))]
    if name in ('numbers', 'g.outline') and how in ('fig', 'both'):
        how = 'ax'
    ctx.describe(distinct=[name, how, i], plot=name, how=how)
    plt.close('all')
    try:
        a = plt.figure()
        par = {'projection': '3d'} if 'cell' in name else {}
        a0 = a.add_subplot(121, **par)
        a1 = a.add_subplot(122, **par) if how in ('ax', 'both') else None
        b = plt.figure()              # the current one
        b0 = b.add_subplot(111, **par) if rng.random() < .5 else None
        k = {'ax': dict(ax=a1), 'fig': dict(fig=a), 'new': {},
             'both': dict(fig=a, ax=a1)}[how]
        p = PLACED[name](em, d, k)
        ctx.observe('placed_' + how)
        if how == 'new':
            ctx.check(p.fig not in (a, b) and p.ax.figure is p.fig, 'place',
                      plot=name, how=how)
        else:
            ctx.check(p.fig is a and p.ax.figure is a and p.ax is not a0 and
                      (a1 is None or p.ax is a1), 'place', plot=name, how=how)
        ctx.check(len(plt.get_fignums()) == 2 + (how == 'new'), 'place',
                  plot=name, how=how, figures=len(plt.get_fignums()))
        ctx.check(len(b.axes) == (b0 is not None) and drawn(a0) == 0 and
                  (b0 is None or drawn(b0) == 0) and drawn(p.ax) > 0,
                  'place', plot=name, how=how)
        ctx.check(len(p.fig.axes) == (p.colour_bar is not None) + {
            'ax': 2, 'fig': 2, 'both': 2, 'new': 1}[how], 'place', plot=name,
            how=how, axes=len(p.fig.axes))
        if p.colour_bar is not None:
            ctx.check(p.colour_bar.ax.figure is p.fig, 'place', plot=name,
                      how=how)
    finally:
        plt.close('all')


STREAMS = [Stream('map', 120, 3000, s_map),
           Stream('colour', 50, 1500, s_colour),
           Stream('pattern', 12, 300, s_pattern),
           Stream('grain_map', 70, 2000, s_grain_map),
           Stream('ebsd_map', 48, 1000, s_ebsd_map),
           Stream('grain', 60, 2000, s_grain),
           Stream('highlight', 40, 1200, s_highlight),
           Stream('layers', 40, 1000, s_layers),
           Stream('click', 40, 1000, s_click),
           Stream('many', 2, 30, s_many),
           Stream('profile', 25, 600, s_profile),
           Stream('place', 104, 1000, s_place)]
