"""C32: pole projections are the stated projections."""
import contextlib

import matplotlib as mpl
import matplotlib.pyplot as plt
import numpy as np

from vt import build, gui, ref
from vt.core import Skip, Stream
from checks.c05 import corner_dirs, gen
import defdap
from defdap.plotting import PolePlot
from defdap.quat import Quat

PROPERTY = 'C32'
RULE = ('directions (random; poles, equator, axes) through every projection '
        'given by name, function or default, as angles or vectors; inverse '
        'pole figures of orientations (random and hostile) of maps, grains '
        'and lists in both symmetries, triangle and frame conventions; '
        'distinct by input')
ASSUMPTIONS = ['the horizontal axis of a pole plot is the crystal y direction '
               'and the vertical axis the negative x direction, as the code '
               'and published figures have it',
               'points within 1e-5 of an edge may be either side of it']
REQUIRE = {'symmetric': 15, 'verdict:project': 200, 'verdict:points': 200, 'verdict:inside': 200,
           'verdict:values': 20, 'verdict:sector': 100, 'lambert': 20,
           'tsl': 3, 'down': 3, 'custom': 5, 'verdict:grain_points': 15,
           'verdict:labels': 100, 'halves': 5, 'solid': 1}
SYMS = ['cubic', 'hexagonal']
NAMES = {'stereo': ['stereographic', 'stereo', 'equal angle', 'Equal Angle',
                    'equalangle'],
         'lambert': ['lambert', 'Lambert', 'equal area', 'equalarea']}


def setup(ctx):
    gui.no_rendering()


def radius(kind, v):
    """Radius in the plot for unit vectors, from z alone."""
    z = v[..., 2]
    if kind == 'stereo':
        return np.sqrt((1 - z) / (1 + z))      # tan(alpha / 2)
    return np.sqrt(2 * (1 - z))


def project(kind, v):
    v = np.asarray(v, float)
    v = v / np.linalg.norm(v, axis=-1)[..., None]
    r = radius(kind, v)
    s = np.hypot(v[..., 0], v[..., 1])
    with np.errstate(all='ignore'):
        u = np.where((s > 0)[..., None], v[..., :2] / s[..., None], 0)
    return np.stack([r * u[..., 1], -r * u[..., 0]], -1)


@contextlib.contextmanager
def config(**kw):
    old = {k: defdap.defaults[k] for k in kw}
    defdap.defaults.update(kw)
    try:
        yield
    finally:
        defdap.defaults.update(old)


def own(a, b):
    """A custom projection of angles or vectors."""
    return 3 * np.asarray(a), 5 * np.asarray(b)


def choose(ctx, rng):
    """A projection argument, the default to be set, and what is expected."""
    kind = str(rng.choice(['stereo', 'lambert']))
    name = str(rng.choice(NAMES[kind]))
    other = 'lambert' if kind == 'stereo' else 'stereographic'
    m = rng.integers(4)
    if m == 0:
        arg, default = None, name
    elif m == 1:
        arg, default = name, other
    elif m == 2:
        arg = PolePlot.stereo_project if kind == 'stereo' else \
            PolePlot.lambert_project
        default = other
        ctx.observe('custom')
    else:                        # unknown: the default is used
        arg, default = ['unknown name', 17][rng.integers(2)], name
    ctx.observe(kind)
    return kind, arg, default


def s_project(ctx, rng, i):
    n = int(rng.integers(1, 20))
    v = rng.normal(size=(n, 3))
    for k in range(n):
        m = rng.integers(6)
        if m == 0:
            v[k] = [[0, 0, 1], [1, 0, 0], [0, 1, 0], [-1, 0, 0], [0, -1, 0],
                    [1, 1, 1]][rng.integers(6)]
        elif m == 1:
            v[k] = rng.integers(-2, 3, 3) + [0, 0, .001]
    v *= rng.uniform(.1, 10, (n, 1))
    # the south pole is at infinity
    v[v[:, 2] < -.95 * np.linalg.norm(v, axis=1), 2] *= -1
    kind, arg, default = choose(ctx, rng)
    ctx.describe(distinct=[kind, i, str(arg)], n=n, kind=kind, arg=str(arg))
    with config(pole_projection=default):
        validate = ctx.internal('defdap.plotting',
                                'PolePlot._validateProjection',
                                ['projection_in', 'validate_default'],
                                'verdict:project', 'lambert', 'custom')
        if not validate:
            raise Skip
        f = validate(arg)
    want = project(kind, v)
    if rng.random() < .5:
        got = f(*v.T.copy())
    else:
        u = v / np.linalg.norm(v, axis=1)[:, None]
        got = f(np.arctan2(np.hypot(u[:, 0], u[:, 1]), u[:, 2]),
                np.arctan2(u[:, 1], u[:, 0]))
    ctx.close(np.stack(got, -1), want, 'project', atol=1e-6, kind=kind)
    one = f(*v[0])
    ctx.close(one, want[0], 'project', atol=1e-6, kind=kind)
    for bad in (v[0][:1], [.1, .2, .3, .4]):
        with ctx.raises(Exception, 'refused'):
            f(*bad)


def offsets(layer):
    return np.asarray(layer.get_offsets(), float)


def wanted(gs, d, sym, tri):
    """Candidate fundamental directions of each orientation."""
    c = corner_dirs(sym, tri)
    c = c / np.linalg.norm(c, axis=1)[:, None]
    ns = []
    for a, b, o in ((1, 2, 0), (0, 2, 1), (0, 1, 2)):
        n = np.cross(c[a], c[b])
        n /= np.linalg.norm(n)
        ns.append(n if n @ c[o] > 0 else -n)
    ns = np.array(ns)
    out = []
    for g in gs:
        img = ref.SYM[sym] @ (g @ (np.asarray(d) / np.linalg.norm(d)))
        img = np.vstack([img, -img])
        out.append(img[(img @ ns.T).min(1) > -1e-5])
    return out


def judge(ctx, plot, layer, gs, d, sym, tri, kind, mech='points'):
    got = offsets(layer)
    ctx.check(got.shape == (len(gs), 2), mech, got=got.shape, want=len(gs))
    for p, cand in zip(got, wanted(gs, d, sym, tri)):
        q = project(kind, cand)
        ctx.check(np.abs(q - p).max(1).min() < 1e-5, mech, got=p, want=q,
                  sym=sym, triangle=tri, kind=kind)
    # inside the sector drawn: the three lines close a convex outline of the
    # projection of the sector, so compare with the outline's own points
    sector(ctx, plot, got, sym, tri, kind)


def outline(plot):
    return [np.stack([ln.get_xdata(), ln.get_ydata()], -1)
            for ln in plot.ax.lines[:3]]


def sector(ctx, plot, pts, sym, tri, kind):
    lines = outline(plot)
    c = corner_dirs(sym, tri)
    want = project(kind, c)
    ends = np.array([p for ln in lines for p in (ln[0], ln[-1])])
    for w in want:      # each corner is the end of exactly two lines
        ctx.check((np.abs(ends - w).max(1) < 1e-6).sum() == 2, 'sector',
                  corner=w, ends=ends)
    # every point of a line is on the great circle of its corners
    for ln in lines:
        a = c[np.abs(want - ln[0]).max(1).argmin()]
        b = c[np.abs(want - ln[-1]).max(1).argmin()]
        t = np.linspace(0, 1, 200)[:, None]
        arc = project(kind, (1 - t) * a / np.linalg.norm(a) + t * b /
                      np.linalg.norm(b))
        dist = np.hypot(*(ln[:, None] - arc[None]).transpose(2, 0, 1))
        ctx.check(dist.min(1).max() < 5e-3, 'sector', dist=dist.min(1).max())
    # polygon around the sector, from the lines as drawn
    poly = list(lines[0])
    rest = [lines[1], lines[2]]
    while rest:
        for k, ln in enumerate(rest):
            if np.abs(ln[0] - poly[-1]).max() < 1e-6:
                poly += list(ln)
                del rest[k]
                break
            if np.abs(ln[-1] - poly[-1]).max() < 1e-6:
                poly += list(ln[::-1])
                del rest[k]
                break
        else:
            ctx.fail('sector', what='lines do not close')
    from matplotlib.path import Path
    path = Path(poly)
    inside = path.contains_points(pts, radius=2e-4) | \
        path.contains_points(pts, radius=-2e-4)
    ctx.check(inside.all(), 'inside', points=pts[~inside])
    ctx.observe('verdict:inside', len(pts))
    texts = [t for t in plot.ax.texts]
    ctx.check(len(texts) >= 3, 'labels')
    for t in texts[:3]:
        p = np.array(t.get_position())
        off = np.abs(want - p)
        off = off[off.max(1).argmin()]
        ctx.check(off[0] < 1e-6 and off[1] < .02, 'labels', pos=p,
                  corners=want)


def s_ipf(ctx, rng, i):
    sym = SYMS[i % 2]
    n = int(rng.choice([1, 4, 15]))
    d, tri, gs, edge = gen(rng, i // 2, sym, n)
    kind, arg, default = choose(ctx, rng)
    conv = str(rng.choice(['hkl', 'tsl'])) if sym == 'hexagonal' else 'hkl'
    if sym == 'cubic':
        tri = 'up'
    ctx.observe('tsl', conv == 'tsl')
    ctx.observe('down', tri == 'down')
    ctx.describe(distinct=[sym, i, d.tolist()], sym=sym, tri=tri, conv=conv,
                 kind=kind, n=n, d=d)
    quats = Quat.create_many_quats(ref.mat_to_eulers(gs))
    try:
        with config(pole_projection=default, ipf_triangle_convention=tri,
                    crystal_ortho_conv=conv):
            vals = rng.normal(size=n)
            kw = {}
            if n > 1 and rng.random() < .5:
                kw = {'c': vals}
            bar = [None, False, True][int(rng.integers(3))]
            if bar is not None:
                kw['plot_colour_bar'] = bar
                if bar:
                    kw['clabel'] = 'Value here'
                    ctx.observe('ipf_colour_bar')
            if n == 1 and rng.random() < .5:
                p = quats[0].plot_ipf(d, sym, projection=arg, **kw)
            elif rng.random() < .5:
                p = Quat.plot_ipf(list(quats), d, sym, projection=arg, **kw)
            else:
                p = Quat.plot_ipf(quats, d, sym, projection=arg, **kw)
            layer = p.img_layers[-1]
            judge(ctx, p, layer, gs, d, sym, tri, kind)
            if 'c' in kw:
                ctx.equal(np.asarray(layer.get_array()), vals, 'values')
            ctx.check((p.colour_bar is not None) == bool(bar) and
                      len(p.fig.axes) == 1 + bool(bar), 'ipf_colour_bar',
                      asked=bar)
            if bar:
                ctx.check(p.colour_bar.mappable is layer and 'Value here' in (
                    p.colour_bar.ax.get_ylabel(),
                    p.colour_bar.ax.get_xlabel()), 'ipf_colour_bar')
            # more orientations into the same plot
            if rng.random() < .4:
                d2, _, g2, _ = gen(rng, i, sym, 3)
                q2 = Quat.create_many_quats(ref.mat_to_eulers(g2))
                before = len(p.img_layers)
                form = int(rng.integers(4))
                if form == 0:
                    r = Quat.plot_ipf(q2, d2, sym, plot=p)
                    cols = None
                else:
                    cols = [['r'], ['r', 'b'], ['b', 'r']][form - 1]
                    if rng.random() < .6:       # a two letter name
                        cols = ['C3' if c == 'r' else c for c in cols]
                    arg2 = cols[0] if form == 1 and rng.random() < .5 else \
                        list(cols)
                    size = float(rng.uniform(1, 60))
                    sized = True
                    if rng.random() < .5:
                        r = Quat.plot_ipf(q2, d2, sym, plot=p,
                                          marker_colour=arg2,
                                          marker_size=size)
                    else:
                        a, b = Quat.calc_fund_dirs(q2, d2, sym, triangle=tri)
                        kw2 = {} if rng.random() < .3 else \
                            {'marker_size': size}
                        sized = bool(kw2)
                        p.add_points(a, b, marker_colour=arg2, **kw2)
                        r = p
                    ctx.observe('halves', len(cols) == 2)
                    ctx.observe('solid', len(cols) == 1)
                new = p.img_layers[before:]
                ctx.check(r is p and len(new) == (len(cols) if cols else 1),
                          'same_plot')
                for k, lay in enumerate(new):
                    judge(ctx, p, lay, g2, d2, sym, tri, kind)
                    if cols and len(cols) == 1 and form != 0:
                        used = size if sized else None
                        if used is not None:
                            ctx.close(lay.get_sizes(), [used], 'size')
                    if cols:
                        col = mpl.colors.to_rgba(cols[k])
                        fc = np.atleast_2d(lay.get_facecolor())
                        ctx.close(fc, np.tile(col, (len(fc), 1)), 'marker')
                if cols and len(cols) == 2:
                    # one upper and one lower semicircle
                    box = [lay.get_paths()[0].vertices for lay in new]
                    ctx.check(box[0][:, 1].min() > -1e-6 and
                              box[1][:, 1].max() < 1e-6, 'marker')
                judge(ctx, p, layer, gs, d, sym, tri, kind)
                with ctx.raises(Exception, 'refused'):
                    p.add_points(np.array([.1]), np.array([.1]),
                                 marker_colour=['r', 'g', 'b'])
    finally:
        plt.close('all')


def indices(text):
    """Whole numbers of a label such as 1$\\bar{2}$0."""
    out, bar = [], False
    for c in text:
        if c == 'b':
            bar = True
        elif c.isdigit():
            out.append(-int(c) if bar else int(c))
            bar = False
    return out


def symmetric_labels(ctx, rng, p, sym, kind):
    """All equivalents of a direction labelled, each at its own place."""
    if sym == 'cubic':
        idc = [0, 0, 0]
        while not any(idc) or idc[2] < 0:
            idc = [int(v) for v in rng.integers(-4, 5, 3)]

        def vector(v):
            return np.array(v, float)
    else:
        u, v = [(1, 0), (0, 1), (2, -1), (-1, 2), (1, 1), (3, -1), (-1, -2),
                (0, 0)][rng.integers(8)]
        idc = [u, v, -u - v, 0 if u or v else 1]

        def vector(v):
            ang = np.deg2rad([-30, 90, 210])
            return np.array([np.dot(v[:3], np.cos(ang)),
                             np.dot(v[:3], np.sin(ang)), v[3]])
    ops = ref.SYM[sym]
    eq = np.array([op @ vector(idc) for op in ops])
    own = 'own' if rng.random() < .3 else None
    n = len(p.ax.texts)
    dx, dy = rng.uniform(-.1, .1, 2)
    p.label_point(tuple(idc), own, plot_syms=True, pad_x=dx, pad_y=dy)
    new = p.ax.texts[n:]
    ctx.observe('symmetric')
    ctx.check(len(new) == len(ops), 'symmetric_labels', n=len(new))
    at = np.array([t.get_position() for t in new]) - (dx, dy)
    both = np.concatenate([project(kind, eq[eq[:, 2] > -1e-9]),
                           project(kind, -eq[eq[:, 2] < 1e-9])])
    dist = np.linalg.norm(at[:, None] - both[None], axis=2)
    ctx.check(dist.min(1).max() < 1e-6, 'symmetric_labels',
              what='not an equivalent on the upper half', idc=idc)
    # every equivalent (or its antipode) is there
    for v in eq:
        v = v if v[2] > -1e-9 else -v
        alt = [project(kind, v)] + [project(kind, -v)] * int(abs(v[2]) < 1e-9)
        ctx.check(min(np.linalg.norm(at - a, axis=1).min()
                      for a in alt) < 1e-6, 'symmetric_labels',
                  what='missing', idc=idc, v=v)
    for t, a in zip(new, at):
        if own:
            ctx.check(t.get_text() == own, 'symmetric_labels')
            continue
        got = indices(t.get_text())
        v = vector(got)
        alt = [project(kind, v)] + [project(kind, -v)] * int(abs(v[2]) < 1e-9)
        ctx.check(len(got) == len(idc) and min(
            np.linalg.norm(a - b) for b in alt) < 1e-6, 'symmetric_labels',
            what='text', text=t.get_text(), at=a)


def s_annotate(ctx, rng, i):
    """Lines, labels, colour bar and size legend added by the user."""
    sym = SYMS[i % 2]
    kind, arg, default = choose(ctx, rng)
    try:
        with config(pole_projection=default):
            p = PolePlot('IPF', sym, projection=arg)
            other = plt.figure().add_subplot()
            n = len(p.ax.lines), len(p.ax.texts)

            def direction():
                while True:
                    d = rng.integers(-3, 4, 3).astype(float)
                    if d.any() and d[2] > 0:
                        break
                return tuple(int(v) for v in d), d
            (i1, d1), (i2, d2) = direction(), direction()
            ctx.describe(distinct=[i, sym, i1, i2], sym=sym, line=(i1, i2))
            if sym == 'cubic':
                res = int(rng.integers(5, 60))
                p.add_line(i1, i2, res=res, c='r')
                ln = p.ax.lines[n[0]]
                pts = np.stack([ln.get_xdata(), ln.get_ydata()], -1)
                t = np.linspace(0, 1, res)[:, None]
                ctx.close(pts, project(kind, (1 - t) * d1 + t * d2), 'line',
                          atol=1e-7)
                ctx.check(ln.get_color() == 'r' and
                          len(p.ax.lines) == n[0] + 1, 'line')
                dx, dy = rng.uniform(-.1, .1, 2)
                name = 'mine' if rng.random() < .5 else None
                p.label_point(i1, name, pad_x=dx, pad_y=dy)
                t = p.ax.texts[n[1]]
                ctx.close(t.get_position(), project(kind, d1) + (dx, dy),
                          'label_at', atol=1e-7)
                if name:
                    ctx.check(t.get_text() == name, 'label_text')
                else:
                    want = ''.join(
                        r'\bar{%d}' % -v if v < 0 else str(v) for v in i1)
                    ctx.check(''.join(c for c in t.get_text()
                                      if c not in '[]<>(){}$ ') ==
                              ''.join(c for c in want if c not in '{}'),
                              'label_text', got=t.get_text(), want=want)
            symmetric_labels(ctx, rng, p, sym, kind)
            # sizes
            k = int(rng.integers(4, 12))
            sizes = rng.uniform(20, 400, k)
            scaling = float(rng.choice([1, .5, 4.]))
            vals = rng.normal(size=k)
            p.add_points(rng.uniform(0, .7, k), rng.uniform(0, 1.5, k),
                         s=sizes, c=vals)
            lay = len(p.img_layers) - 1
            p.add_points(np.array([.1]), np.array([.2]), s=3.)
            p.add_legend(label='Area', layer=lay, scaling=scaling)
            ctx.check(p.legend.axes is p.ax and other.get_legend() is None,
                      'legend_place')
            ctx.check(p.legend.get_title().get_text() == 'Area', 'legend')
            for h, t in zip(p.legend.legend_handles, p.legend.get_texts()):
                v = float(''.join(c for c in t.get_text().replace(
                    'mathdefault', '') if c in '0123456789.'))
                got = h.get_markersize() ** 2 / scaling
                ctx.check(abs(v - got) <= .01 * got, 'legend', shown=v,
                          size=got)
            p.add_colour_bar('Value', layer=lay)
            ctx.check(p.colour_bar.mappable is p.img_layers[lay] and
                      'Value' in (p.colour_bar.ax.get_ylabel(),
                                  p.colour_bar.ax.get_xlabel()), 'bar')
    finally:
        plt.close('all')


def s_grain(ctx, rng, i):
    one = i % 5 != 4
    big = i % 10 == 3
    spec = build.ebsd_spec(rng, max_dim=14, noise=float(rng.choice([0, 2.])),
                           shape=(41, 37) if big else None,
                           min_cells=1 if big else None,
                           phases=[build.cubic_phase() if i % 2 else
                                   build.hex_phase()] if one else None,
                           multi=not one)
    m = build.ebsd_map(spec)
    m.data.generate('grains', min_grain_size=2)
    if not len(m):
        return
    ctx.observe('large_grains', big)
    d = rng.normal(size=3) if rng.random() < .5 else \
        np.array([[0, 0, 1], [1, 0, 0], [0, 1, 0]][rng.integers(3)])
    ctx.describe(distinct=[spec.shape, spec.kind, i], shape=spec.shape,
                 phases=len(spec.phases), grains=len(m))
    m.calc_grain_av_oris()
    try:
        R = [ref.quat_to_mat(g.ref_ori.quat_coef) for g in m]
        g = int(rng.integers(len(m)))
        sym = m[g].phase.crystal_structure.name
        ctx.observe('secondary_phase', m[g].phase is not m.primary_phase)
        p = m[g].plot_ref_ori(direction=d)
        judge(ctx, p, p.img_layers[-1], [R[g]], d, sym, 'up', 'stereo',
              'grain_points')
        p = m[g].plot_ori_spread(direction=d)
        pts = m[g].data.point
        judge(ctx, p, p.img_layers[-1],
              [ref.bunge(*spec.euler[:, y, x]) for x, y in pts], d, sym, 'up',
              'stereo', 'grain_points')
        if not one:
            return
        val = rng.normal(size=spec.shape)
        ids = -1 if rng.random() < .5 else \
            [int(v) for v in rng.permutation(len(m))[:rng.integers(
                1, len(m) + 1)]]
        want = list(range(len(m))) if ids == -1 else ids
        if rng.random() < .25:
            ids = int(rng.integers(len(m)))
            want = [ids]
        if rng.random() < .5:
            p = m.plot_grain_data_ipf(d, map_data=val, grain_ids=ids)
            vals = [np.mean([val[y, x] for x, y in m[k].data.point])
                    for k in want]
        else:
            vals = rng.normal(size=len(want))
            p = m.plot_grain_data_ipf(d, grain_data=vals, grain_ids=ids)
        judge(ctx, p, p.img_layers[-1], [R[k] for k in want], d, sym, 'up',
              'stereo', 'grain_points')
        ctx.close(np.asarray(p.img_layers[-1].get_array()), vals, 'values',
                  atol=1e-9)
        with ctx.raises(Exception, 'refused'):
            m.plot_grain_data_ipf(d, grain_data=[1.] * (len(m) + 1))
    finally:
        plt.close('all')


STREAMS = [Stream('project', 80, 3000, s_project),
           Stream('ipf', 60, 2000, s_ipf),
           Stream('annotate', 30, 800, s_annotate),
           Stream('grain', 30, 800, s_grain)]
