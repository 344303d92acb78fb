"""C35: drawings of cells, traces and bands show the grain orientation."""
import contextlib
import io

import matplotlib as mpl
import numpy as np

from vt import build, gui, ref
from vt.core import Stream
from defdap import plotting
from defdap.crystal import crystalStructures
from defdap.quat import Quat

PROPERTY = 'C35'
RULE = ('random and special orientations of cubic and hexagonal crystals; '
        'unit cells of quaternions and of EBSD grains; slip traces and given '
        'bands on EBSD and linked DIC grains; bands of random number and '
        'angle (including vertical) drawn on convex grains; distinct by '
        'orientation, grain and options')
ASSUMPTIONS = ['the hexagonal cell has its corners on the a axes and is drawn '
               'with its own fixed size and ratio',
               'bands are straight, several points apart, at least 45 degrees '
               'from other sets and ten times as strong as the background',
               'band angles are found within 3 degrees']
REQUIRE = {'verdict:cell': 60, 'verdict:cell_shape': 60, 'grain_cell': 20,
           'verdict:trace': 150, 'verdict:trace_colour': 150,
           'verdict:trace_place': 60, 'top_only': 15, 'dic_grain': 10,
           'verdict:detected': 40, 'near_vertical': 8, 'two_sets': 10,
           'verdict:drawn_bands': 8, 'verdict:printed': 30,
           'verdict:given_bands': 15}


def setup(ctx):
    gui.no_rendering()


def faces_of(ax):
    out = []
    for c in ax.collections:
        f = getattr(c, '_faces', None)
        if f is None:
            continue
        bad = getattr(c, '_invalid_vertices', False)
        f = np.asarray(f)
        if bad is False:
            bad = np.zeros(f.shape[:2], bool)
        out += [face[~b] for face, b in zip(f, bad)]
    return out


def check_cell(ctx, ax, g, name, corner0):
    """`g`: sample to crystal; corner0: azimuth of one corner (hexagonal)."""
    faces = faces_of(ax)
    if name == 'cubic':
        corners = np.array([[x, y, z] for x in (-1, 1) for y in (-1, 1)
                            for z in (-1, 1)]) / 2
        want = []
        for a in range(3):
            for s in (-.5, .5):
                want.append({k for k in range(8) if corners[k][a] == s})
    else:
        az = corner0 + np.arange(6) * np.pi / 3
        ratio = abs(crystalStructures['hexagonal'].vertices[0, 2])
        corners = np.array([[np.cos(a), np.sin(a), z] for z in (-ratio, ratio)
                            for a in az])
        want = [set(range(6)), set(range(6, 12))]
        want += [{k, (k + 1) % 6, k + 6, (k + 1) % 6 + 6} for k in range(6)]
    ctx.check(len(faces) == len(want), 'cell', n=len(faces))
    pts = np.concatenate(faces) @ g.T
    size = np.linalg.norm(pts, axis=1).mean() / np.linalg.norm(corners[0])
    ctx.check(.05 < size < .5, 'cell', size=size)
    left = list(want)
    edge = min(np.linalg.norm(corners[0] - c) for c in corners[1:])
    for f in faces:
        v = f @ g.T / size
        d = np.linalg.norm(v[:, None] - corners[None], axis=2)
        ctx.check(d.min(1).max() < 1e-6, 'cell', got=v, corners=corners)
        k = list(d.argmin(1))
        ctx.check(len(set(k)) == len(k) and set(k) in left, 'cell_shape',
                  face=k)
        left.remove(set(k))
        # neighbouring vertices are joined: the outline follows cell edges
        for a, b in zip(k, k[1:] + k[:1]):
            e = np.linalg.norm(corners[a] - corners[b])
            ok = abs(e - edge) < 1e-6 if name == 'cubic' else \
                min(abs(e - 1), abs(e - 2 * ratio)) < 1e-6
            ctx.check(ok, 'cell_shape', face=k)
    # seen from above: x to the right, y up
    x, y = [], []
    for v in np.eye(3):
        p = mpl_project(ax, v) - mpl_project(ax, np.zeros(3))
        x.append(p[0])
        y.append(p[1])
    ctx.check(x[0] > 0 and abs(y[0]) < 1e-6 and y[1] > 0 and
              abs(x[1]) < 1e-6 and max(abs(x[2]), abs(y[2])) < 1e-6, 'view',
              got=[x, y])
    for lim in (ax.get_xlim3d(), ax.get_ylim3d(), ax.get_zlim3d()):
        ctx.check(abs(lim[0] + lim[1]) < 1e-6 and lim[1] > 0, 'view')


def mpl_project(ax, v):
    from mpl_toolkits.mplot3d import proj3d
    return np.array(proj3d.proj_transform(*v, ax.get_proj())[:2])


SPECIAL = [0, np.pi / 6, np.pi / 4, np.pi / 3, np.pi / 2, np.pi]


def s_cell(ctx, rng, i):
    name = ['cubic', 'hexagonal'][i % 2]
    e = np.array([rng.uniform(0, 2 * np.pi), rng.uniform(0, np.pi),
                  rng.uniform(0, 2 * np.pi)])
    for k in range(3):
        if rng.random() < .25:
            e[k] = rng.choice(SPECIAL)
    kw, corner = {}, np.pi / 6
    if rng.integers(2):
        kw['OI'] = bool(rng.integers(2))
        if not kw['OI']:
            corner = 0.
    q = Quat.from_euler_angles(*e)
    before = q.quat_coef.copy()
    if rng.integers(2):
        q = -q if hasattr(q, '__neg__') else Quat(*-before,
                                                  allow_southern=True)
    keep = q.quat_coef.copy()
    ctx.describe(distinct=[name, e.round(6).tolist(), kw], structure=name,
                 euler=e, **kw)
    if rng.integers(2):
        plot = plotting.CrystalPlot()
        p = q.plot_unit_cell(crystalStructures[name], plot=plot, **kw)
        ctx.check(p is plot, 'same_plot')
    else:
        p = q.plot_unit_cell(crystalStructures[name], **kw)
    check_cell(ctx, p.ax, ref.bunge(*e), name, corner)
    ctx.equal(q.quat_coef, keep, 'unchanged')
    p = q.plot_unit_cell(crystalStructures[name], alpha=.35,
                         facecolor=(1, 0, 0), **kw)
    col = p.ax.collections[0]
    ctx.check(col.get_alpha() == .35, 'options')
    gui.close()


def a_map(ctx, rng, i, dic):
    phases = [[build.cubic_phase()], [build.hex_phase()],
              [build.cubic_phase('c'), build.hex_phase('h')]][i % 3]
    for _ in range(10):
        spec = build.ebsd_spec(rng, max_dim=16, phases=phases,
                               noise=float(rng.choice([0, 2.])))
        if min(spec.shape) < 4:
            continue
        em = build.ebsd_map(spec)
        em.data.generate('grains', min_grain_size=1)
        m = em
        if dic:
            m = build.dic_map(ctx.scratch, build.smooth_disp(
                rng, spec.shape), int(rng.choice([2, 8])))
            h, w = spec.shape
            pts = [(0, 0), (w - 1, 0), (0, h - 1), (w - 1, h - 1)]
            build.link(m, em, pts, pts)
            m.data.generate('grains', algorithm=str(rng.choice(
                ['warp', 'floodfill'])), min_grain_size=1)
            m.set_scale(.5)
        gs = [g for g in m if (g if not dic else g.ebsd_grain) is not None]
        if gs:
            return m, gs
    return None, None


def quivers(ax):
    return gui.arrows(ax)


def check_traces(ctx, qs, angles, colours, pos, top, mech='trace'):
    ctx.check(len(qs) == len(angles), mech, n=len(qs), want=len(angles))
    for k, (q, a) in enumerate(zip(qs, angles)):
        u = q.u
        if a is None or not np.isfinite(a):
            continue
        d = np.array([-np.sin(a), np.cos(a)])
        ctx.close(np.linalg.norm(u), 1., mech, atol=1e-6)
        ctx.check(abs(u[0] * d[1] - u[1] * d[0]) < 1e-5, mech, got=u, want=d)
        if top:
            ctx.check(u[1] > -1e-6 and q.pivot == 'tail', 'top', got=u)
        else:
            ctx.check(q.pivot == 'middle', 'middle')
        ctx.close(q.pos, pos, mech + '_place')
        if colours is not None:
            c = colours[min(k, len(colours) - 1)]
            ctx.close(q.colour[:3], mpl.colors.to_rgb(c),
                      mech + '_colour', atol=1e-9, k=k)
        # angle on the screen, whatever way the axes run
        ctx.check(isinstance(q.angles, str) and q.angles == 'uv', mech)


def true_traces(g, ori):
    gm = ori.rot_matrix()
    out = []
    for grp in g.phase.slip_systems:
        n = gm.T @ grp[0].slip_plane         # crystal to sample
        if np.hypot(n[0], n[1]) < 1e-3:
            out.append(None)
        else:
            # direction of the trace is (-n_y, n_x): perpendicular to n
            out.append(np.arctan2(n[1], n[0]) % np.pi)
    return out


def s_grain(ctx, rng, i):
    dic = bool(i % 2)
    m, gs = a_map(ctx, rng, i // 2, dic)
    if m is None:
        ctx.describe()
        return
    g = gs[int(rng.integers(len(gs)))]
    eg = g.ebsd_grain if dic else g
    if rng.integers(2):
        m_e = m.ebsd_map if dic else m
        m_e.calc_grain_av_oris()
    if dic:
        ctx.observe('dic_grain')
    ctx.describe(distinct=['grain', dic, i], dic=dic,
                 structure=eg.phase.crystal_structure.name, points=len(g))
    if not dic:
        ctx.observe('grain_cell')
        plot = None
        p = g.plot_unit_cell() if rng.integers(2) else g.plot_default()
        check_cell(ctx, p.ax, eg.ref_ori.rot_matrix(),
                   eg.phase.crystal_structure.name, np.pi / 6)
    if not dic and rng.integers(2):
        m.calc_rdr()
        ctx.check(eg.ref_ori is not None, 'trace')
    vals = rng.random(len(g))
    p = g.plot_grain_data(grain_data=vals, plot_slip_traces=True)
    want = true_traces(eg, eg.ref_ori)
    pts = np.asarray(g.data.point, float)
    x0, y0 = pts.min(0)
    x1, y1 = pts.max(0)
    centre = [np.floor((x1 - x0) / 2 + .5), np.floor((y1 - y0) / 2 + .5)]
    names = [c for c in eg.phase.slip_trace_colours]
    qs = quivers(p.ax)
    pos = g.centre_coords()
    ctx.check(abs(pos[0] - (x1 - x0) / 2) <= .5 and
              abs(pos[1] - (y1 - y0) / 2) <= .5, 'trace_place', got=pos,
              want=centre)
    check_traces(ctx, qs, want, names, pos, False)
    top = bool(rng.integers(2))
    p = g.plot_grain_data(grain_data=vals)
    ctx.check(not quivers(p.ax), 'no_traces')
    kw = {}
    if rng.integers(2):
        names = [str(c) for c in rng.permutation(['r', 'b', 'C2', 'k'])]
        names = names[:int(rng.integers(1, 5))]
        kw['colours'] = names
    if rng.integers(2):
        pos = (float(rng.uniform(0, 5)), float(rng.uniform(0, 5)))
        kw['pos'] = pos
    if top:
        ctx.observe('top_only')
    p.add_slip_traces(top_only=top, **kw)
    qs = quivers(p.ax)
    check_traces(ctx, qs, want, names, pos, top)
    # bands given in degrees of any kind of list
    ang = rng.uniform(0, np.pi, int(rng.integers(1, 4)))
    colour = str(rng.choice(['black', 'red', 'C1']))
    n0 = len(qs)
    given = ang.tolist() if rng.integers(2) else ang
    kw = {} if colour == 'black' and rng.integers(2) else {'colour': colour}
    p.add_slip_bands(angles=given, top_only=top, **kw)
    check_traces(ctx, quivers(p.ax)[n0:], ang, [colour], g.centre_coords(),
                 top, 'given_bands')
    if not dic:
        load = rng.normal(size=3)
        load /= np.linalg.norm(load)
        if eg.average_schmid_factors is None:
            with ctx.raises(Exception, 'printed'):
                g.print_slip_traces()
        m.calc_average_grain_schmid_factors(load)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            g.print_slip_traces()
        lines = out.getvalue().splitlines()
        k = 0
        # (the values of the factors: property C08)
        for grp, col, tr, sfs in zip(
                g.phase.slip_systems, g.phase.slip_trace_colours, want,
                g.average_schmid_factors):
            head = lines[k].split('\t')
            k += 1
            ctx.check(head[0] == grp[0].slip_plane_label and
                      head[1] == f'Colour: {col}', 'printed', got=head)
            if tr is not None:
                a = np.deg2rad(float(head[2].split()[1]))
                d = abs((a - tr + np.pi / 2) % np.pi - np.pi / 2)
                ctx.check(d < 2e-4, 'printed', got=head, want=tr)
            for ss, sf in zip(grp, sfs):
                row = lines[k].split()
                k += 1
                ctx.check(lines[k - 1].strip().startswith(ss.slip_dir_label),
                          'printed', got=row)
                ctx.close(float(row[-1]), sf, 'printed', atol=6e-4)
        ctx.check(k == len(lines), 'printed')
    gui.close()


def banded(rng, n, angles):
    """Strain in an elliptical grain with sets of parallel bands."""
    y, x = np.mgrid[:n, :n].astype(float)
    c = (n - 1) / 2
    u, v = x - c, c - y                     # x right, y up
    a, b = n / 2 * .95, n / 2 * rng.uniform(.65, .95)
    t = rng.uniform(0, np.pi)
    p = u * np.cos(t) + v * np.sin(t)
    q = -u * np.sin(t) + v * np.cos(t)
    inside = (p / a) ** 2 + (q / b) ** 2 < 1
    d = np.full((n, n), .01) * rng.uniform(1, 1 + rng.integers(2), (n, n))
    for ang in angles:
        s = u * np.cos(ang) + v * np.sin(ang)
        offs = np.arange(-.6 * b, .6 * b, 8)
        for off in rng.permutation(offs)[:int(rng.integers(2, 5))]:
            d += .1 * np.exp(-.5 * ((s - off) / 1.) ** 2)
    return d, inside


_grain = []


def any_dic_grain(ctx):
    if not _grain:
        rng = np.random.default_rng(5)
        spec = build.ebsd_spec(rng, shape=(8, 9), kind='single',
                               phases=[build.cubic_phase()],
                               nonindexed='none')
        em = build.ebsd_map(spec)
        em.data.generate('grains', min_grain_size=1)
        m = build.dic_map(ctx.scratch, build.smooth_disp(rng, spec.shape))
        pts = [(0, 0), (8, 0), (0, 7), (8, 7)]
        build.link(m, em, pts, pts)
        m.data.generate('grains', algorithm='warp', min_grain_size=1)
        _grain.append(m[0])
    return _grain[0]


def dist(a, b):
    return abs((np.asarray(a) - b + 90) % 180 - 90)


def s_bands(ctx, rng, i):
    n = int(rng.integers(44, 90))
    a0 = float(rng.uniform(0, 180))
    if i % 3 == 0:
        a0 = float(rng.choice([0, .4, 1, 2, 4, 176, 178, 179, 179.6]))
    angs = [a0]
    if i % 2:
        angs.append((a0 + rng.uniform(50, 130)) % 180)
        ctx.observe('two_sets')
    ctx.observe('near_vertical', min(dist(angs, 0)) < 5)
    d, inside = banded(rng, n, np.deg2rad(angs))
    ctx.describe(distinct=['bands', np.round(angs, 2).tolist(), n], n=n,
                 angles=angs)
    g = any_dic_grain(ctx)
    data = np.where(inside, d, rng.choice([0., np.nan]))
    if rng.random() < .3:
        data = -data
    keep = data.copy()
    kw = {}
    if rng.random() < .5:
        kw = {'thres': .3, 'min_dist': 30}
    got = np.rad2deg(g.calc_slip_bands(data, **kw))
    ctx.equal(data, keep, 'unchanged')
    ctx.check(len(got) == len(angs) and np.all((got >= 0) & (got < 180)) and
              all(min(dist(got, a)) < 3 for a in angs), 'detected', got=got,
              want=angs)
    # and drawn on the plot of a grain
    if i % 4 in (1, 2):
        p = plotting.GrainPlot.create(g, data, plot_slip_bands=True)
        qs = quivers(p.ax)
        ctx.check(len(qs) == len(got), 'drawn_bands')
        check_traces(ctx, qs, np.deg2rad(got), ['black'], g.centre_coords(),
                     False, 'drawn_bands')
        n0 = len(qs)
        kw = {'min_dist': 130} if rng.random() < .6 else \
            {'thres': .97, 'min_dist': 60}
        p.add_slip_bands(grain_map_data=data, top_only=False, **kw)
        got = np.rad2deg(g.calc_slip_bands(data, **kw))
        ctx.check(len(quivers(p.ax)) - n0 == len(got), 'drawn_bands')
        check_traces(ctx, quivers(p.ax)[n0:], np.deg2rad(got), ['black'],
                     g.centre_coords(), False, 'drawn_bands')
        gui.close()


STREAMS = [
    Stream('cell', 80, 2500, s_cell),
    Stream('grain', 60, 1200, s_grain),
    Stream('bands', 60, 1200, s_bands),
]
