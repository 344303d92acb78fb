"""C20: in-grain misorientation is measured from the grain reference."""
import numpy as np
import matplotlib.pyplot as plt

from vt import ref, build
from vt.core import Stream

PROPERTY = 'C20'
RULE = ('maps of 1..8 grains (cubic, hexagonal, two phases) with in-grain '
        'spread 0..8 degrees, orientations given as random symmetric '
        'equivalents, and uniform grains; lists, stored data, map images and '
        'both plot routes; distinct by map')
ASSUMPTIONS = ['axis in the sense q_ref -> q_point, in crystal coordinates',
               'angles from cosines: tolerance 3e-8 at the cosine, 1e-6 '
               'elsewhere']
REQUIRE = {'verdict:grod': 100, 'verdict:grod_axis': 100,
           'verdict:list_cos': 100, 'verdict:map_image': 60,
           'zero_deviation': 50, 'verdict:plotted': 30, 'scrambled': 500,
           'two_phase_maps': 5, 'given_reference': 8}


def make(rng, i):
    phases = [[build.cubic_phase()], [build.hex_phase()],
              [build.cubic_phase('c'), build.hex_phase('h')]][i % 3]
    noise = [0., 1., 4., 8.][i // 3 % 4]
    shape = (int(rng.integers(3, 16)), int(rng.integers(3, 16)))
    if i % 30 == 17:                    # grains of many points
        shape = build.long_shape(rng)
    if i % 30 == 13:                    # one of more than a thousand
        shape = (int(rng.integers(34, 40)), int(rng.integers(34, 40)))
    spec = build.ebsd_spec(rng, shape=shape,
                           phases=phases, noise=noise,
                           min_cells=1 if shape[0] * shape[1] > 1100 else
                           int(rng.integers(1, 6)),
                           nonindexed=str(rng.choice(['none', 'points'])))
    return spec, noise


def scramble(ctx, rng, spec):
    g = ref.bunge_many(spec.euler)
    for p, ph in enumerate(spec.phases, start=1):
        ops = ref.SYM[ph.crystal_structure.name]
        for idx in np.argwhere(np.asarray(spec.phase) == p):
            g[tuple(idx)] = ops[rng.integers(len(ops))] @ g[tuple(idx)]
    e = ref.mat_to_eulers(g)
    # boundaries are found with the primary symmetry: keep the second phase
    keep = np.asarray(spec.phase) != 1
    spec.euler = np.where(keep, spec.euler, e)
    ctx.observe('scrambled', (~keep).sum())


def grain_truth(g, spec):
    pts = np.asarray(g.data.point)
    gm = ref.bunge_many(spec.euler)[pts[:, 1], pts[:, 0]]
    gr = g.ref_ori.rot_matrix()
    sym = g.phase.crystal_structure.name
    return pts, gm, gr, sym


def s_grains(ctx, rng, i):
    spec, noise = make(rng, i)
    scr = bool(i // 2 % 2)
    if scr:
        scramble(ctx, rng, spec)
    m = build.ebsd_map(spec)
    m.data.generate('grains', min_grain_size=int(rng.choice([1, 3])))
    ctx.describe(distinct=[spec.shape, noise, scr, i] if len(m) else None,
                 shape=spec.shape, noise=noise, scrambled=scr, grains=len(m))
    if not len(m):
        return
    ctx.observe('two_phase_maps', len({g.phase_id for g in m}) > 1)
    order = rng.permutation(3)
    before = m.data.euler_angle.copy()
    for k in order:          # whichever way it is asked for first
        if k == 0:
            m.calc_grain_mis_ori(calc_axis=bool(rng.integers(2)))
        elif k == 1:
            m.data.GROD
        else:
            m.calc_grain_av_oris()
    if i % 4 == 1:
        # a reference taken from elsewhere, here from a point of the grain
        m = build.ebsd_map(spec)
        m.data.generate('grains', min_grain_size=1)
        for g in m:
            g.ref_ori = g.data.orientation[int(rng.integers(len(g)))]
        ctx.observe('given_reference')
    m.calc_grain_mis_ori(calc_axis=True)
    grod_img = np.asarray(m.data.GROD)
    axis_img = np.asarray(m.data.GROD_axis)
    want_img = np.zeros(spec.shape)
    want_axis = np.zeros((3,) + spec.shape)
    for g in m:
        pts, gm, gr, sym = grain_truth(g, spec)
        want = ref.mis_angle(gm, gr, sym)
        c = ref.mis_cos_half(gr, gm, sym)
        got = np.asarray(g.data.GROD)
        ctx.check(got.shape == (len(g),), 'grod_shape')
        ctx.check(np.isfinite(got).all() and
                  np.all(np.abs(np.cos(got / 2) - c) < 3e-8) and
                  np.all((np.abs(got - want) < 1e-6) | (want < .02)),
                  'grod', got=got, want=want)
        ctx.close(np.asarray(g.mis_ori_list), c, 'list_cos', atol=1e-8)
        ctx.close(g.average_mis_ori, c.mean(), 'grain_mean', atol=1e-8)
        ctx.close(2 * np.arccos(np.minimum(g.mis_ori_list, 1)), got,
                  'list_equals_grod', atol=1e-6)
        for ax, name in ((np.asarray(g.data.GROD_axis).T, 'grod_axis'),
                         (np.asarray(g.mis_ori_axis_list), 'list_axis')):
            ctx.check(ax.shape == (len(g), 3) and np.isfinite(ax).all(), name,
                      what='finite', got=ax)
            n = np.linalg.norm(ax, axis=1)
            ctx.check(np.all(np.abs(n - want) < 1e-6), name, what='length',
                      got=n, want=want)
            ops = ref.SYM[sym]
            for k in range(len(g)):
                if want[k] < 1e-7:
                    ctx.observe('zero_deviation')
                    continue
                r = ref.rodrigues(ax[k], n[k]) @ gr
                ctx.check(min(np.abs(s @ gm[k] - r).max()
                              for s in ops) < 1e-5, name, what='rotation',
                          axis=ax[k], grain=g.grain_id, point=pts[k])
        want_img[pts[:, 1], pts[:, 0]] = got
        want_axis[:, pts[:, 1], pts[:, 0]] = np.asarray(g.data.GROD_axis)
    ctx.close(grod_img, want_img, 'map_image', atol=1e-12)
    ctx.close(axis_img, want_axis, 'map_axis', atol=1e-12)
    ctx.equal(m.data.euler_angle, before, 'data_kept')
    # the references are replaced and everything is asked for again
    for g in m:
        if rng.integers(3):
            g.ref_ori = g.data.orientation[int(rng.integers(len(g)))]
    axis = bool(rng.integers(2))
    m.calc_grain_mis_ori(calc_axis=axis)
    for g in m:
        pts, gm, gr, sym = grain_truth(g, spec)
        c = ref.mis_cos_half(gr, gm, sym)
        ctx.close(np.asarray(g.mis_ori_list), c, 'list_again', atol=1e-8)
        ctx.close(g.average_mis_ori, c.mean(), 'list_again', atol=1e-8)
        if axis:
            n = np.linalg.norm(np.asarray(g.mis_ori_axis_list), axis=1)
            ctx.check(np.all(np.abs(n - ref.mis_angle(gm, gr, sym)) < 1e-6),
                      'list_again', what='axis')


def s_plots(ctx, rng, i):
    spec, noise = make(rng, i)
    m = build.ebsd_map(spec)
    m.data.generate('grains', min_grain_size=2)
    ctx.describe(distinct=['plot', i] if len(m) else None)
    if not len(m):
        return
    want = np.zeros((4,) + spec.shape)
    m.data.GROD
    for g in m:
        p = np.asarray(g.data.point)
        want[0, p[:, 1], p[:, 0]] = np.rad2deg(g.data.GROD)
        want[1:, p[:, 1], p[:, 0]] = np.rad2deg(g.data.GROD_axis)
    # as a map and for a grain through the general functions
    lists = bool(rng.integers(2))
    fresh = build.ebsd_map(spec)
    fresh.data.generate('grains', min_grain_size=2)
    g = fresh[int(rng.integers(len(fresh)))]
    pts = np.asarray(g.data.point)
    for name, comp, k in (('GROD', None, 0), ('GROD_axis', 0, 1),
                          ('GROD_axis', (1,), 2), ('GROD_axis', None, 1),
                          ('GROD_axis', 'norm', None)):
        full = np.linalg.norm(want[1:], axis=0) if k is None else want[k]
        p = (g if lists else fresh).plot_map(name, comp)
        img = np.ma.filled(np.ma.asarray(p.ax.images[0].get_array(), float),
                           np.nan)
        if lists:
            x0, y0 = pts.min(0)
            w = np.full(img.shape, np.nan)
            w[pts[:, 1] - y0, pts[:, 0] - x0] = full[pts[:, 1], pts[:, 0]]
        else:
            w = full
        got = np.rad2deg(img)
        ctx.check(got.shape == w.shape and
                  np.array_equal(np.isnan(got), np.isnan(w)) and
                  not np.any(np.abs(got - w) > 1e-4), 'general_plot',
                  name=name, component=comp, grain=lists, got=got, want=w)
        plt.close('all')
    def grain_plot_is(g, c):
        p = g.plot_mis_ori(component=c)
        img = np.ma.filled(np.ma.asarray(p.ax.images[0].get_array(), float),
                           np.nan)
        plt.close('all')
        pts = np.asarray(g.data.point)
        x0, y0 = pts.min(0)
        w = np.full(img.shape, np.nan)
        w[pts[:, 1] - y0, pts[:, 0] - x0] = want[c, pts[:, 1], pts[:, 0]]
        return (np.array_equal(np.isnan(img), np.isnan(w)) and
                np.nanmax(np.abs(img - w)) < 1e-4)

    # calculated lazily by the plots, in any order of components
    for c in rng.permutation(4):
        c = int(c)
        if rng.integers(2):
            # only some of the grains have their lists yet
            m = build.ebsd_map(spec)
            m.data.generate('grains', min_grain_size=2)
            for g in m:
                if rng.integers(2):
                    g.build_mis_ori_list(calc_axis=bool(rng.integers(2)))
            if rng.integers(2):
                # the grain's own plot comes first
                m[int(rng.integers(len(m)))].plot_mis_ori(
                    component=int(rng.choice([c, rng.integers(4)])))
                plt.close('all')
                g = m[int(rng.integers(len(m)))]
                if rng.integers(2):
                    g.build_mis_ori_list()
                ctx.observe('grain_plot_first')
                ctx.check(grain_plot_is(g, c), 'plotted_grain_first',
                          component=c)
        p = m.plot_mis_ori_map(component=c)
        img = np.asarray(p.ax.images[0].get_array())
        ctx.check(img.shape == spec.shape, 'plotted')
        ctx.check(np.abs(img - want[c]).max() < 1e-4, 'plotted', component=c,
                  got=img, want=want[c])
        plt.close('all')
        g = m[int(rng.integers(len(m)))]
        ctx.check(grain_plot_is(g, c), 'plotted_grain', component=c)
    with ctx.raises(ValueError, 'component_refused'):
        m[0].plot_mis_ori(component=4)


STREAMS = [
    Stream('grains', 70, 2000, s_grains),
    Stream('plots', 24, 200, s_plots),
]
