"""C08: Schmid factors, slip traces and RDR follow from grain orientation."""
import numpy as np
import matplotlib.pyplot as plt

from defdap.quat import Quat
from vt import ref, build
from vt.core import Stream

PROPERTY = 'C08'
RULE = ('maps of 1..8 grains (cubic fcc/bcc, hexagonal, two phases; random and '
        'special orientations: plane normals along or in the surface) x load '
        'vectors; all or selected slip systems; distinct by orientations and '
        'load')
ASSUMPTIONS = ['grain reference orientations are finite', 'trace angle of a '
               'plane parallel to the surface (within 1e-6) is undefined and '
               'not judged', 'RDR judged where the sample y component exceeds '
               '1e-6', 'tolerance 1e-7']
REQUIRE = {'verdict:schmid': 500, 'verdict:trace_angle': 200,
           'verdict:inclination': 200, 'verdict:rdr': 500,
           'verdict:mapped_max': 10, 'parallel_planes': 3}


def make_map(ctx, rng, i):
    shape = (int(rng.integers(4, 12)), int(rng.integers(4, 14)))
    cells = int(rng.integers(1, 6))
    if i % 20 == 13:                    # many grains
        shape = (int(rng.integers(24, 40)),) * 2
        cells = int(rng.integers(60, 160))
    s = build.ebsd_spec(rng, shape=shape, min_cells=cells,
                        noise=0., nonindexed='none', phases=[
                            [build.cubic_phase()],
                            [build.hex_phase(ca=float(rng.uniform(1.4, 1.8)))],
                            [build.cubic_phase('b', 229), build.hex_phase()],
                        ][i % 3])
    n = int(s.labels.max()) + 1
    kind = i // 3 % 3
    if kind == 1:
        base = rng.choice([0, np.pi / 4, np.pi / 2, np.pi], (3, n))
        s.euler = base[:, s.labels]
    elif kind == 2:            # basal plane parallel to the surface, any spin
        base = np.array([rng.uniform(0, 6, n), rng.choice([0, np.pi], n),
                         rng.uniform(0, 6, n)])
        s.euler = base[:, s.labels]
    m = build.ebsd_map(s)
    m.data.generate('grains', min_grain_size=1)
    m.calc_grain_av_oris()
    return s, m


def check_grain(ctx, g, ss, load):
    gm = g.ref_ori.rot_matrix()              # crystal = gm @ sample
    if load is not None:
        lc = gm @ load
        sf = g.average_schmid_factors
        ctx.check([len(x) for x in sf] == [len(x) for x in ss], 'sf_layout')
        for grp, vals in zip(ss, sf):
            for s, v in zip(grp, vals):
                want = abs((lc @ s.slip_plane) * (lc @ s.slip_dir))
                ctx.close(v, want, 'schmid', atol=1e-9)
                ctx.check(-1e-12 <= v <= .5 + 1e-9, 'schmid_range', v=v)
    else:
        ctx.check(len(g.slip_trace_angles) == len(ss) and
                  len(g.slip_trace_inclinations) == len(ss), 'trace_layout')
        for grp, ang, inc in zip(ss, g.slip_trace_angles,
                                 g.slip_trace_inclinations):
            n = gm.T @ grp[0].slip_plane
            ctx.close(inc, np.arctan2(np.hypot(n[0], n[1]), abs(n[2])),
                      'inclination', atol=1e-7)
            t = np.cross(n, [0, 0, 1.])
            if np.linalg.norm(t) < 1e-6:
                ctx.observe('parallel_planes')
                continue
            t /= np.linalg.norm(t)
            ctx.check(-1e-9 <= ang <= np.pi + 1e-9, 'trace_range', ang=ang)
            d = np.array([-np.sin(ang), np.cos(ang), 0])
            # the trace lies in the plane and in the surface
            ctx.check(np.linalg.norm(np.cross(d, t)) < 2e-7, 'trace_angle',
                      ang=ang, want=t)


def s_map(ctx, rng, i):
    s, m = make_map(ctx, rng, i)
    load = [[1, 0, 0], [0, 1, 0], [0, 0, 1], None][i % 4]
    if load is None:
        load = rng.normal(size=3)
        load /= np.linalg.norm(load)
    load = np.array(load, float)
    ctx.describe(distinct=[np.round(s.euler[:, 0, 0], 6).tolist(), s.shape,
                           load.tolist()], shape=s.shape, load=load,
                 grains=len(m.grains))
    arg = load.copy() if i % 2 else load.tolist()
    m.calc_average_grain_schmid_factors(arg)
    ctx.equal(np.array(arg), load, 'load_kept')
    for g in m.grains:
        check_grain(ctx, g, g.phase.slip_systems, load)
    first = [[list(x) for x in g.average_schmid_factors] for g in m.grains]
    m.calc_average_grain_schmid_factors(-load)
    for g, f in zip(m.grains, first):
        for a, b in zip(g.average_schmid_factors, f):
            ctx.close(a, b, 'reversed_load', atol=1e-12)
    # the map of the maximum
    for planes, dirs in ((None, None), ([0], None), ([0], [1]),
                         ([1, 0], [0, 1])):
        if min(len(g.phase.slip_systems) for g in m.grains) < 2 or min(
                len(x) for g in m.grains for x in g.phase.slip_systems[:2]
                ) < 2 and dirs:
            continue
        plt.close('all')
        p = m.plot_average_grain_schmid_factors_map(planes=planes,
                                                    directions=dirs)
        img = np.asarray(p.ax.images[0].get_array(), float)
        want = np.full(m.shape, .5)
        for g, f in zip(m.grains, first):
            vals = [v for k, grp in enumerate(f)
                    if planes is None or k in planes
                    for j, v in enumerate(grp) if dirs is None or j in dirs]
            for x, y in g.data.point:
                want[y, x] = max(vals)
        ctx.close(img, want, 'mapped_max', atol=1e-9)
    plt.close('all')
    # selected systems
    g = m.grains[0]
    for sel in (g.phase.slip_systems[1:3], g.phase.slip_systems[-1:],
                g.phase.slip_systems[::-1]):
        g.calc_average_schmid_factors(load, slip_systems=sel)
        check_grain(ctx, g, sel, load)
    # traces
    for k, g in enumerate(m.grains):
        if k % 2:
            g.calc_slip_traces()
        ctx.close(g.slip_traces, g.slip_trace_angles, 'trace_property',
                  atol=0)
        check_grain(ctx, g, g.phase.slip_systems, None)
        g.calc_slip_traces(slip_systems=g.phase.slip_systems[:2])
        check_grain(ctx, g, g.phase.slip_systems[:2], None)
        ctx.check(len(g.slip_traces) == len(g.phase.slip_systems[:2]),
                  'trace_property')
        g.calc_slip_traces(slip_systems=g.phase.slip_systems[-1:])
        check_grain(ctx, g, g.phase.slip_systems[-1:], None)
    # again after the reference orientation was replaced (linked maps)
    if i % 2:
        for g in m.grains:
            g.calc_slip_traces()
            g.slip_traces
        if i % 4 == 1:
            m.calc_rdr()
        for g in m.grains:
            g.ref_ori = Quat.from_euler_angles(*rng.uniform(0, 3, 3))
            ctx.observe('new_reference')
            g.calc_average_schmid_factors(load)
            check_grain(ctx, g, g.phase.slip_systems, load)
            g.calc_slip_traces()
            check_grain(ctx, g, g.phase.slip_systems, None)
    # RDR
    m.calc_rdr()
    for g in m.grains:
        gm = g.ref_ori.rot_matrix()
        ss = g.phase.slip_systems
        ctx.check([len(x) for x in g.rdr] == [len(x) for x in ss],
                  'rdr_layout')
        for grp, vals in zip(ss, g.rdr):
            for sl, v in zip(grp, vals):
                d = gm.T @ sl.slip_dir
                if abs(d[1]) > 1e-6:
                    ctx.close(v, -d[0] / d[1], 'rdr', atol=1e-8, rtol=1e-8)


def s_dic(ctx, rng, i):
    """Grains of a linked DIC map show what their EBSD grains have, now."""
    s, em = make_map(ctx, rng, i)
    m = build.dic_map(ctx.scratch, build.smooth_disp(rng, s.shape))
    h, w = s.shape
    pts = [(0, 0), (w - 1, 0), (0, h - 1), (w - 1, h - 1)]
    build.link(m, em, pts, pts)
    m.data.generate('grains', algorithm='warp')
    ctx.describe(distinct=[s.shape, len(m), i], shape=s.shape, grains=len(m))
    hist = []
    for _ in range(12):
        g = m[int(rng.integers(len(m)))]
        e = g.ebsd_grain
        op = str(rng.choice(['reference', 'average', 'traces', 'some', 'look',
                             'ebsd']))
        hist.append(op)
        if op == 'reference':
            e.ref_ori = Quat.from_euler_angles(*rng.uniform(0, 3, 3))
        elif op == 'average':
            em.calc_grain_av_oris()
        elif op == 'traces':
            g.calc_slip_traces()
            check_grain(ctx, e, e.phase.slip_systems, None)
        elif op == 'some':
            k = int(rng.integers(1, len(e.phase.slip_systems) + 1))
            g.calc_slip_traces(slip_systems=e.phase.slip_systems[:k])
            check_grain(ctx, e, e.phase.slip_systems[:k], None)
        elif op == 'ebsd':
            e.calc_slip_traces()
        ctx.check(g.ref_ori is e.ref_ori and g.phase is e.phase, 'linked',
                  history=hist)
        ctx.equal(np.array(g.slip_traces), np.array(e.slip_traces), 'linked')


STREAMS = [Stream('map', 70, 1500, s_map), Stream('dic', 20, 400, s_dic)]
