"""C23: rotating an EBSD map by 180 degrees is consistent and involutive."""
import numpy as np

from vt import ref, build
from vt.core import Stream

PROPERTY = 'C23'
RULE = ('EBSD maps (from arrays and from .ctf/.ang style loaders with extra '
        'channels) rotated once and twice, after computing any subset of '
        'orientation, boundaries, grains, KAM and misorientation, with user '
        'data added; compared point by point with a map loaded from the '
        'rotated arrays; distinct by map and history')
ASSUMPTIONS = ['orientations compared as rotation matrices (1e-9)',
               'grains of the rotated map are those found with the default '
               'minimum size']
REQUIRE = {'verdict:point_data': 100, 'verdict:orientation': 60,
           'verdict:euler': 60, 'verdict:restored': 30, 'verdict:kam': 30,
           'verdict:grains': 30, 'computed_before': 30, 'odd_shapes': 10,
           'text_maps': 8, 'verdict:proxigram': 20}
RZ = np.diag([-1., -1., 1.])


def ori(m):
    q = np.array([x.quat_coef for x in np.asarray(m.data.orientation).flat])
    return ref.quat_to_mat(q).reshape(m.shape + (3, 3))


def grain_partition_equal(a, b):
    """Same grains up to numbering; special values equal."""
    a, b = np.asarray(a), np.asarray(b)
    return (np.array_equal(np.minimum(a, 0), np.minimum(b, 0)) and
            ref.same_partition(a, b))


def pairs(b, shape):
    return np.asarray(b.image_x, bool), np.asarray(b.image_y, bool)


def touch(rng, m):
    what = []
    for name in ('orientation', 'boundaries', 'grains', 'KAM', 'mis_ori',
                 'GROD', 'network', 'proxigram', 'ipf', 'euler'):
        if rng.random() < .45:
            what.append(name)
    for name in what:
        if name == 'boundaries':
            m.data.grain_boundaries
        elif name == 'mis_ori':
            m.calc_grain_mis_ori()
        elif name == 'GROD':
            if len(m):
                m.data.GROD
        elif name == 'ipf':
            m.calc_ipf_colour(m.data.orientation, np.array([0, 0, 1]))
        elif name == 'euler':
            m.calc_euler_colour(m.data.euler_angle)
        elif name == 'network':
            m.build_neighbour_network()
        elif name == 'proxigram':
            if len(m.data.grain_boundaries.points):
                m.proxigram
        else:
            m.data[name]
    return what


def write_ctf(path, spec, rng):
    extra = {'MAD': rng.random(spec.shape).round(4),
             'BS': rng.integers(0, 255, spec.shape)}
    h, w = spec.shape
    deg = np.rad2deg(spec.euler)
    with open(path, 'w') as f:
        f.write('Channel Text File\nPrj\tx\nAuthor\ty\nJobMode\tGrid\n'
                f'XCells\t{w}\nYCells\t{h}\nXStep\t{spec.step}\n'
                f'YStep\t{spec.step}\nAcqE1\t0\nAcqE2\t0\nAcqE3\t0\n'
                'Euler angles refer to Sample Coordinate system (CS0)!\tMag\t'
                '100\n'
                f'Phases\t{len(spec.phases)}\n')
        for p in spec.phases:
            lp = p.lattice_params
            f.write('%g;%g;%g\t%g;%g;%g\t%s\t%d\t%d\t\n' % (
                *lp[:3], *np.rad2deg(lp[3:]), p.name, 11, 225))
        f.write('Phase\tX\tY\tBands\tError\tEuler1\tEuler2\tEuler3\tMAD\tBC\t'
                'BS\n')
        for y in range(h):
            for x in range(w):
                f.write('%d\t%.4f\t%.4f\t8\t0\t%.9f\t%.9f\t%.9f\t%.4f\t%d\t%d'
                        '\n' % (spec.phase[y, x], x * spec.step, y * spec.step,
                                *deg[:, y, x], extra['MAD'][y, x],
                                spec.bc[y, x], extra['BS'][y, x]))
    return extra


def s_rotate(ctx, rng, i):
    text = i % 4 == 3
    shape = None
    if i % 8 == 5:
        shape = [(1, int(rng.integers(1, 20))),
                 (int(rng.integers(2, 20)), 1)][i // 8 % 2]
    elif i % 24 == 2:
        shape = build.long_shape(rng)
    spec = build.ebsd_spec(rng, max_dim=16, shape=shape,
                           phases=[build.cubic_phase()] if text else None)
    if text:
        path = build.scratch_file(ctx.scratch, '.ctf')
        write_ctf(path, spec, rng)
        from defdap import ebsd
        from defdap.experiment import Experiment
        import os
        new = lambda: ebsd.Map(path, data_type='OxfordText',
                               experiment=Experiment())
        ctx.observe('text_maps')
    else:
        new = lambda: build.ebsd_map(spec)
    m0, m = new(), new()
    user = rng.random((2,) + spec.shape)
    m.data.add('user', user.copy(), type='map', order=1, unit='')
    what = touch(rng, m)
    if 'grains' in what and len(m):
        m.sel_grain = m[int(rng.integers(len(m)))]
    ctx.describe(distinct=[spec.shape, spec.kind, what, text, i],
                 shape=spec.shape, kind=spec.kind, computed=what, text=text)
    ctx.observe('computed_before', bool(what))
    ctx.observe('odd_shapes', spec.shape[0] % 2 + spec.shape[1] % 2 > 0)
    names = [n for n in m0.data if m0.data.get_metadata(n, 'type') == 'map'
             and n not in ('orientation', 'grains', 'KAM', 'GND',
                           'Nye_tensor', 'proxigram', 'euler_angle')]
    ctx.check('phase' in names and 'band_contrast' in names, 'names')
    g0 = ori(m0)
    m.rotate_data()
    ctx.check(m.shape == spec.shape and m.step_size == m0.step_size, 'shape')
    for n in names:
        ctx.equal(m.data[n], np.asarray(m0.data[n])[..., ::-1, ::-1],
                  'point_data', name=n, computed=what)
    ctx.equal(m.data.user, user[..., ::-1, ::-1], 'point_data', name='user')
    want = (g0 @ RZ)[::-1, ::-1]
    got = ori(m)
    tol = 1e-5 if text else 1e-7     # text maps hold float32 angles
    ctx.close(got, want, 'orientation', atol=tol, computed=what)
    ctx.close(ref.bunge_many(np.asarray(m.data.euler_angle, float)), want,
              'euler', atol=tol, computed=what)
    # no grain of the map before stays selected
    ctx.check(m.sel_grain is None or any(m.sel_grain is g for g in m),
              'selected', computed=what)
    # derived quantities are those of the rotated map, whatever was computed
    k0 = np.asarray(m0.data.KAM)[::-1, ::-1]
    ctx.close(np.cos(np.asarray(m.data.KAM) / 2), np.cos(k0 / 2), 'kam',
              atol=1e-6, computed=what)
    ctx.check(grain_partition_equal(
        m.data.grains, np.asarray(m0.data.grains)[::-1, ::-1]) and
        len(m) == len(m0), 'grains', computed=what, got=m.data.grains,
        want=np.asarray(m0.data.grains)[::-1, ::-1])
    ctx.check(all(np.all(np.asarray(m.data.grains)[tuple(
        np.asarray(g.data.point).T[::-1])] == g.grain_id + 1) for g in m),
        'grain_points')
    # colours of the phases where they are now
    d = rng.normal(size=3)
    c = np.asarray(m.calc_ipf_colour(m.data.orientation, d), float)
    c0 = np.asarray(m0.calc_ipf_colour(m0.data.orientation, RZ @ d), float)
    ctx.check(np.abs(c - c0[::-1, ::-1]).max() < 6e-3, 'colours',
              computed=what)
    c = np.asarray(m.calc_euler_colour(m.data.euler_angle), float)
    norms = {'cubic': [2 * np.pi, np.pi / 2, np.pi / 2],
             'hexagonal': [np.pi, np.pi, np.pi / 3]}
    want_c = np.zeros(spec.shape + (3,))
    for k, p in enumerate(spec.phases, start=1):
        at = np.asarray(spec.phase)[::-1, ::-1] == k
        want_c[at] = np.asarray(m.data.euler_angle)[:, at].T / norms[
            p.crystal_structure.name]
    ctx.close(c, want_c, 'colours', atol=1e-6, computed=what)
    bx0, by0 = pairs(m0.data.grain_boundaries, spec.shape)
    bx, by = pairs(m.data.grain_boundaries, spec.shape)
    ctx.equal(bx[:, :-1], bx0[::-1, ::-1][:, 1:], 'boundaries')
    ctx.equal(by[:-1], by0[::-1, ::-1][1:], 'boundaries')
    pts = m.data.grain_boundaries.points
    if len(pts):
        yy, xx = np.mgrid[:spec.shape[0], :spec.shape[1]]
        d = np.min([np.hypot(xx - x - .5, yy - y - .5) for x, y in pts],
                   axis=0)
        ctx.close(m.proxigram, d, 'proxigram', atol=1e-9, computed=what)
    if rng.integers(2):
        touch(rng, m)
    m.rotate_data()
    for n in names:
        ctx.equal(m.data[n], m0.data[n], 'restored', name=n)
    ctx.equal(m.data.user, user, 'restored', name='user')
    ctx.close(ori(m), g0, 'restored', atol=tol)
    ctx.close(ref.bunge_many(np.asarray(m.data.euler_angle, float)), g0,
              'restored', atol=tol)
    ctx.equal(m.data.grains, m0.data.grains, 'restored')
    if text:
        os.remove(path)


STREAMS = [Stream('rotate', 80, 2500, s_rotate)]
