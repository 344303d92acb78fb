"""C27: analysis stays in bounds for every map shape."""
import numpy as np

from vt import build
from vt.core import Skip, Stream

PROPERTY = 'C27'
RULE = ('every derived quantity of EBSD maps 1x1..12x12 and strips up to '
        '1x40 (any content, no boundary / no grain / only non-indexed) and of '
        'linked DIC maps 2x2..14x14, with numba bounds checking on (an index '
        'outside an array raises, the process is watched for crashes and for '
        'non-termination); the compiled flood fills are also driven directly '
        'with guarded arrays; distinct by shape, content and quantity')
ASSUMPTIONS = ['numpy indexing outside an array raises (no sanitizer needed '
               'for pure python code)',
               'the numba bounds checker sees every array access of the '
               'compiled fills']
REQUIRE = {'ebsd_maps': 60, 'dic_maps': 20, 'one_row': 10, 'one_column': 10,
           'quantities': 400, 'fills': 60, 'only_nonindexed': 5,
           'verdict:guard': 60, 'numba_boundscheck': 1}


def setup(ctx):
    import numba
    ctx.check(bool(numba.config.BOUNDSCHECK), 'numba_boundscheck')
    ctx.observe('numba_boundscheck')


def finite_or_shape(ctx, v, shape, name, ok_nan=False):
    a = np.asarray(v)
    ctx.check(a.shape[-2:] == shape, 'shape', name=name, got=a.shape,
              want=shape)
    if a.dtype.kind == 'f' and not ok_nan:
        ctx.check(np.isfinite(a).all(), 'finite', name=name, got=a)
    ctx.observe('quantities')


def ebsd_quantities(ctx, rng, m, spec):
    shape = spec.shape
    names = ['orientation', 'grain_boundaries', 'phase_boundaries', 'grains',
             'KAM', 'GND', 'Nye_tensor', 'proxigram', 'GROD', 'euler', 'ipf',
             'network', 'rotate', 'filter']
    m.data.generate('grains', min_grain_size=int(rng.choice([1, 2, 10])))
    for k in rng.permutation(len(names)):
        n = names[k]
        ctx.case_desc['quantity'] = n
        if n in ('grain_boundaries', 'phase_boundaries'):
            b = m.data[n]
            for im in (b.image, b.image_x, b.image_y):
                finite_or_shape(ctx, im, shape, n)
            ctx.check(not b.image_x[:, -1].any() and not b.image_y[-1].any(),
                      'edge', name=n)
            ctx.check(len(b.lines) == b.image_x.sum() + b.image_y.sum(),
                      'lines', name=n)
        elif n == 'orientation':
            ctx.check(m.data[n].shape == shape, 'shape', name=n)
        elif n == 'euler':
            finite_or_shape(ctx, m.calc_euler_colour(
                m.data.euler_angle).transpose(2, 0, 1), shape, n)
        elif n == 'ipf':
            finite_or_shape(ctx, m.calc_ipf_colour(
                m.data.orientation, np.array([0., 0, 1])).transpose(2, 0, 1),
                shape, n)
        elif n == 'network':
            m.build_neighbour_network()
            ctx.check(set(m.neighbour_network.nodes) == set(m), 'nodes')
            ctx.observe('quantities')
        elif n == 'rotate':
            pass
        elif n == 'filter':
            pass
        elif n == 'GROD':
            if len(m):
                finite_or_shape(ctx, m.data.GROD, shape, n)
            m.calc_grain_av_oris()
            m.calc_grain_mis_ori(calc_axis=True)
        elif n == 'proxigram':
            if m.data.grain_boundaries.points:
                finite_or_shape(ctx, m.data.proxigram, shape, n)
        else:
            finite_or_shape(ctx, m.data[n], shape, n)
    ctx.case_desc['quantity'] = 'filter'
    m.filter_data(misori_tol=5)
    ctx.check(m.data.orientation.shape == shape, 'shape', name='filter')


def s_ebsd(ctx, rng, i):
    kind = i % 6
    if kind == 0:
        shape = (1, int(rng.integers(1, 41)))
    elif kind == 1:
        shape = (int(rng.integers(1, 41)), 1)
    elif kind == 2:
        shape = (int(rng.integers(1, 4)), int(rng.integers(1, 4)))
    else:
        shape = (int(rng.integers(2, 13)), int(rng.integers(2, 13)))
    spec = build.ebsd_spec(rng, shape=shape)
    if i % 12 == 11:
        spec.phase = np.zeros_like(spec.phase)
        ctx.observe('only_nonindexed')
    ctx.describe(distinct=[shape, spec.kind, i], shape=shape, kind=spec.kind,
                 nonindexed=spec.nonindexed, n_phases=len(spec.phases))
    m = build.ebsd_map(spec)
    ctx.observe('ebsd_maps')
    ctx.observe('one_row', shape[0] == 1)
    ctx.observe('one_column', shape[1] == 1)
    ebsd_quantities(ctx, rng, m, spec)


def s_dic(ctx, rng, i):
    eshape = (int(rng.integers(3, 20)), int(rng.integers(3, 20)))
    spec = build.ebsd_spec(rng, shape=eshape)
    if i % 10 == 9:
        spec.phase = np.zeros_like(spec.phase)
        ctx.observe('only_nonindexed')
    em = build.ebsd_map(spec)
    em.data.generate('grains', min_grain_size=1)
    dshape = (int(rng.integers(2, 15)), int(rng.integers(2, 15)))
    dm = build.dic_map(ctx.scratch, build.smooth_disp(rng, dshape))
    pts = np.array([(0, 0), (eshape[1], 0), (0, eshape[0]),
                    (eshape[1], eshape[0]), (1, 2)], float)
    a = np.array([[dshape[1] / eshape[1], 0], [0, dshape[0] / eshape[0]]])
    a = a @ (np.eye(2) + rng.normal(0, .05, (2, 2)))
    t = rng.normal(0, 1, 2)
    build.link(dm, em, pts, pts @ a.T + t, transform_type=str(
        rng.choice(['affine', 'projective'])))
    algo = ['floodfill', 'warp'][i % 2]
    ctx.describe(distinct=[eshape, dshape, algo, i], ebsd=eshape, dic=dshape,
                 algorithm=algo, kind=spec.kind, transform=a)
    ctx.observe('dic_maps')
    ctx.check(dm.data.grain_boundaries.image.shape == dshape, 'shape')
    dm.data.generate('grains', algorithm=algo,
                     min_grain_size=int(rng.choice([1, 3, 10])))
    img = np.asarray(dm.data.grains)
    ctx.check(img.shape == dshape, 'shape')
    for g in dm:
        p = g.data.point
        ctx.check((p >= 0).all() and (p[:, 0] < dshape[1]).all() and
                  (p[:, 1] < dshape[0]).all(), 'points_in_map')
        ctx.check(len(g.data.max_shear) == len(g), 'grain_data')
        ctx.observe('quantities')


def s_fill(ctx, rng, i):
    """The compiled fills with arrays embedded in guard frames: whatever is
    outside the view must not be touched."""
    common = ['seed', 'index', 'points_remaining', 'grains']
    flood_fill = ctx.internal('defdap._accelerated', 'flood_fill', common + [
        'boundary_x', 'boundary_y', 'added_coords'], 'fills', 'verdict:guard')
    flood_fill_dic = ctx.internal('defdap._accelerated', 'flood_fill_dic',
                                  common + ['added_coords'], 'fills',
                                  'verdict:guard')
    if not (flood_fill and flood_fill_dic):
        raise Skip
    h, w = int(rng.integers(1, 12)), int(rng.integers(1, 12))
    if i % 5 == 0:
        h = 1
    if i % 5 == 1:
        w = 1

    def guarded(a, fill):
        g = np.full((h + 2, w + 2), fill, a.dtype)
        g[1:-1, 1:-1] = a
        return g, g[1:-1, 1:-1]
    dic = i % 2
    p = rng.choice([0., .2, .5, .9])
    left = np.ones((h, w), bool)
    n = h * w
    buf = np.full((n + 2, 2), -77, np.intp)
    y, x = int(rng.integers(h)), int(rng.integers(w))
    ctx.describe(distinct=[h, w, float(p), dic, i], shape=(h, w), p=p,
                 dic=bool(dic))
    if dic:
        b = rng.random((h, w)) < p
        b[y, x] = False
        gg, grains = guarded(-b.astype(int), -55)
        lg, left_v = guarded(~b, True)
        pts = flood_fill_dic((x, y), 3, left_v, grains, buf[1:n + 1])
    else:
        bxg, bx = guarded(rng.random((h, w)) < p, False)
        byg, by = guarded(rng.random((h, w)) < p, False)
        gg, grains = guarded(np.zeros((h, w), int), -55)
        lg, left_v = guarded(left, True)
        pts = flood_fill((x, y), 3, left_v, grains, bx, by, buf[1:n + 1])
    frame = np.ones((h + 2, w + 2), bool)
    frame[1:-1, 1:-1] = False
    ctx.check((gg[frame] == -55).all() and lg[frame].all() and
              (buf[0] == -77).all() and (buf[-1] == -77).all(), 'guard',
              grains=gg)
    ctx.check(len(pts) <= n and len({tuple(q) for q in pts.tolist()}) ==
              len(pts) == (grains == 3).sum(), 'fill_points', pts=pts)
    ctx.check(not left_v[grains == 3].any(), 'fill_remaining')
    ctx.observe('fills')


def s_first(ctx, rng, i):
    find_first = ctx.internal('defdap._accelerated', 'find_first', ['arr'])
    if not find_first:
        raise Skip
    n = int(rng.choice([1, 2, 10, 300, 70000, 200000]))
    a = np.zeros(n, bool)
    first = int(rng.integers(n))
    a[first:] = rng.random(n - first) < .3
    a[first] = True
    ctx.describe(distinct=[n, first])
    ctx.equal(find_first(a), first, 'find_first')
    k = rng.integers(1, 4)
    b = np.zeros(n * k, bool)
    b[::k] = a
    ctx.equal(find_first(b[::k]), first, 'find_first')


STREAMS = [
    Stream('first', 24, 300, s_first),
    Stream('ebsd', 90, 3000, s_ebsd),
    Stream('dic', 40, 1200, s_dic),
    Stream('fill', 120, 4000, s_fill),
]
