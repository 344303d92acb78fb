"""C25: the proxigram is the distance to the nearest boundary."""
import numpy as np

from vt import build
from vt.core import Stream

PROPERTY = 'C25'
RULE = ('EBSD maps with hostile boundary layouts (few to thousands of '
        'boundary points) and DIC maps linked to them, every accessor and '
        'many batch sizes; distinct by map and batch size')
ASSUMPTIONS = ['a boundary point (x, y) lies at (x + 0.5, y + 0.5), on the '
               'lower right of its point, as documented in the code']
REQUIRE = {'verdict:distance': 60, 'verdict:batch': 100, 'far': 3, 'verdict:again': 30,
           'many_points': 5, 'dic': 10, 'verdict:property': 60,
           'partial_batch': 40, 'exact_batch': 10}


def oracle(points, shape):
    y, x = np.mgrid[:shape[0], :shape[1]].astype(float)
    best = np.full(shape, np.inf)
    for bx, by in points:
        best = np.minimum(best, np.hypot(x - bx - .5, y - by - .5))
    return best


def judge(ctx, rng, m, shape):
    pts = [tuple(int(v) for v in p) for p in m.data.grain_boundaries.points]
    n = len(pts)
    if n == 0:
        return n
    ctx.observe('many_points', n > 500)
    want = oracle(pts, shape)
    ctx.close(m.data.proxigram, want, 'distance', atol=1e-9, points=n)
    ctx.close(m.proxigram, want, 'property', atol=1e-9, points=n)
    sizes = {1, 2, n, max(1, n - 1), n + 1, int(rng.integers(1, n + 4))}
    if n > 200:                      # batches of one get slow
        sizes = {n, 7, int(rng.integers(50, n))}
    for k in sorted(sizes):
        if k * shape[0] * shape[1] > 3e7:
            continue
        ctx.observe('partial_batch', n % k != 0)
        ctx.observe('exact_batch', n % k == 0)
        ctx.close(m.calc_proxigram(num_trials=k), want, 'batch', atol=1e-9,
                  batch=k, points=n)
    ctx.close(m.data.proxigram, want, 'distance', atol=1e-9)
    return n


def again(ctx, rng, m, shape):
    """Other boundaries, worked out again."""
    m.data.generate('grain_boundaries', misori_tol=float(rng.choice(
        [.7, 3., 6., 16., 30.])))
    pts = [tuple(int(v) for v in p) for p in m.data.grain_boundaries.points]
    if not pts:
        return
    m.data.generate('proxigram', num_trials=int(rng.integers(1, 90)))
    want = oracle(pts, shape)
    for get in rng.permutation(2):
        ctx.close(m.proxigram if get else m.data.proxigram, want, 'again',
                  atol=1e-9)


def s_ebsd(ctx, rng, i):
    if i % 12 == 5:                  # more boundary points than a batch
        spec = build.ebsd_spec(rng, shape=(34, 36), multi=False,
                               noise=0., nonindexed='none')
        spec.euler = np.random.default_rng(int(rng.integers(1 << 30))).uniform(
            0, 1.5, (3,) + spec.shape)
    else:
        spec = build.ebsd_spec(rng, max_dim=18)
    m = build.ebsd_map(spec)
    n = judge(ctx, rng, m, spec.shape)
    ctx.describe(distinct=[spec.shape, spec.kind, i] if n else None,
                 shape=spec.shape, kind=spec.kind, boundary_points=n)
    if n:
        again(ctx, rng, m, spec.shape)


def s_dic(ctx, rng, i):
    spec = build.ebsd_spec(rng, shape=(int(rng.integers(14, 26)),
                                       int(rng.integers(14, 26))),
                           min_cells=4, noise=0., nonindexed='none')
    em = build.ebsd_map(spec)
    h, w = spec.shape
    m = build.dic_map(ctx.scratch, build.smooth_disp(rng, spec.shape))
    pts = [(0, 0), (w - 1, 0), (0, h - 1), (w - 1, h - 1)]
    build.link(m, em, pts, pts)
    if i % 2:
        m.set_crop(left=2, top=1, bottom=2, update_homog_points=True)
    n = judge(ctx, rng, m, tuple(m.shape))
    ctx.describe(distinct=[spec.shape, i] if n else None, shape=spec.shape,
                 boundary_points=n)
    ctx.observe('dic', n > 0)


def s_far(ctx, rng, i):
    """Longer than any fixed cap."""
    h, w = (1, 2)[i % 2] + 1, int(rng.integers(1300, 5000))
    if rng.random() < .4:
        h, w = w, h
    spec = build.ebsd_spec(rng, shape=(h, w), multi=False, noise=0.,
                           kind=None, nonindexed='none', min_cells=1)
    # the boundary anywhere along the map, sometimes at its far end
    n = max(h, w)
    k = int(rng.choice([rng.integers(1, 60), rng.integers(1, n),
                        n - rng.integers(1, 60)]))
    spec.euler[:] = 0.2
    if w > h:
        spec.euler[:, :, :k] = .9
    else:
        spec.euler[:, :k] = .9
    m = build.ebsd_map(spec)
    ctx.describe(distinct=[h, w, k], shape=(h, w), at=k)
    want = oracle([tuple(p) for p in m.data.grain_boundaries.points],
                  spec.shape)
    ctx.check(len(m.data.grain_boundaries.points) > 0, 'has_boundary')
    ctx.observe('far')
    ctx.close(m.calc_proxigram(num_trials=10), want, 'distance', atol=1e-9)


STREAMS = [Stream('ebsd', 60, 2000, s_ebsd), Stream('dic', 20, 600, s_dic),
           Stream('far', 8, 80, s_far)]
