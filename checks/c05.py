"""C05: IPF directions lie in the fundamental sector, colours are safe."""
import numpy as np

from vt import ref
from vt.core import Stream
from defdap.quat import Quat
from defdap import defaults

PROPERTY = 'C05'
RULE = ('orientations (random; hostile: direction on sector edges, corners, '
        'poles, equator, all equivalents) x sample directions (axes, integer, '
        'random, non-unit) x structure x triangle x dtype; distinct by inputs')
ASSUMPTIONS = ['angles compared to 2e-7 rad in double (arccos near the pole), '
               '2e-3 in float32; colour bands 4e-3 (colours are computed '
               'through arccos in single precision)']
REQUIRE = {'verdict:direction_is_equivalent': 500, 'verdict:in_sector': 250,
           'verdict:colour_of_equivalents': 100, 'edge_cases': 100,
           'verdict:corner_colour': 6, 'verdict:rejects': 6}
SYMS = ['cubic', 'hexagonal']


def vec(a, b):
    return np.array([np.sin(a) * np.cos(b), np.sin(a) * np.sin(b),
                     np.cos(a)]).T


def orientation_with(rng, crystal_dir, sample_dir):
    """g such that g @ sample_dir // crystal_dir, random spin."""
    def frame(v):
        v = np.asarray(v, float) / np.linalg.norm(v)
        t = rng.normal(size=3)
        x = np.cross(v, t)
        x /= np.linalg.norm(x)
        return np.array([x, np.cross(v, x), v])
    return frame(crystal_dir).T @ frame(sample_dir)


def corner_dirs(sym, triangle):
    if sym == 'cubic':
        return np.array([[0, 0, 1.], [0, 1, 1], [-1, 1, 1]])
    s = -1 if triangle == 'up' else 1
    return np.array([[0, 0, 1.], [0, 1, 0], [s * .5, np.sqrt(3) / 2, 0]])


def sector_excess(v, sym, triangle):
    """How far (rad, about) v lies outside the sector bounded by its edges."""
    c = corner_dirs(sym, triangle)
    c = c / np.linalg.norm(c, axis=1)[:, None]
    worst = 0.
    for a, b, o in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
        n = np.cross(c[a], c[b])
        n /= np.linalg.norm(n)
        if n @ c[o] < 0:
            n = -n
        worst = max(worst, -(v @ n).min())
    return worst


DIRS = [[0, 0, 1], [1, 0, 0], [0, 1, 0], [1, 1, 0], [0, 0, -1], [1, 2, 3]]


def gen(rng, i, sym, n):
    d = np.array(DIRS[i % len(DIRS)], float)
    if i % 7 == 0:
        d = rng.normal(size=3) * rng.uniform(.1, 30)
    tri = ['up', 'down'][i // 2 % 2]
    gs, edge = [], False
    for k in range(n):
        m = rng.integers(6)
        if m <= 1:
            g = ref.bunge(*ref.random_eulers(rng))
        elif m == 2:               # low-index direction
            v = rng.integers(-2, 3, 3).astype(float)
            if not v.any():
                v[2] = 1
            g = orientation_with(rng, v, d)
            edge = True
        elif m == 3:               # on an edge of the sector
            c = corner_dirs(sym, tri)
            a, b = c[rng.permutation(3)[:2]]
            t = rng.random()
            g = orientation_with(rng, t * a + (1 - t) * b, d)
            edge = True
        elif m == 4:               # near / at a corner
            c = corner_dirs(sym, tri)
            v = c[rng.integers(3)] + rng.normal(size=3) * rng.choice(
                [0, 1e-9, 1e-6, 1e-4])
            g = orientation_with(rng, v, d)
            edge = True
        else:                      # special Euler angles
            g = ref.bunge(*rng.choice([0, np.pi / 6, np.pi / 4, np.pi / 3,
                                       np.pi / 2, np.pi], 3))
            edge = True
        gs.append(ref.SYM[sym][rng.integers(len(ref.SYM[sym]))] @ g)
    return d, tri, np.array(gs), edge


def s_fund(ctx, rng, i):
    sym = SYMS[i % 2]
    n = int(rng.choice([1, 5, 25]))
    d, tri, gs, edge = gen(rng, i // 2, sym, n)
    f32 = i % 5 == 4
    quats = Quat.create_many_quats(ref.mat_to_eulers(gs))
    ctx.describe(distinct=[sym, tri, d.tolist(), np.round(gs, 6).tolist()],
                 sym=sym, tri=tri, d=d, n=n, f32=f32)
    if edge:
        ctx.observe('edge_cases')
    kw = {'dtype': np.float32} if f32 else {}
    dd = d.copy()
    if i % 3 == 0:
        dd = d.tolist()
    if sym == 'hexagonal':
        if i % 4 < 2:
            a, b = Quat.calc_fund_dirs(quats, dd, sym, triangle=tri, **kw)
        else:
            old = defaults['ipf_triangle_convention']
            defaults['ipf_triangle_convention'] = tri
            try:
                a, b = Quat.calc_fund_dirs(quats, dd, sym, **kw)
            finally:
                defaults['ipf_triangle_convention'] = old
    else:
        a, b = Quat.calc_fund_dirs(quats, dd, sym, triangle=tri, **kw)
    ctx.equal(np.array(dd), d, 'direction_kept')
    ctx.check(a.shape == (n,) and b.shape == (n,), 'shape')
    v = vec(a.astype(float), b.astype(float))
    ctx.check(np.isfinite(v).all(), 'finite')
    tol = 3e-3 if f32 else 2e-7
    want = gs @ (d / np.linalg.norm(d))
    for k in range(n):
        img = ref.SYM[sym] @ want[k]
        dev = min(np.abs(img - v[k]).max(1).min(),
                  np.abs(img + v[k]).max(1).min())
        ctx.record_max('dev32' if f32 else 'dev', dev)
        ctx.check(dev <= tol, 'direction_is_equivalent', dev=dev, v=v[k],
                  crystal=want[k])
    ex = sector_excess(v, sym, tri)
    ctx.record_max('excess32' if f32 else 'excess', ex)
    ctx.check(ex <= tol, 'in_sector', excess=ex, alpha=a, beta=b)


def s_colour(ctx, rng, i):
    sym = SYMS[i % 2]
    n = int(rng.choice([1, 4, 12]))
    d, tri, gs, edge = gen(rng, i // 2, sym, n)
    ctx.describe(distinct=[sym, d.tolist(), np.round(gs, 6).tolist()],
                 sym=sym, d=d, n=n)
    if edge:
        ctx.observe('edge_cases')
    ops = ref.SYM[sym]

    def colours(g, direction, **kw):
        q = Quat.create_many_quats(ref.mat_to_eulers(g))
        rgb = np.asarray(Quat.calc_ipf_colours(q, direction, sym, **kw),
                         float)
        ctx.check(rgb.shape == (3, len(g)), 'colour_shape', got=rgb.shape)
        ctx.check(np.isfinite(rgb).all(), 'colour_finite', rgb=rgb)
        ctx.check(rgb.min() >= -1e-6 and rgb.max() <= 1 + 1e-6,
                  'colour_range', rgb=rgb)
        ctx.close(rgb.max(0), np.ones(len(g)), 'colour_max', atol=1e-5)
        return rgb
    base = colours(gs, d)
    ge = np.array([ops[rng.integers(len(ops))] @ g for g in gs])
    e = np.abs(colours(ge, d) - base).max()
    ctx.record_max('equivalents_diff', e)
    ctx.check(e < 4e-3, 'colour_of_equivalents', diff=e)
    e = np.abs(colours(gs, -d) - base).max()
    ctx.check(e < 4e-3, 'colour_of_opposite', diff=e)
    e = np.abs(colours(gs, d * 7.5) - base).max()
    ctx.check(e < 4e-3, 'colour_of_length', diff=e)
    e = np.abs(colours(gs, d, dtype=float) - base).max()
    ctx.record_max('dtype_diff', e)
    ctx.check(e < 4e-3, 'colour_of_dtype', diff=e)
    # the colours do not depend on the triangle chosen for plots
    old = defaults['ipf_triangle_convention']
    try:
        for tri2 in ('up', 'down'):
            defaults['ipf_triangle_convention'] = tri2
            e = np.abs(colours(gs, d) - base).max()
            ctx.check(e < 1e-6, 'colour_of_convention', diff=e)
    finally:
        defaults['ipf_triangle_convention'] = old
    # independent oracle: ratio along the great circle from the corner
    want = oracle_colour(gs, d, sym)
    e = np.abs(base - want).max()
    ctx.record_max('oracle_diff', e)
    ctx.check(e < 6e-3, 'colour_oracle', diff=e, got=base, want=want)


def oracle_colour(gs, d, sym):
    c = corner_dirs(sym, 'up')
    c = c / np.linalg.norm(c, axis=1)[:, None]
    ns = []
    for a, b, o in ((1, 2, 0), (0, 2, 1), (0, 1, 2)):
        n = np.cross(c[a], c[b])
        n /= np.linalg.norm(n)
        ns.append(n if n @ c[o] > 0 else -n)
    ns = np.array(ns)
    out = []
    for g in gs:
        img = ref.SYM[sym] @ (g @ (d / np.linalg.norm(d)))
        img = np.vstack([img, -img])
        v = img[(img @ ns.T).min(1).argmax()]
        rgb = []
        for k in range(3):
            m = np.cross(v, c[k])
            if np.linalg.norm(m) < 1e-9:
                rgb.append(1.)
                continue
            x = np.cross(m, ns[k])
            x /= np.linalg.norm(x)
            # point of the opposite edge on the far side of v from the corner
            if x @ v < 0:
                x = -x
            rgb.append(np.arccos(np.clip(v @ x, -1, 1)) /
                       np.arccos(np.clip(c[k] @ x, -1, 1)))
        rgb = np.array(rgb)
        out.append(rgb / rgb.max())
    return np.array(out).T


def s_corner(ctx, rng, i):
    sym = SYMS[i % 2]
    k = i // 2 % 3
    d = rng.normal(size=3)
    c = corner_dirs(sym, 'up')[k]
    g = orientation_with(rng, c, d)
    g = ref.SYM[sym][rng.integers(len(ref.SYM[sym]))] @ g
    ctx.describe(distinct=[sym, k, np.round(g, 6).tolist()], sym=sym, k=k)
    rgb = Quat.calc_ipf_colours(
        Quat.create_many_quats(ref.mat_to_eulers(g)[:, None]), d, sym)
    ctx.close(rgb[:, 0], np.eye(3)[k], 'corner_colour', atol=6e-3)


def s_large(ctx, rng, i):
    """Many orientations in one call: same colours as in small calls."""
    sym = SYMS[i % 2]
    n = [1500, 9001, 33000][i % 3]
    d = rng.normal(size=3)
    es = ref.random_eulers(rng, (n,))
    ctx.describe(distinct=[sym, n, np.round(es[:, :2], 6).tolist()], sym=sym,
                 n=n)
    ctx.observe('large_arrays')
    q = Quat.create_many_quats(es)
    rgb = np.asarray(Quat.calc_ipf_colours(q, d, sym), float)
    ctx.check(rgb.shape == (3, n) and np.isfinite(rgb).all(), 'colour_shape',
              got=rgb.shape)
    k = np.unique(np.concatenate([rng.integers(n, size=60), [0, n - 1],
                                  np.arange(511, n, 512)[:30],
                                  np.arange(1000, n, 1000)[:30]]))
    want = oracle_colour(ref.bunge_many(es[:, k]), d, sym)
    e = np.abs(rgb[:, k] - want).max()
    ctx.record_max('oracle_diff', e)
    ctx.check(e < 6e-3, 'large_colour', diff=e)
    ctx.close(rgb.max(0), np.ones(n), 'colour_max', atol=1e-5)
    alpha, beta = Quat.calc_fund_dirs(q, d, sym)
    a1, b1 = Quat.calc_fund_dirs(q[k], d, sym)
    ctx.close(np.concatenate([alpha[k], beta[k]]), np.concatenate([a1, b1]),
              'large_fund', atol=1e-9)


def s_reject(ctx, rng, i):
    q = [Quat(ref.rand_quat(rng))]
    bad = ['square', 'Up', '', 'left'][i % 4]
    ctx.describe(distinct=[i % 8, 'reject'])
    with ctx.raises(ValueError, 'rejects', triangle=bad):
        Quat.calc_fund_dirs(q, [0, 0, 1], 'hexagonal', triangle=bad)
    with ctx.raises(ValueError, 'rejects'):
        Quat.calc_fund_dirs(q, [0, 0, 1], 'ortho')
    with ctx.raises(ValueError, 'rejects'):
        Quat.calc_ipf_colours(q, [0, 0, 1], 'ortho')


STREAMS = [
    Stream('fund', 300, 8000, s_fund),
    Stream('colour', 120, 3000, s_colour),
    Stream('corner', 60, 600, s_corner),
    Stream('large', 3, 24, s_large),
    Stream('reject', 8, 16, s_reject),
]
