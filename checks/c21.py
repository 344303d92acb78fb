"""C21: kernel average misorientation measures rotation to neighbours."""
import numpy as np

from vt import ref, build
from vt.core import Stream

PROPERTY = 'C21'
RULE = ('EBSD maps 1x1..20x20 of any content; oracle per point from rotation '
        'matrices; metamorphic: mirrored, transposed, quaternion signs '
        'flipped, far point changed, uniform region; distinct by map')
ASSUMPTIONS = [
    'crystal symmetry is not considered (documented)',
    'where neighbours exist in both directions the mean is that of the row '
    'mean and the column mean',
    'compared at the cosine with tolerance 1e-10, and the angle to 1e-6']
REQUIRE = {'verdict:kam': 60, 'verdict:uniform': 20, 'verdict:locality': 20,
           'verdict:mirror': 40, 'verdict:transpose': 20, 'verdict:sign': 15,
           'one_line_maps': 3, 'moved_points': 20}


def half_cos(a, b):
    return ref.cos_half(a, b)


def oracle(euler):
    """Mean half-angle cosine."""
    g = ref.bunge_many(euler)
    h, w = g.shape[:2]
    out = np.empty((h, w))
    for y in range(h):
        for x in range(w):
            means = []
            for n in ([(y - 1, x), (y + 1, x)], [(y, x - 1), (y, x + 1)]):
                v = [float(half_cos(g[y, x], g[p])) for p in n
                     if 0 <= p[0] < h and 0 <= p[1] < w]
                if v:
                    means.append(np.mean(v))
            out[y, x] = np.mean(means) if means else 1.
    return out


def kam_of(spec, flip=None):
    m = build.ebsd_map(spec)
    if flip is not None:
        q = m.data.orientation
        for idx in np.argwhere(flip):
            q[tuple(idx)].quat_coef = -q[tuple(idx)].quat_coef
    return np.array(m.data.KAM)


def clone(spec, f):
    s = build.Spec()
    s.__dict__.update(spec.__dict__)
    s.euler = np.ascontiguousarray(f(spec.euler))
    s.phase = np.ascontiguousarray(f(np.asarray(spec.phase)[None])[0])
    s.bc = np.ascontiguousarray(f(spec.bc[None])[0])
    s.shape = s.phase.shape
    return s


def same(ctx, a, b, mech, **kw):
    ctx.check(a.shape == b.shape and np.all(
        np.abs(np.cos(a / 2) - np.cos(b / 2)) < 1e-10), mech, got=a, want=b,
        **kw)


def s_kam(ctx, rng, i):
    shape = None
    if i % 6 == 5:
        shape = [(1, int(rng.integers(1, 20))), (int(rng.integers(1, 20)), 1),
                 (1, 1), (2, 2)][rng.integers(4)]
        ctx.observe('one_line_maps', 1 in shape)
    elif i % 30 == 7:
        shape = build.long_shape(rng)
        ctx.observe('long_maps')
    spec = build.ebsd_spec(rng, shape=shape, max_dim=16)
    ctx.describe(distinct=[spec.shape, spec.kind, i], shape=spec.shape,
                 kind=spec.kind, noise=spec.noise)
    k = kam_of(spec)
    c = oracle(spec.euler)
    ctx.check(k.shape == spec.shape and np.isfinite(k).all(), 'finite')
    ctx.close(np.cos(k / 2), c, 'kam', atol=1e-9)
    away = c < 1 - 1e-6
    ctx.close(k[away], 2 * np.arccos(c[away]), 'kam_angle', atol=1e-6)
    # uniform neighbourhoods
    e = spec.euler
    h, w = spec.shape
    pad = np.pad(e, ((0, 0), (1, 1), (1, 1)), mode='edge')
    flat = np.ones((h, w), bool)
    for dy, dx in ((0, 1), (2, 1), (1, 0), (1, 2)):
        flat &= np.all(pad[:, dy:dy + h, dx:dx + w] == e, axis=0)
    if flat.any():
        ctx.check(k[flat].max() < 1e-6, 'uniform', got=k[flat].max())
    mirror = rng.integers(2)
    f = [lambda a: a[..., ::-1], lambda a: a[..., ::-1, :]][mirror]
    same(ctx, kam_of(clone(spec, f)), f(k), 'mirror')
    same(ctx, kam_of(clone(spec, lambda a: a.swapaxes(-1, -2))), k.T,
         'transpose')
    if i % 3 == 0:
        same(ctx, kam_of(spec, rng.random(spec.shape) < .5), k, 'sign')
    # change one point: only it and its four neighbours move
    y, x = int(rng.integers(h)), int(rng.integers(w))
    s2 = clone(spec, np.copy)
    s2.euler[:, y, x] = ref.random_eulers(rng)
    k2 = kam_of(s2)
    far = np.ones((h, w), bool)
    for p in ((y, x), (y - 1, x), (y + 1, x), (y, x - 1), (y, x + 1)):
        if 0 <= p[0] < h and 0 <= p[1] < w:
            far[p] = False
    same(ctx, k2[far], k[far], 'locality')
    ctx.observe('moved_points', (k2 != k).sum())


STREAMS = [Stream('kam', 80, 2500, s_kam)]
