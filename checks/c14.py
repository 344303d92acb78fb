"""C14: strains follow from the displacement gradient."""
import numpy as np

from vt import build
from vt.core import Stream

PROPERTY = 'C14'
RULE = ('DIC maps loaded from DaVis files holding linear, rigid, quadratic '
        'and random displacement fields on random grids and sub-window '
        'sizes; distinct by grid, sub-window size and field')
ASSUMPTIONS = ['second order central differences inside, one sided at the '
               'map edge (both exact for fields linear in position)',
               'rounding tolerance relative to the displacement size']
REQUIRE = {'verdict:f_linear': 200, 'verdict:e_linear': 200, 'verdict:rigid':
           100, 'verdict:f_difference': 200, 'verdict:green': 200,
           'verdict:shear': 200, 'tiny_maps': 5, 'nan_points': 6, 'cropped': 20}


def make(ctx, rng, field, shape, binning):
    c = build.dic_coords(shape, binning)
    return c, build.dic_map(ctx.scratch, field(c[0], c[1]), binning)


def grid(ctx, rng):
    shape = (int(rng.integers(2, 18)), int(rng.integers(2, 18)))
    if rng.random() < .15:
        shape = (2, int(rng.integers(2, 6)))
    elif rng.random() < .1:
        shape = (int(rng.integers(20, 60)), int(rng.integers(20, 60)))
    elif rng.random() < .06:
        shape = build.long_shape(rng)
        ctx.observe('long_maps')
    ctx.observe('tiny_maps', 2 in shape)
    return shape, int(rng.choice([1, 2, 3, 4, 8, 12, 16, 32,
                                                  64, 100, 128]))


def shear_of(e):
    """Maximum in-plane shear from the principal strains."""
    m = np.moveaxis(e, (0, 1), (-2, -1))
    w = np.linalg.eigvalsh((m + np.swapaxes(m, -1, -2)) / 2)
    return (w[..., 1] - w[..., 0]) / 2


def strains(ctx, f, m, tol, mech_e='green'):
    want = .5 * (np.einsum('kiyx,kjyx->ijyx', f, f) -
                 np.eye(2)[:, :, None, None])
    ctx.close(m.data.e, want, mech_e, atol=tol)
    ctx.close(m.data.max_shear, shear_of(want), 'shear', atol=10 * tol)
    # the shear really is the largest over all directions
    th = np.linspace(0, np.pi, 31)
    n = np.array([np.cos(th), np.sin(th)])
    t = np.array([-np.sin(th), np.cos(th)])
    s = np.abs(np.einsum('ia,ijyx,ja->ayx', n, want, t)).max(0)
    ctx.check(np.all(np.asarray(m.data.max_shear) >= s - 20 * tol),
              'shear_max')


def s_linear(ctx, rng, i):
    shape, b = grid(ctx, rng)
    g = rng.normal(size=(2, 2)) * 10 ** rng.uniform(-4, 0)
    kind = ['full', 'one', 'rotation', 'translation'][i % 4]
    if kind == 'one':                 # a single component
        k = rng.integers(4)
        g = np.where(np.arange(4).reshape(2, 2) == k, g, 0)
    elif kind == 'rotation':
        a = rng.uniform(-np.pi, np.pi) * rng.choice([1, .01])
        g = np.array([[np.cos(a) - 1, -np.sin(a)], [np.sin(a), np.cos(a) - 1]])
    elif kind == 'translation':
        g = np.zeros((2, 2))
    t = rng.normal(size=2) * 10
    field = lambda x, y: np.array([g[0, 0] * x + g[0, 1] * y + t[0],
                                   g[1, 0] * x + g[1, 1] * y + t[1]])
    c, m = make(ctx, rng, field, shape, b)
    ctx.describe(distinct=[shape, b, kind, np.round(g, 6).tolist()],
                 shape=shape, binning=b, kind=kind, gradient=g)
    want = np.broadcast_to((np.eye(2) + g)[:, :, None, None],
                           (2, 2) + shape)
    tol = 1e-10 * (1 + np.abs(g).max()) ** 2
    ctx.close(m.data.f, want, 'f_linear', atol=tol)
    strains(ctx, want, m, 10 * tol, 'e_linear')
    if kind in ('rotation', 'translation'):
        ctx.close(m.data.e, np.zeros((2, 2) + shape), 'rigid', atol=1e-8)
        ctx.close(m.data.max_shear, np.zeros(shape), 'rigid', atol=1e-8)
    ctx.equal(m.data.displacement, field(*c), 'displacement')


def diff(u, axis, h):
    """Central differences inside, one-sided at the ends."""
    u = np.moveaxis(u, axis, 0)
    d = np.empty_like(u)
    for k in range(len(u)):
        lo, hi = max(k - 1, 0), min(k + 1, len(u) - 1)
        d[k] = (u[hi] - u[lo]) / ((hi - lo) * h)
    return np.moveaxis(d, 0, axis)


def s_field(ctx, rng, i):
    shape, b = grid(ctx, rng)
    if i % 3 == 0:
        q = rng.normal(size=(2, 6)) * 1e-3
        field = lambda x, y: np.array([
            r[0] + r[1] * x + r[2] * y + r[3] * x * x + r[4] * x * y +
            r[5] * y * y for r in q])
    else:
        d = rng.normal(size=(2,) + shape) if i % 3 == 1 else \
            build.smooth_disp(rng, shape)
        if rng.random() < .3:
            d[:, rng.integers(shape[0]), rng.integers(shape[1])] = 0
        elif rng.random() < .2:
            # not correlated there: no strain where it would be used
            d[:, rng.integers(shape[0]), rng.integers(shape[1])] = np.nan
            ctx.observe('nan_points')
        field = lambda x, y: d
    c, m = make(ctx, rng, field, shape, b)
    u = field(*c)
    ctx.describe(distinct=[shape, b, i], shape=shape, binning=b)
    f = np.array([[diff(u[k], 1, b), diff(u[k], 0, b)] for k in range(2)])
    f += np.eye(2)[:, :, None, None]
    tol = 1e-11 * (1 + np.nanmax(np.abs(u)))
    ctx.close(m.data.f, f, 'f_difference', atol=tol)
    if np.isnan(f).any():
        bad = np.isnan(f).any((0, 1))
        ctx.check(np.isnan(np.asarray(m.data.max_shear)[bad]).all() and
                  np.isfinite(np.asarray(m.data.max_shear)[~bad]).all(),
                  'nan_shear')
    else:
        strains(ctx, f, m, 1e-10 * (1 + np.abs(f).max()) ** 2)
    # a crop is a window on the same strains, not a new differentiation
    if min(shape) > 3:
        l, r, tp, bt = (int(v) for v in rng.integers(0, 2, 4))
        m.set_crop(left=l, right=r, top=tp, bottom=bt)
        ctx.observe('cropped')
        ctx.close(m.data.f, f[..., tp:shape[0] - bt, l:shape[1] - r],
                  'f_cropped', atol=tol)


STREAMS = [Stream('linear', 160, 6000, s_linear),
           Stream('field', 160, 6000, s_field)]
