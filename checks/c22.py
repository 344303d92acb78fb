"""C22: Nye tensor and GND content follow the lattice curvature."""
import numpy as np

from vt import ref, build
from vt.core import Stream

PROPERTY = 'C22'
RULE = ('EBSD maps 2x2..14x14 (noise, gradients along x, y or both, '
        'random symmetric equivalents, cubic and hexagonal, step sizes), '
        'per-point tensor oracle from rotation matrices; structure tests '
        'for curvature along one axis; scaling with step size and curvature; '
        'distinct by map')
ASSUMPTIONS = [
    'forward differences: judged where both the right and the lower '
    'neighbour exist (zero x- or y-gradient is used in the last column/row)',
    'points whose symmetry-reduced neighbour is not unique (within 1e-4 of a '
    'tie) are not judged',
    'symmetry of the primary phase (documented)']
REQUIRE = {'verdict:tensor': 40, 'verdict:gnd': 40, 'verdict:uniform': 8,
           'verdict:x_only': 10, 'verdict:y_only': 10, 'judged_points': 1000,
           'nonzero_x': 300, 'nonzero_y': 300, 'verdict:step_scaling': 10,
           'reduced_by_symmetry': 50}
BURGERS = 1.4e-10


def nearest(g0, gn, sym):
    """Equivalent of gn nearest to g0, and whether it is unique."""
    ops = ref.SYM[sym]
    eq = np.einsum('sij,...jk->s...ik', ops, gn)
    c = np.array([ref.cos_half(g0, e) for e in eq])
    order = np.argsort(-c, axis=0)
    best = np.take_along_axis(c, order[:1], 0)[0]
    second = np.take_along_axis(c, order[1:2], 0)[0]
    pick = np.take_along_axis(eq, order[:1][..., None, None], 0)[0]
    return pick, best - second > 1e-4, order[0]


def oracle(euler, sym, step):
    g = ref.bunge_many(euler)
    a, b = g[:-1, :-1], g[:-1, 1:]
    c = g[1:, :-1]
    bx, ux, kx = nearest(a, b, sym)
    cy, uy, ky = nearest(a, c, sym)
    T = lambda m: np.swapaxes(m, -1, -2)
    dx = (T(bx) @ a - np.eye(3)) / (step * 1e-6)
    dy = (T(cy) @ a - np.eye(3)) / (step * 1e-6)
    al = np.empty(a.shape[:2] + (3, 3))
    al[..., :, 2] = dy[..., :, 0] - dx[..., :, 1]
    al[..., :, 1] = dx[..., :, 2]
    al[..., :, 0] = -dy[..., :, 2]
    return al / BURGERS, ux & uy, dx, dy, (kx != 0) | (ky != 0)


def gnd_of(al):
    return 30 / 20 * np.abs(al).sum((-1, -2))


def field(rng, shape, cx, cy, base):
    """Smooth orientation field: curvature cx, cy (rotation vectors, radians
    per point)."""
    h, w = shape
    g = np.empty(shape + (3, 3))
    for y in range(h):
        for x in range(w):
            v = x * cx + y * cy
            n = np.linalg.norm(v)
            r = ref.rodrigues(v, n) if n > 0 else np.eye(3)
            g[y, x] = r @ base
    return g


def add_phase(spec):
    """Another phase ahead of the only one of the map."""
    other = (build.cubic_phase if spec.phases[0].crystal_structure.name ==
             'hexagonal' else build.hex_phase)('other')
    spec.phases = [other] + spec.phases
    spec.phase = np.full_like(spec.phase, 2)
    spec.primary = 1


def make(rng, g, ph, step, scramble):
    spec = build.Spec()
    spec.shape = g.shape[:2]
    spec.phases, spec.phase = [ph], np.ones(spec.shape, int)
    spec.primary = 0
    if rng.integers(2):
        add_phase(spec)
    if scramble:
        ops = ref.SYM[ph.crystal_structure.name]
        g = np.einsum('...ij,...jk->...ik', ops[rng.integers(
            len(ops), size=spec.shape)], g)
    spec.euler = ref.mat_to_eulers(g)
    spec.bc, spec.step = np.zeros(spec.shape, 'uint8'), step
    return spec


def observe_map(spec, order):
    m = build.ebsd_map(spec)
    # the primary phase is the one of the points, first or last of the list
    m.primary_phase_id = spec.primary
    if order:
        gnd, nye = m.data.GND, m.data.Nye_tensor
    else:
        nye, gnd = m.data.Nye_tensor, m.data.GND
    return np.asarray(gnd), np.moveaxis(np.asarray(nye), (0, 1), (-2, -1))


def judge(ctx, spec, gnd, nye, sym):
    ctx.check(gnd.shape == spec.shape and nye.shape == spec.shape + (3, 3),
              'shape', gnd=gnd.shape, nye=nye.shape)
    ctx.check(np.isfinite(gnd).all() and np.isfinite(nye).all(), 'finite')
    al, ok, dx, dy, red = oracle(spec.euler, sym, spec.step)
    n = nye[:-1, :-1][ok]
    scale = 1e-9 / (spec.step * 1e-6) / BURGERS * 10
    ctx.close(n, al[ok], 'tensor', atol=scale)
    ctx.close(gnd[:-1, :-1][ok], gnd_of(al)[ok], 'gnd', atol=20 * scale)
    # the content is the norm of the tensor everywhere
    ctx.close(gnd, gnd_of(nye), 'gnd_of_tensor', rtol=1e-9, atol=scale)
    ctx.observe('judged_points', ok.sum())
    ctx.observe('reduced_by_symmetry', (red & ok).sum())
    ctx.observe('nonzero_x', (np.abs(dx[ok]).max((-1, -2)) > 1).sum()
                if ok.any() else 0)
    ctx.observe('nonzero_y', (np.abs(dy[ok]).max((-1, -2)) > 1).sum()
                if ok.any() else 0)
    return al, ok


def s_any(ctx, rng, i):
    ph = [build.cubic_phase(), build.hex_phase()][i % 2]
    spec = build.ebsd_spec(rng, shape=(int(rng.integers(2, 13)),
                                       int(rng.integers(2, 13))),
                           phases=[ph], nonindexed='none')
    spec.primary = 0
    if rng.integers(2):
        add_phase(spec)
    if i % 20 == 3:
        shape = [(int(rng.integers(260, 320)), 3),
                 (3, int(rng.integers(260, 320)))][i // 20 % 2]
        spec = build.ebsd_spec(rng, shape=shape, kind=None, phases=[ph],
                               nonindexed='none')
        spec.primary = 0
        ctx.observe('long_maps')
    ctx.describe(distinct=[spec.shape, spec.kind, i], shape=spec.shape,
                 kind=spec.kind, step=spec.step)
    gnd, nye = observe_map(spec, i % 3)
    judge(ctx, spec, gnd, nye, ph.crystal_structure.name)


def s_curved(ctx, rng, i):
    ph = [build.cubic_phase(), build.hex_phase()][i % 2]
    sym = ph.crystal_structure.name
    kind = ['uniform', 'x', 'y', 'xy'][i // 2 % 4]
    shape = (int(rng.integers(3, 9)), int(rng.integers(3, 9)))
    amp = np.deg2rad(rng.choice([.01, .1, .5]))
    cx = rng.normal(size=3) * amp * (kind in ('x', 'xy'))
    cy = rng.normal(size=3) * amp * (kind in ('y', 'xy'))
    base = ref.bunge(*ref.random_eulers(rng))
    g = field(rng, shape, cx, cy, base)
    step = float(rng.choice([.05, .5, 2.]))
    scr = bool(rng.integers(2))
    spec = make(rng, g, ph, step, scr)
    ctx.describe(distinct=[kind, shape, cx, cy, i], kind=kind, shape=shape,
                 step=step, scrambled=scr)
    gnd, nye = observe_map(spec, i % 3)
    judge(ctx, spec, gnd, nye, sym)
    inner = nye[:-1, :-1]
    eps = 1e-8 / (step * 1e-6) / BURGERS
    if kind == 'uniform':
        ctx.check(np.abs(nye).max() < eps and np.abs(gnd).max() < 20 * eps,
                  'uniform', got=np.abs(nye).max())
    if kind == 'x':        # no y-derivative: first column of the tensor
        ctx.check(np.abs(inner[..., 0]).max() < eps, 'x_only',
                  got=np.abs(inner[..., 0]).max())
    if kind == 'y':        # no x-derivative: second column of the tensor
        ctx.check(np.abs(inner[..., 1]).max() < eps, 'y_only',
                  got=np.abs(inner[..., 1]).max())
    # inverse proportionality to the step size
    k = float(rng.choice([.25, 2., 3.]))
    spec.step = step * k
    gnd2, nye2 = observe_map(spec, i % 2)
    ctx.close(gnd2 * k, gnd, 'step_scaling', rtol=1e-9, atol=eps)
    ctx.close(nye2 * k, nye, 'step_scaling', rtol=1e-9, atol=eps)
    # to first order proportional to the curvature
    if kind in ('x', 'y') and not scr:
        g3 = field(rng, shape, cx / 2, cy / 2, base)
        gnd3, _ = observe_map(make(rng, g3, ph, step, False), 1)
        a, b = gnd[:-1, :-1], 2 * gnd3[:-1, :-1]
        ctx.check(np.all(np.abs(a - b) <= .05 * np.abs(a) + 20 * eps +
                         20 * (np.linalg.norm(cx + cy) * max(shape)) ** 2 /
                         (step * 1e-6) / BURGERS),
                  'curvature_scaling', got=b, want=a)


STREAMS = [
    Stream('any', 60, 2000, s_any),
    Stream('curved', 80, 2500, s_curved),
]
