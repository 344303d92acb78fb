"""C10: boundaries separate exactly the misoriented or differing neighbours."""
import numpy as np

from vt import ref, build
from vt.core import Stream, Skip

PROPERTY = 'C10'
RULE = ('EBSD maps 1x1..30x30 (cells, stripes, checkerboards, spirals, noise, '
        'diagonal contacts, specks; 1 or 2 phases; non-indexed points; '
        'low-angle rotations; orientation representatives randomised by '
        'symmetry) with tolerances 0.06..100 degrees; distinct by map, kind and '
        'tolerance')
ASSUMPTIONS = [
    'the crystal symmetry is that of the primary phase (known finding '
    'phase_symmetry for the other phases)',
    'pairs whose misorientation is within 1e-5 rad of the tolerance are not '
    'judged']
REQUIRE = {'verdict:grain_boundary_x': 50, 'verdict:phase_boundary_x': 50,
           'verdict:lines': 50, 'pairs_on_boundary': 500,
           'pairs_off_boundary': 500, 'pairs_phase_only': 20,
           'edge_last_column': 20}


def expected(spec, tol):
    """Boolean pair arrays (h, w-1) and (h-1, w), and 'undecided' masks."""
    from defdap.crystal import Phase            # structure name only
    sym = spec.phases[0].crystal_structure.name
    g = ref.bunge_many(spec.euler)
    ph = np.asarray(spec.phase)
    out = []
    for ax in (1, 0):
        n = spec.shape[ax]
        a = np.take(g, range(0, n - 1), axis=ax)
        b = np.take(g, range(1, n), axis=ax)
        pa = np.take(ph, range(0, n - 1), axis=ax)
        pb = np.take(ph, range(1, n), axis=ax)
        ang = (ref.mis_angle(a, b, sym) if a.size
               else np.zeros(a.shape[:2]))
        p = pa != pb
        near = (np.abs(ang - tol) < 1e-5) & ~p
        out.append(((ang > tol) | p, p, near, ang))
    return out


def full(pairs, shape, ax):
    im = np.zeros(shape, bool)
    if ax == 1:
        im[:, :-1] = pairs
    else:
        im[:-1, :] = pairs
    return im


def scramble(rng, spec):
    """Replace Euler angles by those of random symmetric equivalents."""
    sym = spec.phases[0].crystal_structure.name
    g = ref.bunge_many(spec.euler)
    ops = ref.SYM[sym]
    k = rng.integers(len(ops), size=spec.shape)
    g2 = np.einsum('...ij,...jk->...ik', ops[k], g)
    e = ref.mat_to_eulers(g2)
    idx = np.asarray(spec.phase) != 0
    spec.euler = np.where(idx, e, spec.euler)


def check_set(ctx, bs, want_x, want_y, near_x, near_y, name, shape):
    ix, iy = np.asarray(bs.image_x), np.asarray(bs.image_y)
    ctx.check(ix.shape == shape and iy.shape == shape, 'image_shape')
    for im, want, near, d in ((ix, want_x, near_x, 'x'),
                              (iy, want_y, near_y, 'y')):
        bad = (im.astype(bool) != want) & ~near
        ctx.check(not bad.any(), f'{name}_boundary_{d}',
                  at=np.argwhere(bad)[:5], got=im, want=want)
    # all views describe the same pairs
    px = {(int(x), int(y)) for x, y in bs.points_x}
    py = {(int(x), int(y)) for x, y in bs.points_y}
    ctx.check(px == {(int(x), int(y)) for y, x in zip(*ix.nonzero())},
              'points_x', name=name)
    ctx.check(py == {(int(x), int(y)) for y, x in zip(*iy.nonzero())},
              'points_y', name=name)
    ctx.check({(int(x), int(y)) for x, y in bs.points} == px | py, 'points',
              name=name)
    im = np.asarray(bs.image)
    ctx.equal(im.astype(bool), ix.astype(bool) | iy.astype(bool), 'image',
              name=name)
    got = sorted(sorted((float(a), float(b)) for a, b in line)
                 for line in bs.lines)
    want = sorted(
        [sorted([(x + .5, y - .5), (x + .5, y + .5)]) for x, y in px] +
        [sorted([(x - .5, y + .5), (x + .5, y + .5)]) for x, y in py])
    ctx.check(got == want, 'lines', name=name, got=got[:6], want=want[:6])


def run(ctx, rng, spec, tol_deg, generate):
    m = build.ebsd_map(spec)
    tol = np.deg2rad(tol_deg)
    (bx, px, nx, _), (by, py, ny, _) = expected(spec, tol)
    s = spec.shape
    BX, BY = full(bx, s, 1), full(by, s, 0)
    PX, PY = full(px, s, 1), full(py, s, 0)
    NX, NY = full(nx, s, 1), full(ny, s, 0)
    if generate == 'default':
        gb, pb = m.data.grain_boundaries, m.data.phase_boundaries
    elif generate == 'phase_first':
        pb, gb = m.data.phase_boundaries, m.data.grain_boundaries
    else:
        m.data.generate('grain_boundaries', misori_tol=tol_deg)
        gb, pb = m.data.grain_boundaries, m.data.phase_boundaries
    no = np.zeros(s, bool)
    check_set(ctx, gb, BX, BY, NX, NY, 'grain', s)
    check_set(ctx, pb, PX, PY, no, no, 'phase', s)
    ctx.observe('pairs_on_boundary', bx.sum() + by.sum())
    ctx.observe('pairs_off_boundary', (~bx).sum() + (~by).sum())
    ctx.observe('pairs_phase_only', px.sum() + py.sum())
    ctx.observe('edge_last_column', s[0])
    ctx.observe('undecided_pairs', nx.sum() + ny.sum())
    # symmetric under swapping the axes / mirroring is implied by the oracle
    return m


def s_maps(ctx, rng, i):
    shape = None
    if i % 8 == 7:
        shape = [(1, int(rng.integers(1, 20))), (int(rng.integers(1, 20)), 1),
                 (2, 2), (1, 1)][rng.integers(4)]
    spec = build.ebsd_spec(rng, shape=shape)
    if rng.random() < .6:
        scramble(rng, spec)
    mode = ['default', 'phase_first', 'tol'][i % 3]
    tol = 10. if mode != 'tol' else float(
        rng.choice([.5, 2., 5., 6., 15., 30., 45., 65., 100.]))
    ctx.describe(distinct=[spec.shape, spec.kind, tol, i],
                 shape=spec.shape, kind=spec.kind, tol=tol,
                 phases=[p.name for p in spec.phases],
                 nonindexed=spec.nonindexed)
    run(ctx, rng, spec, tol, mode)


def s_steps(ctx, rng, i):
    """Columns/rows rotated by a known angle about a common axis: angles just
    below and just above the tolerance."""
    n = int(rng.integers(4, 12))
    ph = [build.cubic_phase(), build.hex_phase()][i % 2]
    tol = float(rng.choice([.06, .3, 2., 5., 10., 20.]))
    ax = rng.normal(size=3)
    g0 = ref.bunge(*ref.random_eulers(rng))
    s, d = min(1e-2, tol / 25), min(.5, tol / 2)
    deltas = tol + rng.choice([-s, s, -d, d, -tol], n)
    g = [g0]
    for d in deltas:
        g.append(ref.rodrigues(ax, np.deg2rad(d)) @ g[-1])
    e = ref.mat_to_eulers(np.array(g))
    k = int(rng.integers(2, 6))
    horizontal = bool(rng.integers(2))
    eul = (np.repeat(e[:, None, :], k, axis=1) if horizontal
           else np.repeat(e[:, :, None], k, axis=2))
    spec = build.Spec()
    spec.shape = eul.shape[1:]
    spec.phases, spec.phase = [ph], np.ones(spec.shape, int)
    spec.euler, spec.step = eul, 1.
    spec.bc = np.zeros(spec.shape, 'uint8')
    spec.kind, spec.nonindexed = 'steps', 'none'
    if rng.integers(2):
        scramble(rng, spec)
    ctx.describe(distinct=[tol, deltas.tolist(), ph.name], tol=tol,
                 deltas=deltas, horizontal=horizontal)
    m = run(ctx, rng, spec, tol, 'tol')
    on = deltas > tol
    got = (m.data.grain_boundaries.image_x[0, :-1] if horizontal
           else m.data.grain_boundaries.image_y[:-1, 0])
    ctx.equal(got.astype(bool), on, 'threshold', deltas=deltas, tol=tol)


def s_phase_symmetry(ctx, rng, i):
    """Two equivalent orientations of the second, hexagonal phase."""
    spec = build.Spec()
    spec.shape = (2, 4)
    spec.phases = [build.cubic_phase('c'), build.hex_phase('h')]
    spec.phase = np.array([[1, 1, 2, 2]] * 2)
    g = ref.bunge(.3, .7, .2)
    e = ref.mat_to_eulers(np.array(
        [g, g, g, ref.rodrigues([0, 0, 1], np.pi / 3) @ g]))
    spec.euler = np.repeat(e[:, None, :], 2, axis=1)
    spec.bc, spec.step = np.zeros(spec.shape, 'uint8'), 1.
    ctx.describe(distinct='phase_symmetry')
    m = build.ebsd_map(spec)
    ctx.check(not m.data.grain_boundaries.image_x[0, 2], 'phase_symmetry',
              what='equivalent orientations of the secondary hexagonal phase '
                   'are separated by a grain boundary')


def s_large(ctx, rng, i):
    shape = [(90, 130), (1, 500), (300, 20), (11, 300)][i % 4]
    spec = build.ebsd_spec(rng, shape=shape, noise=0., min_cells=int(
        rng.integers(2, 400)) if i % 3 else None)
    ctx.describe(distinct=[spec.shape, spec.kind, i], shape=spec.shape,
                 kind=spec.kind)
    ctx.observe('large_maps')
    run(ctx, rng, spec, 10., 'default')


STREAMS = [
    Stream('large', 4, 100, s_large),
    Stream('maps', 150, 4000, s_maps),
    Stream('steps', 60, 1500, s_steps),
    Stream('phase_symmetry', 1, 1, s_phase_symmetry),
]
