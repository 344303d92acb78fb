"""C28: orientation filtering smooths without moving boundaries."""
import numpy as np

from vt import build
from vt.core import Stream
from defdap.quat import Quat

PROPERTY = 'C28'
RULE = ('EBSD maps with sharp boundaries above and below the tolerance, noise, '
        'orientation gradients, any shape, filtered repeatedly with several '
        'tolerances; orientations stored with either quaternion sign; '
        'distinct by map and tolerance')
ASSUMPTIONS = ['tolerance at least 0.5 degrees',
               'windows and members within 1e-9 of a tie or of the tolerance '
               'may be resolved either way']
REQUIRE = {'verdict:average': 3000, 'verdict:edge': 500, 'verdict:uniform': 10,
           'verdict:tolerance': 3000, 'verdict:sign': 10, 'smoothed': 500,
           'members_excluded': 500, 'too_small': 2, 'refiltered': 10,
           'verdict:spread': 3000}

# windows of 3 x 3 points that have the point on their rim: row and column
# offset of their first point
WINDOWS = [(r, c) for r in (-2, -1, 0) for c in (-2, -1, 0)
           if (r, c) != (-1, -1)]


def coefs(o):
    return np.array([[q.quat_coef for q in row] for row in o])


def judge(ctx, q0, q1, tol_deg):
    """One filter pass from q0 to q1 (h, w, 4)."""
    h, w = q0.shape[:2]
    ctx.close(np.linalg.norm(q1, axis=-1), np.ones((h, w)), 'unit', atol=1e-9)
    same = np.abs(np.sum(q0 * q1, -1))
    edge = np.ones((h, w), bool)
    edge[2:h - 2, 2:w - 2] = False
    ctx.close(same[edge], np.ones(edge.sum()), 'edge', atol=1e-12)
    tol = np.cos(np.deg2rad(tol_deg) / 2)
    for y in range(2, h - 2):
        for x in range(2, w - 2):
            ref = q0[y, x]
            got = q1[y, x]
            best, cands = -1, []
            ambiguous = False
            for r, c in WINDOWS:
                win = q0[y + r:y + r + 3, x + c:x + c + 3].reshape(9, 4)
                d = win @ ref
                ambiguous |= bool(np.any(np.abs(np.abs(d) - tol) < 1e-9))
                use = np.abs(d) > tol
                ctx.observe('members_excluded', (~use).sum())
                m = np.abs(d[use]).mean()
                av = (win[use] * np.sign(d[use])[:, None]).sum(0)
                cands.append((m, av / np.linalg.norm(av), np.abs(d[use])))
            if ambiguous:
                ctx.observe('ambiguous')
                continue
            best = max(c[0] for c in cands)
            ok = [c for c in cands if c[0] > best - 1e-12]
            fit = max(abs(got @ c[1]) for c in ok)
            ctx.check(fit > 1 - 1e-12, 'average', point=(x, y), got=got,
                      want=ok[0][1], tol=tol_deg)
            ctx.check(abs(got @ ref) > tol, 'tolerance', point=(x, y))
            # no further from the point than the furthest member used
            ctx.check(abs(got @ ref) > min(c[2].min() for c in ok) - 1e-12,
                      'spread', point=(x, y))
            ctx.observe('smoothed', abs(got @ ref) < 1 - 1e-9)


def flip(o, rng):
    new = np.empty(o.shape, dtype=object)
    for idx in np.ndindex(o.shape):
        q = Quat(np.array(o[idx].quat_coef, float))
        if rng.random() < .5:
            q.quat_coef = -np.asarray(q.quat_coef)
        new[idx] = q
    return new


def s_filter(ctx, rng, i):
    shape = None
    if i % 8 == 0:
        shape = (int(rng.integers(1, 6)), int(rng.integers(1, 6)))
    elif i % 24 == 13:
        n = int(rng.integers(258, 400))
        shape = (n, 6) if rng.integers(2) else (6, n)
        ctx.observe('long_maps')
    spec = build.ebsd_spec(rng, shape=shape, max_dim=16,
                           noise=float(rng.choice([0., .5, 2., 6.])))
    m = build.ebsd_map(spec)
    if rng.random() < .5:
        m.data.generate('orientation')
    q = coefs(m.data.orientation)
    ctx.observe('too_small', min(spec.shape) < 5)
    tol = float(rng.choice([.5, 2., 5., 5., 10., 30.]))
    ctx.describe(distinct=[spec.shape, spec.kind, spec.noise, tol, i]
                 if min(spec.shape) >= 5 else None, shape=spec.shape,
                 kind=spec.kind, noise=spec.noise, tol=tol)
    euler = np.array(m.data.euler_angle)
    for k in range(int(rng.integers(1, 3))):
        out = m.filter_data(misori_tol=tol) if rng.random() < .8 or tol != 5. \
            else m.filter_data()
        new = coefs(m.data.orientation)
        ctx.equal(coefs(out), new, 'stored')
        judge(ctx, q, new, tol)
        ctx.observe('refiltered', k)
        q = new
    ctx.equal(m.data.euler_angle, euler, 'loaded_data_kept')


def s_sign(ctx, rng, i):
    """The sign of the quaternions does not matter."""
    spec = build.ebsd_spec(rng, shape=(9, 8), noise=float(rng.choice([1., 3.])))
    m1, m2 = build.ebsd_map(spec), build.ebsd_map(spec)
    tol = float(rng.choice([3., 5., 10.]))
    ctx.describe(distinct=[spec.kind, spec.noise, tol, i], kind=spec.kind,
                 tol=tol)
    q0 = coefs(m1.data.orientation)
    m2.data.orientation = flip(m1.data.orientation, rng)
    a = coefs(m1.filter_data(tol))
    judge(ctx, q0, a, tol)
    b = coefs(m2.filter_data(tol))
    ctx.close(np.abs(np.sum(a * b, -1)), np.ones(spec.shape), 'sign',
              atol=1e-12)


def s_uniform(ctx, rng, i):
    """Uniform cells, sharply separated, are left exactly as they are."""
    spec = build.ebsd_spec(rng, max_dim=16, noise=0., nonindexed='none')
    m = build.ebsd_map(spec)
    q = coefs(m.data.orientation)
    cells = [q[spec.labels == k][0] for k in np.unique(spec.labels)]
    gap = max([abs(a @ b) for n, a in enumerate(cells) for b in cells[:n]],
              default=0.)
    tol = min(5., .9 * np.rad2deg(2 * np.arccos(min(1., gap))))
    ctx.describe(distinct=[spec.shape, spec.kind, i], shape=spec.shape,
                 kind=spec.kind, tol=tol)
    if tol < .3:
        return
    out = coefs(m.filter_data(tol))
    ctx.close(np.abs(np.sum(q * out, -1)), np.ones(spec.shape), 'uniform',
              atol=1e-12)
    m.data.generate('grains', min_grain_size=1)


STREAMS = [Stream('filter', 110, 1500, s_filter),
           Stream('sign', 20, 600, s_sign),
           Stream('uniform', 40, 600, s_uniform)]
