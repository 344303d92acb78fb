"""C03: the average orientation is the centre of its cluster."""
import numpy as np

from vt import ref, build
from vt.core import Stream
from defdap.quat import Quat

PROPERTY = 'C03'
RULE = ('clusters of 1..60 orientations within a spread of up to 8 degrees '
        'about a random or hostile centre (half turns: quaternion real part '
        'near 0), each point replaced by a random symmetric equivalent, '
        'shuffled; also the reference orientation of grains in maps; '
        'non-trivial: more than one point; distinct by the cluster')
ASSUMPTIONS = ['first-order oracle: exp(mean rotation vector) about the '
               'centre, allowed error 0.05 spread^2 + 1e-7 rad']
REQUIRE = {'verdict:average': 300, 'verdict:grain_average': 100,
           'half_turn_centres': 40}
SYMS = ['cubic', 'hexagonal']


def cluster(rng, i, sym, n=None):
    n = n or int(rng.choice([1, 2, 3, 10, 60]))
    k = i % 4
    if k == 0:
        c = ref.bunge(*ref.random_eulers(rng))
        half = False
    elif k == 1:              # half turn about a random axis: w = 0
        c = ref.rodrigues(rng.normal(size=3), np.pi)
        half = True
    elif k == 2:              # special
        c = ref.bunge(*rng.choice([0, np.pi / 2, np.pi], 3))
        half = False
    else:                     # an equivalent has w = 0
        c = ref.rodrigues(rng.normal(size=3), np.pi)
        ops = ref.SYM[sym]
        c = ops[rng.integers(len(ops))] @ c
        half = True
    spread = np.deg2rad(rng.choice([0., 0.2, 2., 8.]))
    r = rng.normal(size=(n, 3))
    r *= (spread * rng.random(n) / np.linalg.norm(r, axis=1))[:, None]
    g = np.array([(ref.rodrigues(v, np.linalg.norm(v)) if np.any(v) else
                   np.eye(3)) @ c for v in r])
    return c, spread, r, g, half


def expected(c, r):
    m = r.mean(axis=0)
    a = np.linalg.norm(m)
    return (ref.rodrigues(m, a) if a > 0 else np.eye(3)) @ c


def s_cluster(ctx, rng, i):
    sym = SYMS[i % 2]
    c, spread, r, g, half = cluster(rng, i // 2, sym)
    n = len(g)
    ops = ref.SYM[sym]
    ctx.describe(distinct=[sym, np.round(g[0], 6).tolist(), n, spread]
                 if n > 1 else None, sym=sym, n=n, spread=spread,
                 centre=c, half_turn=half)
    if half:
        ctx.observe('half_turn_centres')
    mode = i // 8 % 3
    ge = g.copy()
    if mode:
        ge = np.array([ops[rng.integers(len(ops))] @ x for x in g])
    quats = Quat.create_many_quats(ref.mat_to_eulers(ge))
    want = expected(c, r)
    tol = 0.05 * spread ** 2 + 1e-7
    for rep in range(3):
        qs = quats
        if rep == 1:
            qs = quats[rng.permutation(n)]
        elif rep == 2:
            qs = np.empty(n, dtype=object)
            for k in range(n):
                qs[k] = Quat(quats[k].quat_coef * rng.choice([1, -1]),
                             allow_southern=True)
        eq = Quat.calc_sym_eqvs(qs, sym)
        keep = eq.copy()
        av = Quat.calc_average_ori(eq)
        ctx.equal(eq, keep, 'input_kept')
        ctx.close(av.norm(), 1, 'unit')
        ctx.check(np.all(np.isfinite(av.quat_coef)), 'finite')
        a = float(ref.mis_angle(av.rot_matrix(), want, sym))
        ctx.record_max('angle_to_oracle_over_tol', a / tol)
        ctx.check(a <= tol, 'average', angle=a, tol=tol, rep=rep)
        far = float(ref.mis_angle(av.rot_matrix(), g, sym).max())
        ctx.check(far <= 2 * spread + 1e-7, 'within_spread', far=far)


def s_grain(ctx, rng, i):
    sym = SYMS[i % 2]
    shape = (int(rng.integers(4, 14)), int(rng.integers(8, 20)))
    n_cells = 2
    lab = (np.indices(shape)[1] >= shape[1] // 2).astype(int)
    s = build.Spec()
    s.shape = shape
    s.labels = lab
    s.phases = [build.cubic_phase() if sym == 'cubic' else build.hex_phase()]
    s.phase = np.ones(shape, int)
    e = np.empty((3,) + shape)
    want = {}
    ops = ref.SYM[sym]
    for cell in range(n_cells):
        pts = lab == cell
        c, spread, r, g, half = cluster(rng, i // 2 + cell, sym,
                                        n=int(pts.sum()))
        spread = min(spread, np.deg2rad(2))
        r = r * (spread / max(np.linalg.norm(r, axis=1).max(), 1e-12)
                 if np.any(r) else 1)
        if cell == 1:          # make sure of a boundary
            c = ref.rodrigues(rng.normal(size=3), np.deg2rad(25)) @ want[0][0]
        g = np.array([(ref.rodrigues(v, np.linalg.norm(v)) if np.any(v)
                       else np.eye(3)) @ c for v in r])
        if i // 4 % 2:
            g = np.array([ops[rng.integers(len(ops))] @ x for x in g])
        e[:, pts] = ref.mat_to_eulers(g)
        want[cell] = (c, spread, expected(c, r))
    s.euler = e
    s.bc = np.zeros(shape, 'uint8')
    s.step = 1.
    m = build.ebsd_map(s)
    ctx.describe(distinct=[sym, shape, np.round(e[:, 0, 0], 6).tolist()],
                 sym=sym, shape=shape)
    m.data.generate('grains', min_grain_size=1)
    ctx.check(len(m.grains) == 2, 'two_grains', n=len(m.grains))
    if i % 3 == 0:
        if i % 2:
            # a reference orientation set before is replaced
            for gr in m.grains:
                gr.ref_ori = Quat.from_euler_angles(*ref.random_eulers(rng))
            ctx.observe('recomputed')
        m.calc_grain_av_oris()
    elif i % 3 == 1:
        m.calc_grain_mis_ori()
    for gr in m.grains:
        x, y = gr.data.point[0]
        c, spread, w = want[lab[y, x]]
        if i % 3 == 2:
            gr.calc_average_ori()
        q = gr.ref_ori
        tol = 0.05 * spread ** 2 + 1e-7
        a = float(ref.mis_angle(q.rot_matrix(), w, sym))
        ctx.check(a <= tol, 'grain_average', angle=a, tol=tol)
        ctx.close(q.norm(), 1, 'grain_unit')


STREAMS = [
    Stream('cluster', 240, 6000, s_cluster),
    Stream('grain', 80, 1200, s_grain),
]
