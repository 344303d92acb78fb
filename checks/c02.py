"""C02: misorientation is the smallest rotation over the crystal symmetry."""
import numpy as np

from vt import ref
from vt.core import Stream
from defdap.quat import Quat

PROPERTY = 'C02'
RULE = ('pairs of orientations: random, near each other through a symmetry '
        'operator, exactly equivalent, at the disorientation maximum, nearly '
        'half turns; single-pair and array calls; non-trivial: misorientation '
        'of the identity operator differs from the reduced one or angle > '
        '1e-6; distinct by inputs')
ASSUMPTIONS = ['double precision; half-angle cosines compared to 1e-10, '
               'angles to 1e-7']
REQUIRE = {'verdict:cos_half': 200, 'verdict:batch_cos_half': 300,
           'verdict:axis_rotation': 100, 'equivalent_pairs': 30,
           'reduced_by_symmetry': 100}
SYMS = ['cubic', 'hexagonal']


def gen_pair(rng, i, sym):
    e1 = ref.random_eulers(rng)
    g1 = ref.bunge(*e1)
    k = i % 6
    ops = ref.SYM[sym]
    if k in (0, 1):
        e2 = ref.random_eulers(rng)
    elif k == 2:                   # close through an operator
        d = ref.small_rotation(rng, np.deg2rad(rng.choice([.1, 2., 15.])))
        e2 = ref.mat_to_eulers(ops[rng.integers(len(ops))] @ d @ g1)
    elif k == 3:                   # exactly equivalent
        e2 = ref.mat_to_eulers(ops[rng.integers(len(ops))] @ g1)
    elif k == 4:                   # special misorientations
        ax = rng.choice([-1, 0, 1], 3).astype(float)
        if not ax.any():
            ax[0] = 1
        th = np.deg2rad(rng.choice([45., 60., 62.7, 30., 90., 93.8, 180.]))
        e2 = ref.mat_to_eulers(ref.rodrigues(ax, th) @ g1)
    else:
        e1 = rng.choice([0, np.pi / 4, np.pi / 2, np.pi], 3)
        e2 = rng.choice([0, np.pi / 4, np.pi / 2, np.pi], 3)
    return np.array(e1, float), np.array(e2, float)


def s_pair(ctx, rng, i):
    sym = SYMS[i % 2]
    e1, e2 = gen_pair(rng, i // 2, sym)
    q1, q2 = Quat.from_euler_angles(*e1), Quat.from_euler_angles(*e2)
    g1, g2 = ref.bunge(*e1), ref.bunge(*e2)
    want = ref.mis_cos_half(g1, g2, sym)
    ang = ref.mis_angle(g1, g2, sym)
    plain = float(ref.cos_half(g1, g2))
    ctx.describe(distinct=[sym, np.round([e1, e2], 9).tolist()]
                 if ang > 1e-6 or plain < want - 1e-6 else None,
                 sym=sym, e1=e1, e2=e2)
    keep = [q1.quat_coef.copy(), q2.quat_coef.copy()]
    c = q1.mis_ori(q2, sym)
    ctx.close(c, want, 'cos_half', atol=1e-10)
    ctx.check(-1e-12 <= c <= 1 + 1e-9, 'cos_range', c=c)
    ctx.check(ref.angle_from_cos_half(c) <= ref.MAX_MISORI[sym] + 1e-6,
              'crystal_maximum', c=c)
    if plain < want - 1e-9:
        ctx.observe('reduced_by_symmetry')
    ctx.close(q2.mis_ori(q1, sym), c, 'symmetric', atol=1e-10)
    # equivalents of either argument
    ops = ref.SYM[sym]
    for q, g, other in ((q1, g1, q2), (q2, g2, q1)):
        s = ops[rng.integers(len(ops))]
        qe = Quat.from_euler_angles(*ref.mat_to_eulers(s @ g))
        ctx.close(qe.mis_ori(other, sym), c, 'equivalent_invariant',
                  atol=1e-8)
        z = qe.mis_ori(q, sym)
        ctx.check(abs(z - 1) < 1e-8, 'equivalent_zero', c=z)
        ctx.observe('equivalent_pairs')
    # same sample frame change for both
    r = Quat(ref.rand_quat(rng))
    ctx.close((q1 * r).mis_ori(q2 * r, sym), c, 'frame_invariant', atol=1e-9)
    # the equivalent that attains it
    qm = q1.mis_ori(q2, sym, return_quat=1)
    c2, qm2 = q1.mis_ori(q2, sym, return_quat=2)
    ctx.close(c2, c, 'both_value', atol=0)
    for q in (qm, qm2):
        m = q.rot_matrix()
        ctx.check(min(np.abs(s @ g2 - m).max() for s in ops) < 1e-8,
                  'returned_is_equivalent')
        ctx.close(abs(np.dot(q1.quat_coef, q.quat_coef)), c,
                  'returned_attains', atol=1e-10)
    ctx.equal([q1.quat_coef, q2.quat_coef], keep, 'operands_kept')
    # unknown structure: identity only
    ctx.close(q1.mis_ori(q2, 'none'), plain, 'no_symmetry', atol=2e-8)


def s_batch(ctx, rng, i):
    sym = SYMS[i % 2]
    n = int(rng.choice([1, 2, 7, 30]))
    pairs = [gen_pair(rng, int(rng.integers(6)), sym) for _ in range(n)]
    e_ref = pairs[0][0]
    es = np.array([p[1] for p in pairs]).T
    q_ref = Quat.from_euler_angles(*e_ref)
    quats = Quat.create_many_quats(es)
    ctx.describe(distinct=[sym, np.round(es, 6).tolist()], sym=sym, n=n)
    eqv = Quat.calc_sym_eqvs(quats, sym)
    mis, comps = Quat.calcMisOri(eqv, q_ref)
    ctx.check(mis.shape == (n,) and comps.shape == (4, n), 'batch_shape',
              mis=mis.shape, comps=comps.shape)
    g = ref.bunge_many(es)
    gr = ref.bunge(*e_ref)
    ctx.close(mis, ref.mis_cos_half(gr, g, sym), 'batch_cos_half', atol=1e-10)
    ctx.check(np.all(mis <= 1), 'batch_at_most_one')
    ms = ref.quat_to_mat(comps.T)
    for k in range(n):
        ctx.close(mis[k], min(1, q_ref.mis_ori(quats[k], sym)),
                  'batch_equals_pair', atol=1e-12)
        ctx.check(min(np.abs(s @ g[k] - ms[k]).max()
                      for s in ref.SYM[sym]) < 1e-8,
                  'batch_returned_is_equivalent')
        ctx.close(abs(np.dot(comps[:, k], q_ref.quat_coef)), mis[k],
                  'batch_returned_attains', atol=1e-10)


def s_large(ctx, rng, i):
    """Many orientations in one call."""
    sym = SYMS[i % 2]
    n = [3000, 20000, 66000][i % 3]
    es = ref.random_eulers(rng, (n,))
    ctx.describe(distinct=[sym, n, np.round(es[:, :2], 6).tolist()], sym=sym,
                 n=n)
    ctx.observe('large_arrays')
    q_ref = Quat.from_euler_angles(*ref.random_eulers(rng))
    eqv = Quat.calc_sym_eqvs(Quat.create_many_quats(es), sym)
    mis, comps = Quat.calcMisOri(eqv, q_ref)
    ctx.check(mis.shape == (n,) and comps.shape == (4, n), 'batch_shape',
              mis=mis.shape, comps=comps.shape)
    g = ref.bunge_many(es)
    want = np.concatenate([
        ref.mis_cos_half(q_ref.rot_matrix(), g[k:k + 5000], sym)
        for k in range(0, n, 5000)])
    ctx.close(np.abs(mis - want).max(), 0, 'large_cos_half', atol=1e-10)
    ctx.close(np.abs(np.abs(comps.T @ q_ref.quat_coef) - mis).max(), 0,
              'large_returned_attains', atol=1e-10)


def s_axis(ctx, rng, i):
    g1 = ref.bunge(*ref.random_eulers(rng))
    k = i % 6
    ang = [rng.uniform(0, np.pi - 1e-3), 0., 1e-10, 1e-4,
           np.pi - 1e-4, 10. ** rng.uniform(-7, -2)][k]
    ax = rng.normal(size=3)
    d = ref.rodrigues(ax, ang)
    q1 = Quat.from_euler_angles(*ref.mat_to_eulers(g1))
    q2 = Quat.from_euler_angles(*ref.mat_to_eulers(d @ g1))
    if k == 1:
        q2 = q1 if i % 2 else Quat(q1.quat_coef.copy())
    ctx.describe(distinct=[round(float(ang), 12), np.round(g1, 9).tolist()]
                 if ang > 1e-7 else None, angle=ang)
    v = q1.mis_ori_axis(q2)
    ctx.check(np.shape(v) == (3,) and np.all(np.isfinite(v)), 'axis_finite',
              axis=v, angle=ang)
    n = np.linalg.norm(v)
    ctx.close(n, ang, 'axis_length', atol=3e-7)
    if k == 5:
        # tiny rotations keep their relative accuracy
        ctx.close(n, ang, 'axis_small', atol=2e-13, rtol=1e-6)
    if n > 1e-6:
        ctx.close(ref.rodrigues(v, n), d, 'axis_rotation', atol=1e-6)
    ctx.close(q2.mis_ori_axis(q1), -v, 'axis_antisymmetric', atol=1e-6)


STREAMS = [
    Stream('pair', 240, 6000, s_pair),
    Stream('batch', 60, 1500, s_batch),
    Stream('large', 3, 30, s_large),
    Stream('axis', 250, 4000, s_axis),
]
