"""C01: every orientation representation describes one and the same rotation."""
import numpy as np

from vt import ref
from vt.core import Stream
from defdap.quat import Quat

PROPERTY = 'C01'
RULE = ('random and degenerate Euler angles / axis-angles / unit quaternions '
        '(hostile: phi in {0, pi}, multiples of pi/2, tiny, negative, > 2 pi, '
        'southern hemisphere); non-trivial: rotation angle > 1e-6; distinct '
        'by the rounded inputs')
ASSUMPTIONS = ['double precision; tolerance 1e-9 (1e-7 through Euler angles '
               'near the phi = 0 or pi singularity)']
REQUIRE = {'verdict:euler_matrix': 200, 'verdict:product': 100,
           'verdict:batch_create': 50, 'verdict:batch_multiply': 50,
           'southern': 20, 'degenerate_euler': 50,
           'verdict:component_euler': 200, 'exact_zeros': 300}

SPECIAL = np.array([0, np.pi / 6, np.pi / 4, np.pi / 3, np.pi / 2,
                    2 * np.pi / 3, np.pi, 1.5 * np.pi, 2 * np.pi])


def gen_eulers(rng, i):
    k = i % 5
    if k == 0:
        e = ref.random_eulers(rng)
    elif k == 1:
        e = rng.choice(SPECIAL, 3)
        e[1] = rng.choice(SPECIAL[:7])
    elif k == 2:
        e = ref.random_eulers(rng)
        e[1] = rng.choice([0., np.pi, 1e-9, 1e-5, np.pi - 1e-6, 1e-3])
    elif k == 3:
        e = rng.uniform(-4 * np.pi, 4 * np.pi, 3)
    else:
        e = rng.choice(SPECIAL, 3) + rng.normal(size=3) * 1e-7
        e[1] = np.clip(e[1], 0, np.pi)
    return e


def rand_unit(rng):
    v = rng.normal(size=3)
    return v / np.linalg.norm(v)


def mat_by_vectors(q):
    return np.array([q.transform_vector(v) for v in np.eye(3)]).T


def s_euler(ctx, rng, i):
    e = gen_eulers(rng, i)
    g = ref.bunge(*e)
    ang = float(ref.angle_from_cos_half(ref.cos_half(g, np.eye(3))))
    ctx.describe(distinct=np.round(e, 9).tolist() if ang > 1e-6 else None,
                 euler=e.tolist())
    q = Quat.from_euler_angles(*e)
    if abs(np.sin(e[1])) < 1e-4:
        ctx.observe('degenerate_euler')
    ctx.close(q.norm(), 1., 'unit_norm')
    ctx.check(q[0] >= 0, 'northern', q=list(q.quat_coef))
    ctx.close(q.rot_matrix(), g, 'euler_matrix')
    ctx.close(mat_by_vectors(q), g, 'euler_vector')
    e2 = q.euler_angles()
    ctx.check(np.all(np.isfinite(e2)), 'euler_finite', euler=e2)
    ctx.check(0 <= e2[1] <= np.pi and np.all(e2 >= 0) and
              np.all(e2 <= 2 * np.pi), 'euler_range', euler=e2)
    ctx.close(ref.bunge(*e2), g, 'euler_roundtrip', atol=1e-7)
    # vector transform is linear, length preserving, any sequence type
    v = rng.normal(size=3) * 10 ** rng.uniform(-3, 3)
    for vec in (v, list(v), tuple(v)):
        ctx.close(q.transform_vector(vec), g @ v, 'vector_transform',
                  atol=1e-9, rtol=1e-9 * np.linalg.norm(v))
    ctx.close(q.conjugate.transform_vector(q.transform_vector(v)), v,
              'inverse_transform', atol=1e-9 * max(1, np.linalg.norm(v)))
    ctx.close(q.conjugate.rot_matrix(), g.T, 'conjugate_matrix')
    ident = (q * q.conjugate).quat_coef
    ctx.close(ident, [1, 0, 0, 0], 'inverse_product')


def s_axis(ctx, rng, i):
    ax = [rand_unit(rng), rng.integers(-3, 4, 3).astype(float),
          rng.normal(size=3) * 10 ** rng.uniform(-4, 3)][i % 3]
    if not np.any(ax):
        ax = np.array([0, 0, 1.])
    th = rng.choice([rng.uniform(-2 * np.pi, 2 * np.pi), np.pi, np.pi / 2, 0.,
                     1e-6, -np.pi / 3])
    ctx.describe(distinct=[np.round(ax, 9).tolist(), round(float(th), 9)]
                 if abs(th) > 1e-6 else None, axis=ax, angle=th)
    keep = ax.copy()
    if i % 2:
        ax = ax.tolist()
    q = Quat.from_axis_angle(ax, th)
    ctx.equal(np.array(ax), keep, 'axis_not_mutated')
    g = ref.rodrigues(keep, th).T
    ctx.close(q.rot_matrix(), g, 'axis_angle_matrix')
    ctx.close(mat_by_vectors(q), g, 'axis_angle_vector')
    # the axis is fixed
    ctx.close(q.transform_vector(keep), keep, 'axis_fixed',
              atol=1e-9 * np.linalg.norm(keep))


PATTERNS = [[(k >> j) & 1 for j in range(4)] for k in range(1, 16)]


def s_components(ctx, rng, i):
    """Quaternions given by components, some of them exactly zero."""
    pat = PATTERNS[i % 15]
    c = rng.normal(size=4)
    if i % 4 == 1:
        c = rng.choice([-1., 1.], 4)
    elif i % 4 == 2:
        c = c * 10. ** rng.integers(-9, 1, 4)
    c = c * pat
    c = c / np.linalg.norm(c)
    ctx.describe(distinct=[pat, np.round(c, 12).tolist()], components=c)
    ctx.observe('exact_zeros', 4 - sum(pat))
    q = [Quat(c), Quat(*c), Quat(c.tolist())][i % 3]
    g = ref.quat_to_mat(c)
    ctx.check(q[0] >= 0, 'northern', q=list(q.quat_coef))
    ctx.close(q.rot_matrix(), g, 'component_matrix')
    ctx.close(mat_by_vectors(q), g, 'component_vector')
    e = q.euler_angles()
    ctx.check(np.all(np.isfinite(e)) and 0 <= e[1] <= np.pi and
              np.all(e >= 0) and np.all(e <= 2 * np.pi), 'component_range',
              euler=e, q=c)
    ctx.close(ref.bunge(*e), g, 'component_euler', atol=1e-7, q=c)
    ctx.close(Quat.from_euler_angles(*e).rot_matrix(), g,
              'component_roundtrip', atol=1e-7, q=c)
    ctx.close(q.conjugate.rot_matrix(), g.T, 'component_conjugate')
    # in the southern hemisphere when asked, still the same rotation
    s = Quat(-q.quat_coef, allow_southern=True)
    ctx.close(s.quat_coef, -q.quat_coef, 'southern_kept')
    ctx.close(s.rot_matrix(), g, 'southern_matrix')
    ctx.close(ref.bunge(*s.euler_angles()), g, 'southern_euler', atol=1e-7)


def s_product(ctx, rng, i):
    a, b, c = ref.rand_quat(rng, 3)
    if i % 4 == 0:
        b = a * np.array([1, -1, -1, -1])
    if i % 7 == 0:
        a = np.eye(4)[rng.integers(4)]
    qa, qb, qc = Quat(a), Quat(*b), Quat(list(c))
    ctx.describe(distinct=np.round([a, b, c], 9).tolist(), a=a, b=b, c=c)
    A, B, C = (ref.quat_to_mat(x) for x in (a, b, c))
    p = qa * qb
    ctx.close(p.rot_matrix(), A @ B, 'product')
    ctx.check(p[0] >= 0, 'product_northern')
    ctx.close((p * qc).rot_matrix(), (qa * (qb * qc)).rot_matrix(),
              'associative')
    ctx.close(p.transform_vector([1, 2, 3]),
              qa.transform_vector(qb.transform_vector([1., 2, 3])),
              'composition')
    ctx.close(p.conjugate.rot_matrix(),
              (qb.conjugate * qa.conjugate).rot_matrix(), 'anti_automorphism')
    ctx.close(qa.dot(qb), np.dot(qa.quat_coef, qb.quat_coef), 'dot')
    ctx.close(qa.dot(qb), qb.dot(qa), 'dot_symmetric')
    # q and -q are one rotation and construct the same object
    neg = Quat(-a)
    if a[0] != 0:
        ctx.check(neg == qa and hash(neg) == hash(qa), 'sign_identified')
    # equality is componentwise and the hash agrees
    twin = Quat(qa.quat_coef.copy())
    ctx.check(twin == qa and hash(twin) == hash(qa), 'eq_hash')
    ctx.check(not (qa == qb) or np.array_equal(qa.quat_coef, qb.quat_coef),
              'eq_sound')
    near = Quat(qa.quat_coef * (1 + rng.choice([0, 1e-9, 1e-5])))
    ctx.check(not (qa == near) or hash(qa) == hash(near), 'eq_implies_hash')
    # operands are not modified
    ctx.close(np.abs(qa.quat_coef), np.abs(a), 'operand_kept')
    # sums are those of the components, in place or not
    p = qa + qb
    t = qa.quat_coef + qb.quat_coef
    ctx.close(p.quat_coef, t if t[0] >= 0 else -t, 'sum')
    q, given = None, [np.array(a), list(a), tuple(a)][i % 3]
    q = Quat(given)
    r = q
    q += qb
    ctx.check(q is r, 'sum_in_place')
    ctx.close(q.quat_coef, t, 'sum_in_place')
    q.normalise()
    if np.linalg.norm(t) > 1e-3:
        ctx.close(q.quat_coef, t / np.linalg.norm(t), 'sum_in_place')
    for k in range(4):
        ctx.check(q[k] == q.quat_coef[k], 'component_access')
        q[k] = k + .5
    ctx.equal(q.quat_coef, [.5, 1.5, 2.5, 3.5], 'component_access')
    ctx.equal(np.array(given), a, 'argument_kept')
    ctx.close(qb.quat_coef, b if b[0] >= 0 else -b, 'operand_kept')
    # components given as whole numbers
    w = np.eye(4, dtype=int)[rng.integers(4)] * int(rng.choice([1, -1]))
    n = [Quat(w), Quat(*w), Quat(*w.tolist())][i % 3]
    ctx.close((n * qa).rot_matrix(), ref.quat_to_mat(w.astype(float)) @ A,
              'whole_numbers')
    n += qa
    ctx.close(n.quat_coef, np.where(w[w != 0] < 0, -w, w) * (
        1 if w[0] or w[w != 0] > 0 else -1) + qa.quat_coef, 'whole_numbers')
    for wrong in (1., None):
        for bad in ((qa.quat_coef[:3],), (1., 0., 0.), (), ([1.] * 5,)):
            with ctx.raises(TypeError, 'components_refused'):
                Quat(*bad)
        for bad in (1., 'x', [1., 2.], np.zeros((3, 3))):
            with ctx.raises(TypeError, 'vector_refused'):
                qa.transform_vector(bad)
        with ctx.raises(TypeError, 'operand_refused'):
            [lambda: qa + wrong, lambda: qa * wrong,
             lambda: qa.dot(wrong)][i % 3]()
    # normalise
    s = rng.uniform(0.01, 100)
    q = Quat(a * s)
    ctx.close(q.norm(), s, 'norm', rtol=1e-12)
    ctx.close((q * qb).norm(), s, 'norm_multiplicative', rtol=1e-9)
    q.normalise()
    ctx.close(q.quat_coef, qa.quat_coef, 'normalise')
    q = Quat(a * (1 + rng.choice([-1, 1]) * 10. ** -rng.integers(1, 8)))
    q.normalise()
    ctx.close(q.quat_coef, qa.quat_coef, 'normalise', atol=1e-12)


def s_southern(ctx, rng, i):
    a = ref.rand_quat(rng)
    a[0] = -abs(a[0])
    ctx.describe(distinct=np.round(a, 9).tolist(), a=a)
    q = Quat(a, allow_southern=True)
    ctx.observe('southern')
    ctx.equal(q.quat_coef, a, 'southern_kept')
    g = ref.quat_to_mat(a)
    ctx.close(q.rot_matrix(), g, 'southern_matrix')
    ctx.close(mat_by_vectors(q), g, 'southern_vector')
    ctx.close(ref.bunge(*q.euler_angles()), g, 'southern_euler', atol=1e-7)
    ctx.close(q.conjugate.rot_matrix(), g.T, 'southern_conjugate')


def s_batch(ctx, rng, i):
    shape = [(int(rng.integers(1, 40)),),
             (int(rng.integers(1, 8)), int(rng.integers(1, 8))),
             (1, 1), (2, 3, 2)][i % 4]
    e = ref.random_eulers(rng, shape)
    if i % 3 == 0:
        e[1] = rng.choice([0, np.pi, np.pi / 2], shape)
    if i % 5 == 0:
        e = rng.uniform(-7, 7, (3,) + shape)
    if i % 7 == 3:                      # angles given as whole numbers
        e = rng.integers(-6, 7, (3,) + shape)
        ctx.observe('whole_angles')
    ctx.describe(distinct=[shape, np.round(e, 6).ravel()[:6].tolist()],
                 shape=shape)
    keep = e.copy()
    quats = Quat.create_many_quats(e)
    ctx.equal(e, keep, 'batch_input_kept')
    ctx.check(quats.shape == shape, 'batch_shape', got=quats.shape)
    g = ref.bunge_many(e)
    for idx in np.ndindex(*shape):
        ctx.close(quats[idx].rot_matrix(), g[idx], 'batch_create')
        ctx.close(quats[idx].quat_coef,
                  Quat.from_euler_angles(*e[(slice(None),) + idx]).quat_coef
                  if abs(quats[idx][0]) > 1e-9 else quats[idx].quat_coef,
                  'batch_equals_scalar')
        ctx.check(quats[idx][0] >= 0, 'batch_northern')
    r = Quat(ref.rand_quat(rng))
    flat = quats.flatten()
    prod = Quat.multiply_many_quats(flat if i % 2 else list(flat), r)
    ctx.check(len(prod) == flat.size, 'batch_multiply_len')
    for a, p in zip(flat, prod):
        ctx.close(p.rot_matrix(), a.rot_matrix() @ r.rot_matrix(),
                  'batch_multiply')
    comps = Quat.extract_quat_comps(quats)
    ctx.check(comps.shape == (4,) + shape, 'extract_shape')
    for idx in np.ndindex(*shape):
        ctx.equal(comps[(slice(None),) + idx], quats[idx].quat_coef,
                  'extract')


def s_large(ctx, rng, i):
    """Arrays far larger than a block or a counter."""
    n = [70000, 12345, 40000][i % 3]
    shape = [(n,), (n // 5, 5), (3, n // 3)][i % 3]
    e = ref.random_eulers(rng, shape)
    ctx.describe(distinct=[shape, np.round(e.ravel()[:6], 6).tolist()],
                 shape=shape)
    ctx.observe('large_arrays')
    quats = Quat.create_many_quats(e)
    ctx.check(quats.shape == shape, 'batch_shape', got=quats.shape)
    comps = Quat.extract_quat_comps(quats)
    g = ref.bunge_many(e).reshape(-1, 3, 3)
    flat = comps.reshape(4, -1)
    ctx.close(np.abs(ref.quat_to_mat(flat.T) - g).max(), 0, 'large_create')
    ctx.check(flat[0].min() >= 0, 'batch_northern')
    r = Quat(ref.rand_quat(rng))
    prod = Quat.multiply_many_quats(list(quats.ravel()), r)
    ctx.check(len(prod) == flat.shape[1], 'batch_multiply_len')
    got = ref.quat_to_mat(np.array([p.quat_coef for p in prod]))
    ctx.close(np.abs(got - g @ r.rot_matrix()).max(), 0, 'large_multiply')


STREAMS = [Stream('components', 240, 20000, s_components),
           
    Stream('euler', 500, 12000, s_euler),
    Stream('axis', 200, 5000, s_axis),
    Stream('product', 300, 8000, s_product),
    Stream('southern', 60, 2000, s_southern),
    Stream('batch', 80, 2000, s_batch),
    Stream('large', 3, 30, s_large),
]
