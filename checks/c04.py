"""C04: symmetry operators form exactly the crystal rotation group."""
import numpy as np

from vt import ref
from vt.core import Stream
from defdap.quat import Quat
from defdap.crystal import crystalStructures, Phase

PROPERTY = 'C04'
RULE = ('each structure: the whole operator list and all products; arrays of '
        'random and degenerate orientations for the equivalents; distinct by '
        'inputs')
ASSUMPTIONS = ['reference groups generated independently as closures of two '
               'rotations; tolerance 1e-7 (operators are stored to float '
               'precision)']
REQUIRE = {'verdict:group_equal': 2, 'verdict:closed': 500,
           'verdict:equivalents': 500}
SYMS = ['cubic', 'hexagonal']
TOL = 1e-7


def member(m, group):
    d = np.abs(group - m).max(axis=(1, 2))
    return int(np.argmin(d)), float(d.min())


def check_group(ctx, syms, sym):
    want = ref.SYM[sym]
    ctx.check(len(syms) == len(want), 'group_order', got=len(syms))
    mats = []
    for s in syms:
        ctx.close(s.norm(), 1, 'op_unit', atol=TOL)
        ctx.check(s[0] >= 0, 'op_northern')
        mats.append(s.rot_matrix())
    ctx.close(mats[0], np.eye(3), 'first_identity', atol=TOL)
    hit = []
    for m in mats:
        k, d = member(m, want)
        ctx.check(d < TOL, 'op_in_group', dev=d)
        hit.append(k)
    ctx.check(len(set(hit)) == len(want), 'group_equal', hit=sorted(hit))
    return mats


def s_group(ctx, rng, i):
    sym = SYMS[i % 2]
    ctx.describe(distinct=[sym, i], sym=sym)
    src = [lambda: crystalStructures[sym].symmetries,
           lambda: Quat.sym_eqv(sym),
           lambda: Phase('p', 11 if sym == 'cubic' else 9, 225 if sym == 'cubic' else 194,
                         (1., 1., 1.6, 1.5707963, 1.5707963, 2.0943951)
                         ).crystal_structure.symmetries][i // 2 % 3]
    syms = src()
    mats = check_group(ctx, syms, sym)
    for a in syms:
        for b in syms:
            k, d = member((a * b).rot_matrix(), np.array(mats))
            ctx.check(d < TOL, 'closed', dev=d)
        k, d = member(a.conjugate.rot_matrix(), np.array(mats))
        ctx.check(d < TOL, 'inverse_in_group')
    # still the same group after heavy use
    Quat.calc_sym_eqvs(np.array([syms[1], syms[2]]), sym)
    syms[1].mis_ori(syms[2], sym)
    check_group(ctx, src(), sym)
    u = Quat.sym_eqv(['triclinic', 'unknown', 'x', ''][i % 4])
    ctx.check(len(u) == 1, 'unknown_single', n=len(u))
    ctx.close(u[0].rot_matrix(), np.eye(3), 'unknown_identity')


def s_eqv(ctx, rng, i):
    sym = SYMS[i % 2]
    n = int(rng.choice([1, 2, 9]))
    e = ref.random_eulers(rng, (n,))
    if i % 3 == 0:
        e = rng.choice([0, np.pi / 4, np.pi / 2, np.pi], (3, n))
    ctx.describe(distinct=[sym, np.round(e, 6).tolist()], sym=sym, n=n)
    quats = Quat.create_many_quats(e)
    if i % 5 == 0:
        quats = list(quats)
    before = [q.quat_coef.copy() for q in quats]
    eq = Quat.calc_sym_eqvs(quats, sym)
    ctx.equal([q.quat_coef for q in quats], before, 'inputs_kept')
    syms = Quat.sym_eqv(sym)
    ctx.check(eq.shape == (len(ref.SYM[sym]), 4, n), 'eqv_shape',
              got=eq.shape)
    g = ref.bunge_many(e)
    ctx.close(eq[0].T, before, 'eqv_first', atol=1e-12)
    for k, s in enumerate(syms):
        m = ref.quat_to_mat(eq[k].T)
        ctx.close(m, s.rot_matrix() @ g, 'equivalents', atol=1e-7)
        ctx.check(np.all(eq[k, 0] >= 0), 'eqv_northern')
    ctx.close(np.linalg.norm(eq, axis=1), np.ones((len(syms), n)),
              'eqv_unit', atol=1e-7)
    none = Quat.calc_sym_eqvs(quats, 'nosuch')
    ctx.check(none.shape == (1, 4, n), 'eqv_unknown_shape', got=none.shape)
    ctx.close(none[0].T, before, 'eqv_unknown', atol=1e-12)
    if i % 4 == 0:
        e32 = Quat.calc_sym_eqvs(quats, sym, dtype=np.float32)
        ctx.check(e32.dtype == np.float32, 'eqv_dtype', got=e32.dtype)
        for k, s in enumerate(syms):
            ctx.close(ref.quat_to_mat(e32[k].T.astype(float)),
                      s.rot_matrix() @ g, 'equivalents32', atol=5e-6)


STREAMS = [
    Stream('group', 12, 60, s_group),
    Stream('eqv', 120, 3000, s_eqv),
]
