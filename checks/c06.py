"""C06: crystal index conversions agree with the lattice geometry."""
import itertools

import numpy as np

from vt import ref
from vt.core import Stream
from defdap import defaults, crystal_utils as cu
from defdap.crystal import crystalStructures

PROPERTY = 'C06'
RULE = ('lattice parameters (cubic, tetragonal, hexagonal, triclinic) x '
        'convention; integer indices up to 12 (a few up to 400) as tuples, '
        'lists and arrays; non-integer and wrong-length inputs; distinct by '
        'inputs')
ASSUMPTIONS = ["'hkl' orthonormalisation is only defined for a = b, alpha = "
               "beta = 90 degrees lattices", 'Miller-Bravais inputs satisfy '
               'h + k + i = 0', 'tolerance 1e-9']
REQUIRE = {'verdict:basis': 60, 'verdict:dual': 60, 'verdict:roundtrip': 200,
           'verdict:projected': 100, 'verdict:equivalent_set': 60,
           'verdict:refused': 60, 'verdict:reduced': 60}


class Convention:
    def __init__(self, name):
        self.name = name

    def __enter__(self):
        self.old = defaults['crystal_ortho_conv']
        defaults['crystal_ortho_conv'] = self.name

    def __exit__(self, *a):
        defaults['crystal_ortho_conv'] = self.old


def s_basis(ctx, rng, i):
    conv = ['tsl', 'hkl', 'oi', 'TSL', 'HKL'][i % 5]
    kind = i // 5 % 4
    r = lambda: float(rng.uniform(0.5, 12))
    if kind == 0:
        a = r()
        p = (a, a, a, np.pi / 2, np.pi / 2, np.pi / 2)
    elif kind == 1:
        a = r()
        p = (a, a, r(), np.pi / 2, np.pi / 2, np.pi / 2)
    elif kind == 2 or conv.lower() != 'tsl':
        a = r()
        gamma = 2 * np.pi / 3
        if kind == 3:
            gamma = np.deg2rad(rng.uniform(55, 125))
        p = (a, a, r(), np.pi / 2, np.pi / 2, gamma)
    else:
        while True:
            ang = np.deg2rad(rng.uniform(55, 125, 3))
            c = np.cos(ang)
            if 1 + 2 * c.prod() - (c ** 2).sum() > 0.05:
                break
        if i // 20 % 2:
            # nearly right angles
            ang = np.pi / 2 + 10. ** rng.uniform(-6, -2, 3) * rng.choice(
                [-1, 1], 3)
        p = (r(), r(), r(), *ang)
    ctx.describe(distinct=[conv, np.round(p, 9).tolist()], conv=conv, p=p)
    if i % 2:
        with Convention(conv):
            l = cu.create_l_matrix(*p)
    else:
        l = cu.create_l_matrix(*p, convention=conv)
    a, b, c = l.T
    for v, n in ((a, p[0]), (b, p[1]), (c, p[2])):
        ctx.close(np.linalg.norm(v), n, 'basis', atol=1e-9)
    for u, v, ang in ((b, c, p[3]), (a, c, p[4]), (a, b, p[5])):
        ctx.close(u @ v, np.linalg.norm(u) * np.linalg.norm(v) * np.cos(ang),
                  'basis', atol=1e-8)
    ctx.check(np.linalg.det(l) > 0, 'right_handed', l=l)
    if conv.lower() == 'tsl':
        ctx.close(a, [p[0], 0, 0], 'x_along_a1', atol=1e-9)
    else:
        ctx.close(b, [0, p[1], 0], 'y_along_a2', atol=1e-9)
    q = cu.create_q_matrix(l)
    ctx.close(q.T @ l, np.eye(3), 'dual', atol=1e-9)


def mb(rng, top=6, direction=False):
    while True:
        h, k, l = rng.integers(-top, top + 1, 3)
        if h or k or l:
            return (int(h), int(k), int(-h - k), int(l))


def as_type(rng, v):
    return [tuple, list, np.array][rng.integers(3)](v)


def s_convert(ctx, rng, i):
    top = 400 if i % 10 == 9 else 12
    v = mb(rng, top)
    m = tuple(int(x) for x in rng.integers(-top, top + 1, 3))
    ctx.describe(distinct=[v, m], mb=v, m=m)
    # planes
    out = cu.convert_idc('mb', plane=as_type(rng, v))
    ctx.equal(out, (v[0], v[1], v[3]), 'plane_to_m')
    ctx.equal(cu.convert_idc('m', plane=out), v, 'roundtrip')
    out = cu.convert_idc('m', plane=as_type(rng, m))
    ctx.equal(out, (m[0], m[1], -m[0] - m[1], m[2]), 'plane_to_mb')
    ctx.equal(cu.convert_idc('MB', plane=out), m, 'roundtrip')
    # directions
    arg = as_type(rng, v)
    out = cu.convert_idc('mb', dir=arg)
    ctx.equal(tuple(arg), v, 'input_kept')
    ctx.equal(out, (2 * v[0] + v[1], v[0] + 2 * v[1], v[3]), 'dir_to_m')
    ctx.close(cu.convert_idc('m', dir=out), v, 'roundtrip', atol=1e-9)
    arg = as_type(rng, m)
    out = cu.convert_idc('m', dir=arg)
    ctx.close(out, ((2 * m[0] - m[1]) / 3, (2 * m[1] - m[0]) / 3,
                    -(m[0] + m[1]) / 3, m[2]), 'dir_to_mb', atol=1e-9)
    ctx.close(cu.convert_idc('MB', dir=out), m, 'roundtrip', atol=1e-9)
    # lattice consistency in both conventions
    ca = float(rng.uniform(.5, 3))
    for conv in ('hkl', 'tsl'):
        with Convention(conv):
            l = cu.create_l_matrix(1, 1, ca, np.pi / 2, np.pi / 2,
                                   2 * np.pi / 3)
            q = cu.create_q_matrix(l)
            d = ref.hex_dir(v, ca, conv)
            n = ref.hex_plane(v, ca, conv)
            ctx.close(l @ np.array(cu.convert_idc('mb', dir=v), float), d,
                      'projected', atol=1e-9 * top)
            got = cu.project_to_orth(ca, dir=as_type(rng, v))
            ctx.close(got, d, 'projected', atol=1e-9 * top)
            got = cu.project_to_orth(ca, plane=as_type(rng, v))
            ctx.close(got, n, 'projected', atol=1e-9 * top)
            got = cu.project_to_orth(ca, plane=m, in_type='m')
            ctx.close(got, q @ np.array(m, float), 'projected',
                      atol=1e-9 * top)
            got = cu.project_to_orth(ca, dir=m, in_type='m')
            ctx.close(got, l @ np.array(m, float), 'projected',
                      atol=1e-9 * top)
            # zone law
            w = mb(rng)
            ctx.close(cu.project_to_orth(ca, dir=w) @
                      cu.project_to_orth(ca, plane=v),
                      sum(x * y for x, y in zip(v, w)), 'zone_law',
                      atol=1e-8 * top)


def s_equiv(ctx, rng, i):
    sym = ['cubic', 'hexagonal'][i % 2]
    syms = crystalStructures[sym].symmetries
    kind = ['plane', 'dir'][i // 2 % 2]
    conv = ['hkl', 'tsl'][i // 4 % 2]
    ca = float(rng.uniform(.5, 3))
    if sym == 'cubic':
        v = tuple(int(x) for x in rng.integers(-4, 5, 3))
        if not any(v):
            v = (1, 2, 3)
        arg, kw = v, {}
    else:
        v = mb(rng, 3)
        arg, kw = v, {'c_over_a': ca}
        if i % 5 == 0:
            arg = (v[0], v[1], v[3]) if kind == 'plane' else (
                2 * v[0] + v[1], v[0] + 2 * v[1], v[3])
            kw['in_type'] = 'm'
    ctx.describe(distinct=[sym, kind, conv, v], sym=sym, kind=kind, v=v)
    with Convention(conv):
        got = cu.equavlent_indicies(sym, syms, **{kind: arg}, **kw)
    ctx.check(len(got) == len(ref.SYM[sym]), 'one_per_operator', n=len(got))
    if sym == 'cubic':
        base = np.array(v, float)
        basis = np.eye(3)
        vecs = np.array(got, float)
    else:
        f = ref.hex_plane if kind == 'plane' else ref.hex_dir
        g = np.gcd.reduce(v)
        base = f(tuple(x // g for x in v), ca, conv)
        vecs = np.array([f(x, ca, conv) for x in got])
        for x in got:
            ctx.check(len(x) == 4 and x[0] + x[1] + x[2] == 0, 'four_index',
                      got=x)
            ctx.check(np.gcd.reduce(x) == 1, 'coprime', got=x)
    want = ref.SYM[sym] @ base

    def hits(x, group):
        d = np.minimum(np.abs(group - x).max(1), np.abs(group + x).max(1))
        return d.min() < 1e-6
    ctx.check(all(hits(x, want) for x in vecs), 'equivalent_set', got=got)
    ctx.check(all(hits(x, vecs) for x in want), 'equivalent_set_all', got=got)
    for k, s in enumerate(syms):
        im = s.rot_matrix() @ base
        ctx.check(min(np.abs(im - vecs[k]).max(),
                      np.abs(im + vecs[k]).max()) < 1e-6, 'operator_order')
    ctx.check(all(x[-1] >= 0 for x in got), 'last_positive', got=got)


def s_refuse(ctx, rng, i):
    ctx.describe(distinct=['refuse', i])
    v = rng.integers(-5, 6, 3).astype(float)
    bad = v.copy()
    bad[rng.integers(3)] += rng.choice([.5, .34, -.25, .01, -.002])
    with ctx.raises(ValueError, 'refused', v=bad):
        cu.safe_int_cast(bad)
    ok = v + rng.uniform(-9e-4, 9e-4, 3)
    ctx.equal(cu.safe_int_cast(ok), v.astype(int), 'cast')
    with ctx.raises(ValueError, 'refused', v=bad):
        cu.safe_int_cast(ok + np.array([0, 2e-3, 0]) *
                         np.sign(ok - v + 1e-12))
    big = rng.integers(-1000, 1000, 3)
    ctx.equal(cu.safe_int_cast(big.astype(float)), big, 'cast')
    for kw in ({}, {'dir': (1, 0, 0), 'plane': (1, 0, 0)}):
        for f in (lambda **k: cu.convert_idc('m', **k),
                  lambda **k: cu.project_to_orth(1.6, in_type='m', **k),
                  lambda **k: cu.equavlent_indicies(
                      'cubic', crystalStructures['cubic'].symmetries, **k)):
            with ctx.raises(ValueError, 'refused', kw=kw):
                f(**kw)
    for kind in ('dir', 'plane'):
        with ctx.raises(ValueError, 'refused'):
            cu.convert_idc('m', **{kind: (1, 0, -1, 0)})
        with ctx.raises(ValueError, 'refused'):
            cu.convert_idc('mb', **{kind: (1, 0, 0)})
        with ctx.raises(ValueError, 'refused'):
            cu.convert_idc('hkl', **{kind: (1, 0, 0)})
        with ctx.raises(ValueError, 'refused'):
            cu.project_to_orth(1.6, in_type='x', **{kind: (1, 0, 0)})
    with ctx.raises(ValueError, 'refused'):
        cu.create_l_matrix(1, 1, 1, 1.5, 1.5, 1.5, convention='abc')
    with ctx.raises(ValueError, 'refused'):
        cu.str_idx(1.5)


def s_small(ctx, rng, i):
    top = [3, 12, 500][i % 3]
    v = rng.integers(-top, top + 1, int(rng.choice([3, 4])))
    if not v.any():
        v[0] = 2
    if i % 4 == 1:
        # leading zeros
        v[:int(rng.integers(1, len(v)))] = 0
        v[-1] = int(rng.choice([-3, -2, -1, 1, 2]))
    f = int(rng.integers(1, 9))
    ctx.describe(distinct=v.tolist(), v=v, f=f)
    arg = as_type(rng, [int(x) for x in v * f])
    out = cu.reduce_idc(arg)
    ctx.equal(out, v // np.gcd.reduce(v), 'reduced')
    ctx.equal(np.array(arg), v * f, 'input_kept')
    p = cu.pos_idc(as_type(rng, [int(x) for x in v]))
    first = [x for x in p if x != 0][0]
    ctx.check(first > 0, 'positive', p=p)
    ctx.check(np.array_equal(p, v) or np.array_equal(p, -v), 'positive_same')
    ctx.equal(cu.pos_idc(tuple(-x for x in v)), p, 'positive_unique')
    # label
    lab = cu.idc_to_string([int(x) for x in v], '[]')
    want = '[' + ''.join(str(abs(int(x))) if x >= 0 else
                         _bar(abs(int(x))) for x in v) + ']'
    ctx.check(lab == want, 'label', lab=lab, want=want)
    tex = cu.idc_to_string([int(x) for x in v], '()', 'tex')
    want = '(' + ''.join(str(int(x)) if x >= 0 else
                         r'$\bar{%d}$' % abs(x) for x in v) + ')'
    ctx.check(tex == want, 'label_tex', lab=tex, want=want)


def _bar(x):
    return str(x) + '\u0305'


STREAMS = [
    Stream('basis', 80, 2000, s_basis),
    Stream('convert', 100, 4000, s_convert),
    Stream('equiv', 120, 2000, s_equiv),
    Stream('refuse', 30, 500, s_refuse),
    Stream('small', 120, 4000, s_small),
]
