"""C13: frame transforms map homologous points and images consistently."""
import numpy as np
from scipy import ndimage

from vt import build, ref
from vt.core import Skip, Stream
from defdap.experiment import Experiment, Frame

PROPERTY = 'C13'
RULE = ('known affine, projective, quadratic and piecewise relations given '
        'only through homologous points, linked in either direction; images '
        '(nearest and linear), lines, EBSD boundaries and grain maps carried '
        'to DIC frames of any offset, rotation, uneven scale and shape; '
        'distinct by relation and shapes')
ASSUMPTIONS = [
    'homologous points determine the relation exactly',
    'points within 1e-6 of a rounding boundary are not judged for nearest '
    'neighbour images',
    'a warped boundary point lies within 1.5 points of either frame (the '
    'larger) of a boundary point of the EBSD map, and connected boundaries '
    'of more than 30 points are found again within 4 points; smaller ones '
    'may be removed by design']
REQUIRE = {'verdict:homologous': 200, 'verdict:inverse': 60,
           'verdict:refuse_unlinked': 20, 'verdict:nearest': 60,
           'verdict:linear': 60, 'verdict:lines': 40,
           'verdict:boundary_there': 60, 'verdict:boundary_found': 40,
           'verdict:warp_grain': 60, 'offset_maps': 5, 'rotated': 5,
           'uneven': 3, 'piecewise': 6, 'polynomial': 6, 'relinked': 2,
           'edge_expected': 25, 'third_order': 1, 'verdict:curved': 15,
           'verdict:extent': 20,
           'verdict:speck': 20, 'verdict:inverse_noisy': 40}


def rand_affine(rng, scale=None, big=True):
    """2x2 part and translation: frame 1 from frame 2 or so."""
    kind = rng.choice(['id', 'scale', 'uneven', 'rot', 'small_rot', 'shear',
                       'flip', 'turn'])
    s = rng.uniform(.3, 1.2) if scale is None else scale
    a = {'rot': rng.uniform(-np.pi, np.pi), 'small_rot':
         np.deg2rad(rng.uniform(-6, 6)), 'turn': np.pi / 2 *
         rng.integers(1, 4)}.get(kind, 0.)
    R = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
    A = R * (1. if kind == 'id' and scale is None else s)
    if kind == 'uneven':
        A = A @ np.diag([1., rng.choice([.4, .6, 1.6])])
    elif kind == 'shear':
        A = A @ np.array([[1, rng.uniform(-.3, .3)], [0, 1]])
    elif kind == 'flip':
        A = A @ np.diag(rng.permutation([-1., 1.]))
    return A, str(kind)


def scatter(rng, n, size=40.):
    """n points in general position."""
    for _ in range(200):
        p = rng.uniform(0, size, (n, 2))
        if n == 3:
            d = p[1:] - p[0]
            if abs(d[0, 0] * d[1, 1] - d[0, 1] * d[1, 0]) > size ** 2 / 10:
                return p
        else:
            c = np.cov(p.T)
            if np.linalg.eigvalsh(c)[0] > (size / 6) ** 2:
                return p
    return p


def apply_proj(H, p):
    q = np.c_[p, np.ones(len(p))] @ H.T
    return q[:, :2] / q[:, 2:]


def s_transform(ctx, rng, i):
    kind = ['affine', 'projective', 'polynomial', 'piecewise'][i % 4]
    e = Experiment()
    f1, f2, f3 = Frame(), Frame(), Frame()
    A, name = rand_affine(rng)
    linked_forward = bool(rng.integers(2))
    t = rng.uniform(-30, 30, 2)
    truth = lambda p: p @ A.T + t
    kw = {}
    probe = scatter(rng, 20)
    exact_inverse = True
    if kind == 'affine':
        p = scatter(rng, int(rng.integers(3, 9)))
    elif kind == 'projective':
        H = np.eye(3)
        H[:2, :2], H[:2, 2] = A, t
        H[2, :2] = rng.uniform(-1, 1, 2) * 2e-3
        truth = lambda p: apply_proj(H, p)
        p = np.array([[0, 0], [40, 0], [0, 40], [40, 40.]])
        p = np.r_[p + rng.uniform(-3, 3, p.shape), scatter(rng, int(
            rng.integers(0, 4)))] if rng.integers(2) else p
    elif kind == 'polynomial':
        ctx.observe('polynomial')
        if rng.integers(2):
            C = rng.uniform(-1, 1, (2, 3)) * 1e-3
            truth = lambda p: p @ A.T + t + np.array(
                [p[:, 0] ** 2, p[:, 0] * p[:, 1], p[:, 1] ** 2]).T @ C.T
            exact_inverse = False
        p = np.array([[0, 0], [40, 0], [0, 40], [40, 40], [20, 7], [9, 23.]])
        k = rng.integers(4)
        if k == 0:                      # third order, which has 10 terms
            kw['order'] = 3
            ctx.observe('third_order')
            C3 = rng.uniform(-1, 1, (2, 4)) * 2e-5
            quad = truth
            truth = lambda p: quad(p) + np.array(
                [p[:, 0] ** 3, p[:, 0] ** 2 * p[:, 1], p[:, 0] * p[:, 1] ** 2,
                 p[:, 1] ** 3]).T @ C3.T
            exact_inverse = False
            p = np.array([(x, y) for x in (0, 13, 27, 40) for y in
                          (0, 13, 27, 40)][:16]) + rng.uniform(-3, 3, (16, 2))
            p = p[[0, 1, 2, 3, 4, 5, 6, 8, 9, 12]]
            # both directions are fitted, with as many points as terms
            xy = p / 40
            if np.linalg.cond(np.stack([xy[:, 0] ** a * xy[:, 1] ** b
                                        for a in range(4)
                                        for b in range(4 - a)])) > 3e3:
                raise Skip
        elif k == 1 and exact_inverse:
            kw['order'] = 1
            p = scatter(rng, int(rng.integers(3, 8)))
        elif rng.integers(2):
            p = np.r_[p, scatter(rng, 4)]
            if not exact_inverse:
                p = p[:6]
    else:
        ctx.observe('piecewise')
        p = np.r_[[[-1, -1], [41, -1], [-1, 41], [41, 41.]], scatter(rng, 5)]
        kind = rng.choice(['piecewise_affine', 'piecewiseaffine'])
    q = truth(p)
    f1.set_homog_points([tuple(v) for v in p])
    f2.set_homog_points([tuple(v) for v in q])
    ctx.describe(distinct=[kind, name, np.round(q, 3).tolist()], type=kind,
                 relation=name, points=len(p))
    linked = (f1, f2) if linked_forward else (f2, f1)
    e.link_frames(*linked, {'type': str(kind), **kw})
    tol = 1e-5 if kind == 'polynomial' else 1e-6
    fw = e.get_frame_transform(f1, f2)
    bw = e.get_frame_transform(f2, f1)
    ctx.close(fw(p), q, 'homologous', atol=tol, type=kind, dir='forward')
    ctx.close(bw(q), p, 'homologous', atol=tol * 10, type=kind,
              dir='backward')
    if exact_inverse:
        inner = probe
        ctx.close(fw(inner), truth(inner), 'relation', atol=tol * 10,
                  type=kind)
        ctx.close(bw(fw(inner)), inner, 'inverse', atol=tol * 100, type=kind)
    for a, b in ((f1, f3), (f3, f2), (f1, f1)):
        with ctx.raises(ValueError, 'refuse_unlinked'):
            e.get_frame_transform(a, b)
    # points moved afterwards are used
    if kind == 'affine':
        d = rng.uniform(-5, 5, 2)
        f2.set_homog_points([tuple(v) for v in q + d])
        ctx.close(e.get_frame_transform(f1, f2)(p), q + d, 'homologous',
                  atol=tol, type=kind, dir='moved')
        # and so is another type given to the same frames
        e.link_frames(*linked, {'type': 'projective'})
        tr = e.get_frame_transform(f1, f2)
        ctx.check(type(tr).__name__ == 'ProjectiveTransform', 'other_type',
                  got=type(tr).__name__)
        e.link_frames(*linked, {'type': 'polynomial', 'order': 1})
        d2 = rng.uniform(-5, 5, 2)
        f2.set_homog_points([tuple(v) for v in q + d2])
        tr = e.get_frame_transform(f1, f2)
        ctx.close(tr(p), q + d2, 'homologous', atol=1e-5, dir='other type')
        ctx.check(type(tr).__name__ == 'PolynomialTransform', 'other_type',
                  got=type(tr).__name__)
        e.link_frames(*linked, {'type': 'affine'})
    # lines
    lines = rng.integers(0, 30, (int(rng.integers(1, 8)) if i % 16 else 2300,
                                 2, 2)) + .5
    if exact_inverse and 'piece' not in kind:
        want = fw(lines.reshape(-1, 2)).reshape(-1, 2, 2)
        f2.set_homog_points([tuple(v) for v in q])
        got = np.array(e.warp_lines([tuple(map(tuple, ln)) for ln in lines],
                                    f1, f2))
        want = truth(lines.reshape(-1, 2)).reshape(-1, 2, 2)
        ctx.check(got.shape == want.shape and
                  np.abs(got - want).max() <= .5 + 1e-4, 'lines',
                  got=got, want=want)
        ctx.close(got - np.floor(got), np.full(got.shape, .5), 'lines_half')


def s_noisy(ctx, rng, i):
    """More points than needed, not exactly related: least squares, and the
    two directions are still inverse to each other."""
    kind = ['affine', 'projective'][i % 2]
    A, name = rand_affine(rng)
    t = rng.uniform(-30, 30, 2)
    p = np.r_[[[0, 0], [40, 0], [0, 40], [40, 40.]],
              scatter(rng, int(rng.integers(3, 9)))]
    noise = rng.uniform(.05, .6)
    q = p @ A.T + t + rng.normal(0, noise, p.shape)
    e = Experiment()
    f1, f2 = Frame(), Frame()
    f1.set_homog_points([tuple(v) for v in p])
    f2.set_homog_points([tuple(v) for v in q])
    fwd = bool(rng.integers(2))
    e.link_frames(*((f1, f2) if fwd else (f2, f1)), {'type': kind})
    ctx.describe(distinct=[kind, name, np.round(q, 3).tolist()], type=kind,
                 relation=name, points=len(p), noise=noise)
    fw, bw = e.get_frame_transform(f1, f2), e.get_frame_transform(f2, f1)
    probe = rng.uniform(2, 38, (20, 2))
    ctx.close(bw(fw(probe)), probe, 'inverse_noisy', atol=1e-6, type=kind)
    # no worse than about the best fit
    X = np.c_[p, np.ones(len(p))]
    best = X @ np.linalg.lstsq(X, q, rcond=None)[0]
    r0 = np.sqrt(((best - q) ** 2).mean())
    r1 = np.sqrt(((fw(p) - q) ** 2).mean())
    ctx.record_max('residual_ratio', r1 / max(r0, noise / 2))
    ctx.check(r1 < 4 * max(r0, noise / 2), 'residual', got=r1, best=r0)


def s_image(ctx, rng, i):
    """warp_image and Map.warp_to_dic_frame against the relation itself."""
    es = tuple(int(v) for v in rng.integers(8, 30, 2))
    ds = tuple(int(v) for v in rng.integers(8, 30, 2))
    if i % 20 == 7:
        es, ds = build.long_shape(rng), build.long_shape(rng)
    A, name = rand_affine(rng)          # ebsd = A dic + t
    centre_d = np.array(ds)[::-1] / 2
    t = np.array(es)[::-1] / 2 - A @ centre_d + rng.uniform(-6, 6, 2)
    e = Experiment()
    f1, f2 = Frame(), Frame()           # source, target
    p2 = scatter(rng, 5, 20)
    f2.set_homog_points([tuple(v) for v in p2])
    f1.set_homog_points([tuple(v) for v in p2 @ A.T + t])
    e.link_frames(*((f1, f2) if rng.integers(2) else (f2, f1)),
                  {'type': str(rng.choice(['affine', 'projective']))})
    ctx.describe(distinct=[es, ds, name, np.round(t, 3).tolist()], source=es,
                 target=ds, relation=name)
    yy, xx = np.mgrid[:ds[0], :ds[1]]
    src = np.stack([xx, yy], -1) @ A.T + t          # (x, y) in source
    inside = ((src >= 0) & (src <= np.array(es)[::-1] - 1)).all(-1)
    img = rng.integers(1, 50, es).astype(float)
    got = e.warp_image(img, f1, f2, output_shape=ds, order=0,
                       preserve_range=True)
    r = np.round(src)
    sure = (np.abs(np.abs(src - r) - .5) > 1e-5).all(-1) & inside
    idx = r.astype(int)
    ctx.equal(got[sure], img[idx[..., 1][sure], idx[..., 0][sure]],
              'nearest')
    out = ((src < -1) | (src > np.array(es)[::-1])).any(-1)
    ctx.check(not np.any(got[out]), 'outside_empty')
    a, b, c = rng.normal(size=3)
    ys, xs = np.mgrid[:es[0], :es[1]]
    got = e.warp_image(a * xs + b * ys + c, f1, f2, output_shape=ds, order=1,
                       preserve_range=True)
    ctx.close(got[inside], (a * src[..., 0] + b * src[..., 1] + c)[inside],
              'linear', atol=1e-6)
    # uncropped: nothing of the source image is lost
    full = e.warp_image(np.ones(es), f1, f2, crop=False) if rng.integers(
        2) else None
    if full is not None and e.frame_relations[
            list(e.frame_relations)[0]]['type'] == 'affine':
        area = np.prod(es) / abs(np.linalg.det(A))
        per = 2 * sum(es) / min(np.linalg.svd(A)[1]) + 8
        ctx.check(abs(full.sum() - area) < per, 'uncropped', got=full.sum(),
                  want=area)


def linked(ctx, rng, scale=None, min_cells=6, ttype='affine', es=None):
    es = tuple(int(v) for v in rng.integers(20, 44, 2)) if es is None else es
    A, name = rand_affine(rng, scale)
    ds = tuple(int(v) for v in rng.integers(18, 46, 2))
    if rng.integers(3) == 0:            # DIC map well inside the EBSD map
        A, name = rand_affine(rng, rng.uniform(.65, .8))
        es = tuple(int(v) for v in rng.integers(36, 50, 2))
        ds = tuple(int(v) for v in rng.integers(20, 30, 2))
    off = rng.uniform(-8, 8, 2) if rng.integers(2) else np.zeros(2)
    t = np.array(es)[::-1] / 2 - A @ (np.array(ds)[::-1] / 2) + off
    spec = build.ebsd_spec(rng, shape=es, min_cells=min_cells, noise=0.,
                           nonindexed='none', phases=[build.cubic_phase()])
    em = build.ebsd_map(spec)
    em.data.generate('grains', min_grain_size=1)
    m = build.dic_map(ctx.scratch, build.smooth_disp(rng, ds))
    p2 = scatter(rng, 6, 30)
    build.link(m, em, p2 @ A.T + t, p2, ttype)
    corner = np.array([[0, 0], [ds[1] - 1, ds[0] - 1]]) @ A.T + t
    ctx.observe('offset_maps', np.any(corner < -2))
    ctx.observe('rotated', name in ('rot', 'turn', 'flip'))
    ctx.observe('uneven', name == 'uneven')
    return spec, em, m, A, t, name


def s_boundary(ctx, rng, i):
    ttype = ['affine', 'affine', 'affine', 'projective'][i % 4]
    spec, em, m, A, t, name = linked(ctx, rng, ttype=ttype)
    ctx.describe(distinct=[spec.shape, m.shape, name, i], ebsd=spec.shape,
                 dic=m.shape, relation=name, type=ttype)
    judge_boundary(ctx, em, m, A, t)
    if i % 4 == 0:                 # after cropping, still where it was
        h, w = m.shape
        l, tp = int(rng.integers(0, w // 3)), int(rng.integers(0, h // 3))
        m.set_crop(left=l, top=tp, right=int(rng.integers(0, 4)),
                   update_homog_points=True)
        judge_boundary(ctx, em, m, A, t + A @ [l, tp])


PARTS = [0, 0]
EDGES = {(a, b): [0, 0] for a in (0, 1) for b in (False, True)}


def finish(ctx):
    """Boundaries reaching an edge of the DIC map are drawn up to it (judged
    over all maps: single points may be lost to the thinning)."""
    ctx.observe('boundary_in_part', int(PARTS[1]))
    if PARTS[0] >= 25 and PARTS[1] > .1 * PARTS[0]:
        ctx.cur = ('boundary', 0)
        ctx._record('boundary_parts', {'maps': PARTS[0],
                                       'a_tenth_or_more_missing': PARTS[1]})
    for (ax, far), (n, found) in EDGES.items():
        ctx.observe('verdict:boundary_edge')
        if n >= 25 and found < .4 * n:
            ctx.cur = ('boundary', 0)
            ctx._record('boundary_edge', {'axis': 'xy'[ax], 'last': far,
                                          'expected': n, 'found': found})


def judge_boundary(ctx, em, m, A, t):
    h, w = m.shape
    b = m.data.grain_boundaries
    p = np.array(sorted(em.data.grain_boundaries.points), float).reshape(-1,
                                                                         2)
    pd = (p - t) @ np.linalg.inv(A).T
    sv = np.linalg.svd(np.linalg.inv(A))[1]        # dic points per ebsd point
    unit = max(1., sv[0])
    out = np.array(sorted(b.points), float).reshape(-1, 2)
    ctx.check(np.all(out >= 0) and np.all(out < [w, h]), 'boundary_inside')
    img = np.zeros((h, w), bool)
    for x, y in out.astype(int):
        img[y, x] = True
    ctx.equal(b.image, img, 'boundary_image')
    if len(out):
        d = np.hypot(*(out[:, None] - pd[None]).transpose(2, 0, 1)).min(1)
        ctx.check(d.max() <= 1.5 * unit, 'boundary_there', far=d.max() / unit,
                  at=out[d.argmax()])
        ctx.record_max('boundary_there', d.max() / unit)
    # large connected boundaries, well inside, are found again
    if sv[1] < .7:
        return          # image shrinks: thin features may vanish
    # (the parts of them within the DIC map: shorter pieces are dropped; where
    # they are so dense that they merge, thinning leaves only the middle)
    grid = em.data.grain_boundaries.image
    where = tuple(p[:, ::-1].astype(int).T)
    whole, _ = ndimage.label(grid, np.ones((3, 3)))
    long = np.bincount(whole.ravel())[whole[where]] > 30
    seen = np.zeros(grid.shape, bool)
    seen[where] = ((pd >= -.5) & (pd <= np.array([w, h]) - .5)).all(1)
    lab, n = ndimage.label(seen, np.ones((3, 3)))
    size = np.bincount(lab.ravel())
    size[0] = 0
    dense = ndimage.uniform_filter(grid.astype(float), 7, mode='constant')
    big = (size[lab] > 30)[where] & (dense[where] < .4)
    ins = ((pd >= 4) & (pd <= np.array([w, h]) - 5)).all(1) & big
    if ins.sum() and len(out) == 0:
        ctx.fail('boundary_found', expected=int(ins.sum()))
    if ins.sum():
        d = np.hypot(*(out[:, None] - pd[None, ins]).transpose(2, 0, 1)
                     ).min(0)
        # (a stretch whose points the warp weakens below the threshold breaks
        # into pieces that are dropped: at most a part of one map, and few)
        ctx.record_max('boundary_found', np.quantile(d, .6) / unit)
        ctx.check(np.quantile(d, .6) <= 4 * unit, 'boundary_found',
                  far=np.quantile(d, .6) / unit)
        PARTS[0] += 1
        PARTS[1] += bool(np.quantile(d, .9) > 4 * unit)
    # and go on up to the edge of the map
    ecentre = np.array([[0, 0], [w - 1, 0], [0, h - 1], [w - 1, h - 1]]
                       ) @ A.T + t
    if (ecentre >= 3).all() and (ecentre <= np.array(em.shape)[::-1] - 4
                                 ).all() and max(sv) < 1.6:
        for ax, n, at in ((0, w, 0), (0, w, w - 1), (1, h, 0),
                          (1, h, h - 1)):
            near = (np.abs(pd[:, ax] - at) < .7) & long & (
                pd[:, 1 - ax] > 4) & (pd[:, 1 - ax] < (h if ax == 0 else w) -
                                      5)
            for c in pd[near]:
                d = np.abs(out - c).max(1)[out[:, ax] == at] if len(
                    out) else np.zeros(0)
                ctx.observe('edge_expected')
                ctx.observe('edge_found', int(d.size > 0 and d.min() <= 3))
                EDGES[ax, at > 0][0] += 1
                EDGES[ax, at > 0][1] += int(d.size > 0 and d.min() <= 3)
    # lines
    want = (np.array(em.data.grain_boundaries.lines).reshape(-1, 2) - t) @ \
        np.linalg.inv(A).T
    got = np.array(b.lines).reshape(-1, 2)
    ctx.check(got.shape == want.shape and
              (len(got) == 0 or np.abs(got - want).max() <= .5 + 1e-4),
              'boundary_lines')


def s_curved(ctx, rng, i):
    """Maps linked by a polynomial relation of given order."""
    order = [2, 3, 1][i % 3]
    es = ds = (24, 26)
    n = {1: 3, 2: 6, 3: 10}[order]
    grid = np.array([(x, y) for x in (0, 8, 17, 25) for y in (0, 8, 15, 23)],
                    float)
    grid += rng.uniform(-1, 1, grid.shape)
    C = rng.uniform(-1, 1, (2, 10)) * np.array(
        [1, .02, .02, 2e-3, 2e-3, 2e-3, 5e-5, 5e-5, 5e-5, 5e-5])
    C[:, {1: 3, 2: 6, 3: 10}[order]:] = 0
    terms = lambda p: np.array([p[:, 0] ** (d - k) * p[:, 1] ** k
                                for d in range(4) for k in range(d + 1)]).T
    truth = lambda p: p + terms(p) @ C.T          # EBSD from DIC
    spec = build.ebsd_spec(rng, shape=es, min_cells=6, noise=0.,
                           nonindexed='none', phases=[build.cubic_phase()])
    em = build.ebsd_map(spec)
    em.data.generate('grains', min_grain_size=1)
    m = build.dic_map(ctx.scratch, build.smooth_disp(rng, ds))
    ctx.describe(distinct=[order, np.round(C, 4).tolist()], order=order)
    kw = {} if order == 2 and rng.integers(2) else {'order': order}
    build.link(m, em, truth(grid), grid, 'polynomial', **kw)
    img = rng.integers(1, 50, es).astype(float)
    got = m.warp_to_dic_frame(img, order=0, preserve_range=True)
    yy, xx = np.mgrid[:ds[0], :ds[1]]
    src = truth(np.stack([xx, yy], -1).reshape(-1, 2).astype(float)
                ).reshape(ds + (2,))
    r = np.round(src)
    sure = (np.abs(np.abs(src - r) - .5) > 1e-2).all(-1) & (
        (r >= 0) & (r < np.array(es)[::-1])).all(-1) & (
        (src >= 0) & (src <= np.array(es)[::-1] - 1)).all(-1)
    idx = r.astype(int)
    ctx.equal(got[sure], img[idx[..., 1][sure], idx[..., 0][sure]],
              'curved', order=order)


def s_extent(ctx, rng, i):
    """Boundaries close to the edges of the EBSD map are not lost."""
    eh, ew = es = int(rng.integers(40, 60)), int(rng.integers(70, 130))
    spec = build.ebsd_spec(rng, shape=es, min_cells=1, noise=0.,
                           nonindexed='none', phases=[build.cubic_phase()])
    spec.euler[:] = .3
    spec.euler[:, 3:eh - 3, 3:ew - 3] = 1.
    em = build.ebsd_map(spec)
    em.data.generate('grains', min_grain_size=1)
    a = np.deg2rad(rng.uniform(-3, 3)) + np.pi / 2 * rng.integers(4)
    A = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]]
                 ) * rng.uniform(.7, .95)
    ds = (np.array([max(es)] * 2) / .65 + 12).astype(int)
    t = np.array(es)[::-1] / 2 - A @ (ds[::-1] / 2)
    m = build.dic_map(ctx.scratch, build.smooth_disp(rng, tuple(ds)))
    p2 = scatter(rng, 6, 60)
    build.link(m, em, p2 @ A.T + t, p2)
    ctx.describe(distinct=[es, np.round(A, 3).tolist()], ebsd=es,
                 dic=tuple(ds))
    b = m.data.grain_boundaries
    out = np.array(sorted(b.points), float).reshape(-1, 2)
    back = out @ A.T + t                        # in the EBSD frame
    p = np.array(sorted(em.data.grain_boundaries.points), float)
    for ax, at in ((0, 2), (0, ew - 4), (1, 2), (1, eh - 4)):
        side = p[(p[:, ax] == at) & (p[:, 1 - ax] > 5) & (
            p[:, 1 - ax] < (eh if ax == 0 else ew) - 6)]
        d = np.abs(side[:, None] - back[None]).max(2).min(1) if len(
            back) else np.full(len(side), 99.)
        ctx.check((d < 2.5).mean() > .8, 'extent', axis=ax, at=at,
                  found=(d < 2.5).mean(), n=len(side))


def s_speck(ctx, rng, i):
    """Very small boundaries keep their lines."""
    es = tuple(int(v) for v in rng.integers(2, 9, 2))
    A, name = rand_affine(rng)
    t = rng.uniform(-4, 4, 2)
    spec = build.ebsd_spec(rng, shape=es, min_cells=1, noise=0.,
                           nonindexed='none', phases=[build.cubic_phase()])
    spec.euler[:] = .3
    spec.euler[:, 0, 0] = 1.
    em = build.ebsd_map(spec)
    em.data.generate('grains', min_grain_size=1)
    m = build.dic_map(ctx.scratch, build.smooth_disp(rng, (6, 7)))
    p2 = scatter(rng, 6, 30)
    build.link(m, em, p2 @ A.T + t, p2)
    ctx.describe(distinct=[es, name, np.round(t, 3).tolist()], ebsd=es)
    lines = em.data.grain_boundaries.lines
    ctx.check(len(lines) == 2, 'speck', lines=lines)
    want = (np.array(lines).reshape(-1, 2) - t) @ np.linalg.inv(A).T
    got = np.array(m.data.grain_boundaries.lines).reshape(-1, 2)
    ctx.check(got.shape == want.shape and
              np.abs(got - want).max() <= .5 + 1e-4, 'speck', got=got,
              want=want)


def s_small(ctx, rng, i):
    """The boundary around one small grain is found in the DIC map."""
    k = rng.integers(5, 9, 2)
    es = k + rng.integers(6, 12, 2)
    at = [int(rng.integers(3, e - n - 2)) for e, n in zip(es, k)]
    t = -rng.integers(1, 9, 2).astype(float)
    spec = build.ebsd_spec(rng, shape=tuple(int(e) for e in es), min_cells=1,
                           noise=0., nonindexed='none',
                           phases=[build.cubic_phase()])
    spec.euler[:] = .3
    spec.euler[:, at[0]:at[0] + k[0], at[1]:at[1] + k[1]] = 1.
    em = build.ebsd_map(spec)
    em.data.generate('grains', min_grain_size=1)
    m = build.dic_map(ctx.scratch, build.smooth_disp(
        rng, tuple(int(e) + 12 for e in es)))
    p2 = scatter(rng, 6, 30)
    build.link(m, em, p2 + t, p2)
    ctx.describe(distinct=[es, k, at, t], ebsd=es, grain=k)
    pd = np.array(sorted(em.data.grain_boundaries.points), float) - t
    out = np.array(sorted(m.data.grain_boundaries.points), float
                   ).reshape(-1, 2)
    ctx.check(len(out) > 0, 'small', points=len(pd))
    d = np.hypot(*(out[:, None] - pd[None]).transpose(2, 0, 1))
    ctx.record_max('small', d.min(0).max())
    ctx.check(d.min(0).max() <= 3 and d.min(1).max() <= 1.5, 'small',
              lost=d.min(0).max(), astray=d.min(1).max())


def s_grains(ctx, rng, i):
    """Grains found by warping the EBSD grain image."""
    spec, em, m, A, t, name = linked(ctx, rng, ttype=str(rng.choice(
        ['affine', 'projective'])))
    ctx.describe(distinct=[spec.shape, m.shape, name, i], ebsd=spec.shape,
                 dic=m.shape, relation=name)
    m.data.generate('grains', algorithm='warp')
    check_warped(ctx, em, m, A, t)
    if i % 3 == 0:
        # link another map: everything follows
        spec2 = build.ebsd_spec(rng, shape=spec.shape, min_cells=5, noise=0.,
                                nonindexed='none',
                                phases=[build.hex_phase()])
        em2 = build.ebsd_map(spec2)
        em2.data.generate('grains', min_grain_size=1)
        p2 = scatter(rng, 6, 30)
        build.link(m, em2, p2 @ A.T + t, p2)
        m.data.generate('grains', algorithm='warp')
        check_warped(ctx, em2, m, A, t)
        judge_boundary(ctx, em2, m, A, t)
        ctx.observe('relinked')
    else:
        # the same map linked again in another way
        for kind, cls in (('projective', 'ProjectiveTransform'),
                          ('polynomial', 'PolynomialTransform'),
                          ('Affine', 'AffineTransform')):
            m.link_ebsd_map(em, transform_type=kind)
            tr = m.experiment.get_frame_transform(m.frame, em.frame)
            ctx.check(type(tr).__name__ == cls, 'other_type', want=cls,
                      got=type(tr).__name__)
            ctx.close(tr(np.array(m.frame.homog_points)),
                      np.array(em.frame.homog_points), 'homologous',
                      atol=1e-4, type=kind, dir='linked again')
        m.data.generate('grains', algorithm='warp')
        check_warped(ctx, em, m, A, t)


def s_many(ctx, rng, i):
    """More grains than fit a byte, and DIC maps seeing only part of it."""
    es = (40, 38)
    spec = build.ebsd_spec(rng, shape=es, min_cells=1, noise=0.,
                           nonindexed='none', phases=[build.hex_phase()])
    yy, xx = np.mgrid[:es[0], :es[1]]
    cell = yy // 2 * (es[1] // 2) + xx // 2
    spec.euler = ref.random_eulers(rng, (int(cell.max()) + 1,))[:, cell]
    em = build.ebsd_map(spec)
    em.data.generate('grains', min_grain_size=1)
    A, name = rand_affine(rng, rng.uniform(.5, 1.))
    ds = tuple(int(v) for v in rng.integers(34, 60, 2))
    t = np.array(es)[::-1] / 2 - A @ (np.array(ds)[::-1] / 2)
    m = build.dic_map(ctx.scratch, build.smooth_disp(rng, ds))
    p2 = scatter(rng, 6, 30)
    build.link(m, em, p2 @ A.T + t, p2)
    ctx.describe(distinct=[ds, name, i], dic=ds, relation=name,
                 grains=len(em))
    m.data.generate('grains', algorithm='warp')
    ctx.check(len(em) > 255, 'many', n=len(em))
    ctx.observe('many_dic_grains', len(m) > 255)
    check_warped(ctx, em, m, A, t)


def check_warped(ctx, em, m, A, t):
    h, w = m.shape
    yy, xx = np.mgrid[:h, :w]
    src = np.stack([xx, yy], -1) @ A.T + t
    es = np.array(em.shape)[::-1]
    inside = ((src >= 0) & (src <= es - 1)).all(-1)
    r = np.round(src)
    sure = (np.abs(np.abs(src - r) - .5) > 1e-5).all(-1) & inside
    eg = np.asarray(em.data.grains)
    idx = r.astype(int)
    g = np.asarray(m.data.grains)
    ctx.check(g.shape == (h, w), 'grain_shape')
    num = np.full(len(m) + 1, 0)
    for grain in m:
        ctx.check(grain.ebsd_map is em, 'ebsd_map')
        num[grain.grain_id + 1] = grain.ebsd_grain.grain_id + 1
        ctx.check(em[grain.ebsd_grain.grain_id] is grain.ebsd_grain,
                  'ebsd_grain')
        ctx.check(grain.phase is grain.ebsd_grain.phase and
                  grain.ref_ori is grain.ebsd_grain.ref_ori, 'ebsd_grain')
        p = np.asarray(grain.data.point)
        ctx.check(np.all(g[p[:, 1], p[:, 0]] == grain.grain_id + 1) and
                  len(p) == (g == grain.grain_id + 1).sum(), 'warp_points')
    got = np.where(g > 0, num[np.maximum(g, 0)], g)
    ctx.equal(got[sure], eg[idx[..., 1][sure], idx[..., 0][sure]],
              'warp_grain')
    ctx.check(len(set(num[1:])) == len(m), 'one_to_one')
    ctx.check(g.max() == len(m), 'grain_count')


STREAMS = [Stream('transform', 120, 4000, s_transform),
           Stream('noisy', 60, 2000, s_noisy),
           Stream('image', 80, 3000, s_image),
           Stream('boundary', 150, 2500, s_boundary),
           Stream('grains', 60, 2000, s_grains),
           Stream('many', 4, 60, s_many), Stream('extent', 8, 200, s_extent),
           Stream('curved', 18, 500, s_curved),
           Stream('speck', 16, 300, s_speck), Stream('small', 20, 400, s_small)]
