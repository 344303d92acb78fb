"""C12: DIC grains are the regions enclosed by the warped boundaries."""
import numpy as np
from scipy import ndimage

from checks.c13 import rand_affine, scatter
from vt import build, ref
from vt.core import Stream

PROPERTY = 'C12'
RULE = ('flood fill of hostile boundary images (noise, mazes, rings, lines, '
        'empty, full) and of boundaries really warped from EBSD maps, on '
        'maps of any shape, crop and minimum size, compared with an '
        'independent connected component labelling; link to EBSD grains '
        'compared with the overlap under the known transform; distinct by '
        'pattern')
ASSUMPTIONS = [
    'a boundary point may belong to any region holding its left or upper '
    'neighbour',
    'overlap is counted over EBSD points at the nearest DIC point; points '
    'within 1e-6 of a rounding boundary may count either way']
REQUIRE = {'verdict:component': 300, 'verdict:small_marked': 40,
           'verdict:linked_most': 150, 'no_boundary': 10, 'small_regions': 40,
           'contested': 20, 'cropped': 20, 'all_boundary': 2,
           'many_regions': 20, 'many_both': 3,
           'verdict:unlinked_grain': 2,
           'verdict:refuse': 10}

FOUR = np.array([[0, 1, 0], [1, 1, 1], [0, 1, 0]])


def pattern(rng, shape):
    h, w = shape
    kind = str(rng.choice(['noise', 'noise', 'lines', 'cells', 'ring', 'maze',
                           'empty', 'full', 'diagonal', 'edge']))
    b = np.zeros(shape, bool)
    if kind == 'noise':
        b = rng.random(shape) < rng.choice([.05, .3, .5, .8])
    elif kind == 'lines':
        for _ in range(int(rng.integers(1, 5))):
            if rng.integers(2):
                b[rng.integers(h)] = True
            else:
                b[:, rng.integers(w)] = True
        b &= rng.random(shape) > rng.choice([0, .05])
    elif kind == 'cells':
        lab = build.voronoi(rng, shape, int(rng.integers(2, 9)))
        b[:, :-1] |= lab[:, :-1] != lab[:, 1:]
        b[:-1] |= lab[:-1] != lab[1:]
    elif kind == 'ring':
        i, j = np.indices(shape)
        r = np.hypot(i - (h - 1) / 2, j - (w - 1) / 2)
        b = (r // 1.5).astype(int) % 3 == 0
    elif kind == 'maze':
        b[::2] = True
        for r in range(0, h, 2):
            b[r, rng.integers(w)] = False
    elif kind == 'full':
        b[:] = True
        if rng.integers(2):
            b[rng.integers(h), rng.integers(w)] = False
    elif kind == 'diagonal':
        i, j = np.indices(shape)
        b = (i + j * int(rng.choice([1, -1]))) % int(rng.integers(2, 6)) == 0
    elif kind == 'edge':
        b[0] = b[-1] = True
        b[:, 0] = b[:, -1] = True
    return b, kind


def make(ctx, rng, ds, before=None, **kw):
    """EBSD map and DIC map linked through a known affine relation.  The
    DIC map can be given boundaries before it is linked."""
    es = tuple(int(v) for v in rng.integers(6, 22, 2))
    A, name = rand_affine(rng)
    t = np.array(es)[::-1] / 2 - A @ (np.array(ds)[::-1] / 2)
    if rng.integers(2):
        t = t + rng.uniform(-6, 6, 2)
    spec = build.ebsd_spec(rng, shape=es, min_cells=int(rng.integers(1, 8)),
                           noise=0., phases=[build.cubic_phase()], **kw)
    em = build.ebsd_map(spec)
    em.data.generate('grains', min_grain_size=int(rng.choice([1, 1, 5])))
    m = build.dic_map(ctx.scratch, build.smooth_disp(rng, ds))
    if before:
        t = t + A @ before(m)
    p2 = scatter(rng, 6, 30)
    build.link(m, em, p2 @ A.T + t, p2)
    return em, m, A, t, name


def generate(m, rng, kw):
    alg = str(rng.choice(['floodfill', 'FloodFill', 'floodfill']))
    m.data.generate('grains', algorithm=alg, **kw)


def judge(ctx, m, b, min_size):
    """Partition oracle.  b: boundary image."""
    h, w = m.shape
    g = np.array(m.data.grains).astype(int)
    ctx.equal(g.shape, (h, w), 'shape')
    lab, n = ndimage.label(~b, FOUR)
    grains = list(m)
    ctx.equal(len(m), len(grains), 'count')
    ctx.equal(max(g.max(), 0), len(grains), 'count')
    owner = {}
    for k, grain in enumerate(grains):
        ctx.check(grain.grain_id == k and m[k] is grain, 'grain_id')
        p = np.array(grain.data.point)
        ctx.check(len(p) == len(grain) >= max(1, min_size), 'min_size',
                  size=len(grain), min_size=min_size)
        ctx.check(len({tuple(v) for v in p.tolist()}) == len(p),
                  'points_once')
        img = np.zeros((h, w), bool)
        img[p[:, 1], p[:, 0]] = True
        ctx.equal(img, g == k + 1, 'points_image')
        labs = np.unique(lab[img & ~b])
        ctx.check(len(labs) == 1, 'component', labels=labs.tolist())
        ctx.check(labs[0] not in owner, 'one_grain_each')
        owner[labs[0]] = k
        comp = lab == labs[0]
        ctx.check(img[comp].all(), 'component')
        near = np.zeros_like(comp)
        near[:, 1:] |= comp[:, :-1]
        near[1:] |= comp[:-1]
        ctx.check(not np.any(img & b & ~near), 'boundary_points_adjacent',
                  grain=k)
        # data of the grain are those of its points
        ctx.equal(np.ma.getdata(grain.data.max_shear),
                  np.ma.getdata(m.data.max_shear)[p[:, 1], p[:, 0]],
                  'grain_data')
    free_near = np.zeros((h, w), bool)
    free_near[:, 1:] |= ~b[:, :-1]
    free_near[1:] |= ~b[:-1]
    contested = np.zeros((h, w), bool)
    contested[1:, 1:] = (lab[1:, :-1] != lab[:-1, 1:]) & (
        lab[1:, :-1] > 0) & (lab[:-1, 1:] > 0) & b[1:, 1:]
    ctx.observe('contested', contested.any())
    for c in range(1, n + 1):
        if c in owner:
            continue
        comp = lab == c
        ctx.observe('small_regions')
        ctx.check(np.all(g[comp] == -2), 'small_marked',
                  values=np.unique(g[comp]).tolist(), size=int(comp.sum()))
        ctx.check(comp.sum() < min_size, 'small_is_small',
                  size=int(comp.sum()), min_size=min_size)
    ctx.check(not np.any(b & free_near & (g == -1)), 'boundary_assigned')
    ctx.check(np.all(g[b & ~free_near] == -1), 'boundary_left')
    ctx.check(not np.any(g == 0) and g.min() >= -2, 'no_unassigned')
    ctx.observe('many_regions', n > 4)
    ctx.observe('all_boundary', n == 0)
    return g


def judge_links(ctx, m, em, g, A, t):
    """Each grain goes with the EBSD grain it overlaps most."""
    eh, ew = em.shape
    yy, xx = np.mgrid[:eh, :ew]
    # inverse relation: dic = A^-1 (ebsd - t)
    src = (np.stack([xx, yy], -1) - t) @ np.linalg.inv(A).T
    h, w = m.shape
    eg = np.array(em.data.grains).astype(int)
    sure = (np.abs(np.abs(src - np.round(src)) - .5) > 1e-6).all(-1)
    idx = np.round(src).astype(int)
    inside = ((idx >= 0) & (idx < [w, h])).all(-1)
    dg = np.zeros((eh, ew), int)
    dg[inside] = g[idx[..., 1][inside], idx[..., 0][inside]]
    # points out of the image by less than half a point: either way
    edge = ((src < 0) | (src > [w - 1, h - 1])).any(-1) & inside
    ambiguous = ~sure | edge
    lo = np.zeros((len(m) + 1, len(em) + 1), int)
    sel = (dg > 0) & (eg > 0) & ~ambiguous
    np.add.at(lo, (dg[sel], eg[sel]), 1)
    slack = int((ambiguous & (eg > 0)).sum())
    em.calc_grain_av_oris()
    for k, grain in enumerate(m):
        counts = lo[k + 1]
        ctx.check(grain.ebsd_map is em, 'ebsd_map')
        e = grain.ebsd_grain
        if e is None:
            ctx.check(counts.sum() == 0, 'unlinked_grain',
                      overlaps=counts.tolist())
            continue
        ctx.check(em[e.grain_id] is e, 'ebsd_grain')
        ctx.check(grain.phase is e.phase and grain.ref_ori is e.ref_ori,
                  'ebsd_grain')
        got = counts[e.grain_id + 1]
        ctx.check(got + slack >= counts.max() and got + slack > 0,
                  'linked_most', got=int(got), best=int(counts.max()),
                  slack=slack)
        ctx.observe('strict_link', slack == 0 and np.sum(
            counts == counts.max()) == 1)


def s_pattern(ctx, rng, i):
    from defdap.hrdic import BoundarySet
    ds = (int(rng.integers(2, 22)), int(rng.integers(2, 22)))
    if i % 40 == 17:                    # many regions
        ds = (int(rng.integers(40, 90)), int(rng.integers(110, 140)))
        if i % 80 == 57:
            ds = build.long_shape(rng)
        ctx.observe('large_maps')
    crop = rng.random() < .3 and min(ds) > 6
    l, tp = (int(rng.integers(0, 3)), int(rng.integers(0, 3))) if crop else (
        0, 0)
    box = []

    def before(m):
        if crop:
            m.set_crop(left=l, top=tp, right=int(rng.integers(0, 2)),
                       bottom=int(rng.integers(0, 2)))
            ctx.observe('cropped')
        b, kind = pattern(rng, m.shape)
        pts = [(int(x), int(y)) for y, x in zip(*np.nonzero(b))]
        m.data.add('grain_boundaries', BoundarySet(m, pts, []),
                   type='boundaries')
        box.extend([b, kind])
        return [l, tp]
    em, m, A, t, name = make(ctx, rng, ds, before)
    b, kind = box
    ctx.equal(m.data.grain_boundaries.image, b, 'boundary_image')
    min_size = int(rng.choice([1, 1, 2, 4, 10, 30]))
    kw = {'min_grain_size': min_size}
    if rng.random() < .2:
        kw, min_size = {}, 10
    ctx.describe(distinct=[m.shape, b.tobytes().hex()[:80], min_size],
                 shape=m.shape, kind=kind, min_size=min_size, crop=crop,
                 relation=name)
    generate(m, rng, kw)
    g = judge(ctx, m, b, min_size)
    judge_links(ctx, m, em, g, A, t)
    # again, with another minimum size
    if rng.random() < .3:
        generate(m, rng, {'min_grain_size': 3})
        g = judge(ctx, m, b, 3)
        judge_links(ctx, m, em, g, A, t)


def s_warped(ctx, rng, i):
    ds = tuple(int(v) for v in rng.integers(10, 40, 2))
    em, m, A, t, name = make(ctx, rng, ds)
    if rng.random() < .3:
        l, tp = int(rng.integers(0, 4)), int(rng.integers(0, 4))
        m.set_crop(left=l, top=tp, right=int(rng.integers(0, 2)),
                   update_homog_points=True)
        t = t + A @ [l, tp]
        ctx.observe('cropped')
    min_size = int(rng.choice([1, 5, 10]))
    generate(m, rng, {'min_grain_size': min_size})
    b = np.array(m.data.grain_boundaries.image)
    ctx.describe(distinct=[m.shape, em.shape, name, b.sum(), i],
                 shape=m.shape, ebsd=em.shape, relation=name,
                 boundary=int(b.sum()), min_size=min_size)
    g = judge(ctx, m, b, min_size)
    judge_links(ctx, m, em, g, A, t)


def s_single(ctx, rng, i):
    """An EBSD map with no boundary gives one region."""
    ds = tuple(int(v) for v in rng.integers(4, 20, 2))
    es = tuple(int(v) for v in rng.integers(4, 20, 2))
    spec = build.ebsd_spec(rng, shape=es, min_cells=1, noise=0.,
                           nonindexed='none', phases=[build.hex_phase()])
    em = build.ebsd_map(spec)
    em.data.generate('grains', min_grain_size=1)
    m = build.dic_map(ctx.scratch, build.smooth_disp(rng, ds))
    p2 = scatter(rng, 5, 30)
    A = np.diag((np.array(es)[::-1] - 1) / (np.array(ds)[::-1] - 1))
    t = rng.uniform(-.4, .4, 2)
    build.link(m, em, p2 @ A.T + t, p2)
    ctx.describe(distinct=[ds, es], shape=ds, ebsd=es)
    ctx.observe('no_boundary')
    generate(m, rng, {'min_grain_size': int(rng.choice([1, 10]))})
    g = np.array(m.data.grains)
    ctx.equal(g, np.ones(ds, int), 'one_region')
    ctx.check(len(m) == 1 and len(m[0]) == ds[0] * ds[1], 'one_region')
    ctx.check(m[0].ebsd_grain is em[0], 'one_region')
    if i % 3 == 0:
        with ctx.raises(ValueError, 'refuse'):
            m.data.generate('grains', algorithm=str(rng.choice(
                ['flood', 'watershed', ''])))
        other = build.dic_map(ctx.scratch, build.smooth_disp(rng, ds))
        with ctx.raises(Exception, 'refuse'):
            other.data.generate('grains', algorithm='floodfill')


def s_many(ctx, rng, i):
    """More regions, of both maps, than fit a byte."""
    from defdap.hrdic import BoundarySet
    step = 3
    ds = tuple(int(v) for v in rng.integers(50, 64, 2))
    es = tuple(int(v) for v in rng.integers(36, 44, 2))
    spec = build.ebsd_spec(rng, shape=es, min_cells=1, noise=0.,
                           nonindexed='none', phases=[build.hex_phase()])
    yy, xx = np.mgrid[:es[0], :es[1]]
    cell = yy // 2 * es[1] + xx // 2
    spec.euler = ref.random_eulers(rng, (int(cell.max()) + 1,))[:, cell]
    em = build.ebsd_map(spec)
    em.data.generate('grains', min_grain_size=1)
    m = build.dic_map(ctx.scratch, build.smooth_disp(rng, ds))
    A = np.diag((np.array(es)[::-1] - 1) / (np.array(ds)[::-1] - 1))
    if i % 2:
        A = A * rng.uniform(.8, 1.2)
    t = rng.uniform(-.4, .4, 2)
    b = np.zeros(ds, bool)
    b[step - 1::step] = True
    b[:, step - 1::step] = True
    if i % 3 == 2:                      # some of them open to the next
        b &= rng.random(ds) > .02
    pts = [(int(x), int(y)) for y, x in zip(*np.nonzero(b))]
    m.data.add('grain_boundaries', BoundarySet(m, pts, []),
               type='boundaries')
    p2 = scatter(rng, 6, 30)
    build.link(m, em, p2 @ A.T + t, p2)
    ctx.describe(distinct=[ds, es, i], shape=ds, ebsd=es, grains=len(em))
    generate(m, rng, {'min_grain_size': 1})
    ctx.observe('many_both', len(m) > 127 and len(em) > 255)
    g = judge(ctx, m, b, 1)
    judge_links(ctx, m, em, g, A, t)


STREAMS = [Stream('pattern', 160, 5000, s_pattern),
           Stream('many', 6, 100, s_many),
           Stream('warped', 60, 2000, s_warped),
           Stream('single', 30, 300, s_single)]
