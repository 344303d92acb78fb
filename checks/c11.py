"""C11: EBSD grains are the connected regions between boundaries."""
import warnings

import numpy as np

from vt import ref, build
from vt.core import Stream

PROPERTY = 'C11'
RULE = ('EBSD maps 1x1..30x30 (cells, stripes, checkerboards, spirals, noise, '
        'diagonal contacts, specks; 1 or 2 phases; non-indexed points) and '
        'maps with random walls (boundary images set directly), minimum grain '
        'sizes 1..60 and the default, repeated segmentation; oracle: '
        'union-find over indexed points and non-boundary steps; distinct by '
        'map, minimum size and walls')
ASSUMPTIONS = ['the boundaries are those the map reports (property C10)',
               'walls set directly enclose the non-indexed points']
REQUIRE = {'verdict:grain_image': 100, 'grains': 300, 'small_regions': 100,
           'maps_without_grain': 3, 'single_grain_maps': 5,
           'nonindexed_points': 100, 'verdict:phase': 200,
           'wall_maps': 40, 'mixed_grains': 3, 'concave_grains': 20}


def regions(bx, by, indexed):
    """Component label image of the indexed points (-1 elsewhere)."""
    h, w = indexed.shape
    idx = np.arange(h * w).reshape(h, w)
    hor = ~bx[:, :-1] & indexed[:, :-1] & indexed[:, 1:]
    ver = ~by[:-1] & indexed[:-1] & indexed[1:]
    edges = (list(zip(idx[:, :-1][hor], idx[:, 1:][hor])) +
             list(zip(idx[:-1][ver], idx[1:][ver])))
    lab = ref.components(h * w, edges).reshape(h, w)
    return np.where(indexed, lab, -1)


def check_grains(ctx, m, spec, min_size, tag=''):
    gb = m.data.grain_boundaries
    phase = np.asarray(spec.phase)
    bx, by = (np.asarray(gb.image_x, bool), np.asarray(gb.image_y, bool))
    indexed = phase != 0
    lab = regions(bx, by, indexed)
    img = np.asarray(m.data.grains)
    ctx.check(img.shape == spec.shape, 'image_shape')
    grains = list(m)
    ctx.check(len(m) == len(grains), 'count')
    ids = {}
    small = 0
    for l in np.unique(lab[indexed]):
        reg = lab == l
        vals = np.unique(img[reg])
        ctx.check(len(vals) == 1, 'grain_image', values=vals, tag=tag)
        if reg.sum() < min_size:
            small += 1
            ctx.check(vals[0] == -2, 'grain_image', what='small region',
                      value=vals[0], size=reg.sum(), tag=tag)
        else:
            ctx.check(1 <= vals[0] <= len(grains) and vals[0] not in ids,
                      'grain_image', what='grain number', value=vals[0],
                      size=reg.sum(), tag=tag)
            ids[int(vals[0])] = reg
    ctx.check(np.all(img[~indexed] == 0), 'grain_image', what='non-indexed',
              tag=tag)
    ctx.check(len(ids) == len(grains), 'count', got=len(grains),
              want=len(ids), tag=tag)
    for k, g in enumerate(grains):
        reg = ids[k + 1]
        pts = np.asarray(g.data.point)
        want = {(int(x), int(y)) for y, x in np.argwhere(reg)}
        got = [(int(x), int(y)) for x, y in pts]
        ctx.check(len(got) == len(set(got)) == len(g) and set(got) == want,
                  'points', grain=k, got=got[:10], tag=tag)
        ctx.check(g.grain_id == k and m[k] is g, 'grain_id')
        ctx.check(g.owner_map is m, 'owner')
        ph = np.unique(phase[reg])
        if len(ph) == 1:
            ctx.check(g.phase_id == ph[0] - 1 and
                      g.phase is m.phases[ph[0] - 1], 'phase', got=g.phase_id,
                      want=ph, tag=tag)
            ctx.check(g.crystal_sym ==
                      spec.phases[ph[0] - 1].crystal_structure.name, 'phase')
        else:
            ctx.check(g.phase is None and g.phase_id is None, 'mixed_phase',
                      got=g.phase_id)
            ctx.observe('mixed_grains')
        hull = np.ptp(pts[:, 0]) + 1, np.ptp(pts[:, 1]) + 1
        if hull[0] * hull[1] > len(pts):
            ctx.observe('concave_grains')
    ctx.observe('grains', len(grains))
    ctx.observe('small_regions', small)
    ctx.observe('nonindexed_points', (~indexed).sum())
    ctx.observe('maps_without_grain', len(grains) == 0)
    ctx.observe('single_grain_maps', len(grains) == 1)
    ctx.record_max('largest_grain', max([len(g) for g in grains], default=0))
    return img


def s_maps(ctx, rng, i):
    shape = None
    if i % 10 == 9:
        shape = [(1, int(rng.integers(1, 30))), (int(rng.integers(1, 30)), 1),
                 (2, 2), (1, 1)][rng.integers(4)]
    spec = build.ebsd_spec(rng, shape=shape, max_dim=31)
    if i % 25 == 24:
        spec.phase = np.zeros_like(spec.phase)
    m = build.ebsd_map(spec)
    # the phase of a grain is its own, whatever the primary phase is
    m.primary_phase_id = int(rng.integers(len(spec.phases)))
    size = [None, 1, 2, 5, 10, 11, 60][i % 7]
    ctx.describe(distinct=[spec.shape, spec.kind, size, i], shape=spec.shape,
                 kind=spec.kind, min_size=size,
                 phases=[p.name for p in spec.phases],
                 nonindexed=spec.nonindexed)
    if size is None:
        m.data.grains
    else:
        m.data.generate('grains', min_grain_size=size)
    img = check_grains(ctx, m, spec, size or 10).copy()
    # again, with another size, then the same result with the first size
    if i % 3 == 0:
        m.data.generate('grains', min_grain_size=3)
        check_grains(ctx, m, spec, 3, 'again')
        m.data.generate('grains', min_grain_size=size or 10)
        ctx.equal(m.data.grains, img, 'repeatable')
    # another tolerance: boundaries, then grains
    if i % 3 == 1:
        m.data.generate('grain_boundaries', misori_tol=3)
        m.data.generate('grains', min_grain_size=2)
        check_grains(ctx, m, spec, 2, 'tolerance')


def maze(rng, shape):
    """Spanning tree walls: one long winding region plus holes."""
    h, w = shape
    bx, by = np.ones(shape, bool), np.ones(shape, bool)
    seen = np.zeros(shape, bool)
    stack = [(int(rng.integers(h)), int(rng.integers(w)))]
    seen[stack[0]] = True
    while stack:
        y, x = stack[-1]
        opts = [(y + dy, x + dx, dy, dx) for dy, dx in
                ((0, 1), (0, -1), (1, 0), (-1, 0))
                if 0 <= y + dy < h and 0 <= x + dx < w
                and not seen[y + dy, x + dx]]
        if not opts:
            stack.pop()
            continue
        ny, nx, dy, dx = opts[rng.integers(len(opts))]
        if dx:
            bx[y, min(x, nx)] = False
        else:
            by[min(y, ny), x] = False
        seen[ny, nx] = True
        stack.append((ny, nx))
    return bx, by


def s_walls(ctx, rng, i):
    from defdap.ebsd import BoundarySet
    shape = (int(rng.integers(1, 32)), int(rng.integers(1, 32)))
    spec = build.ebsd_spec(rng, shape=shape, kind=None,
                           phases=[build.cubic_phase()], nonindexed='none',
                           noise=0.)
    m = build.ebsd_map(spec)
    kind = ['maze', 'random', 'dense', 'open', 'closed', 'holes'][i % 6]
    if kind == 'maze':
        bx, by = maze(rng, shape)
    else:
        p = {'random': .5, 'dense': .75, 'open': 0., 'closed': 1.,
             'holes': .3}[kind]
        bx, by = rng.random(shape) < p, rng.random(shape) < p
    if kind in ('random', 'open') and i % 12 > 5:
        # regions that hold points of two phases
        spec.phases = [build.cubic_phase('c'), build.hex_phase('h')]
        n = int(rng.integers(1, 1 + spec.phase.size // 4 + 1))
        spec.phase.flat[rng.integers(0, spec.phase.size, n)] = 2
        m = build.ebsd_map(spec)
    if kind in ('holes', 'maze'):
        spec.phase[rng.random(shape) < .12] = 0
        m = build.ebsd_map(spec)
        ph = np.asarray(spec.phase)
        bx[:, :-1] |= ph[:, :-1] != ph[:, 1:]
        by[:-1] |= ph[:-1] != ph[1:]
    bx[:, -1] = False
    by[-1] = False
    m.data.phase_boundaries
    m.data.grain_boundaries = BoundarySet.from_image(m, bx, by)
    size = int(rng.choice([1, 2, 4, 10, 30]))
    ctx.describe(distinct=[shape, kind, size, i], shape=shape, walls=kind,
                 min_size=size)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        m.data.generate('grains', min_grain_size=size)
    check_grains(ctx, m, spec, size)
    ctx.observe('wall_maps')


def s_large(ctx, rng, i):
    """Many points and more than 256 grains."""
    shape = [(120, 150), (1, 700), (300, 40), (17, 400)][i % 4]
    spec = build.ebsd_spec(rng, shape=shape, noise=0.,
                           min_cells=int(rng.integers(2, 600))
                           if i % 3 else None)
    m = build.ebsd_map(spec)
    size = int(rng.choice([1, 2, 10]))
    ctx.describe(distinct=[spec.shape, spec.kind, size, i], shape=spec.shape,
                 kind=spec.kind, min_size=size)
    m.data.generate('grains', min_grain_size=size)
    check_grains(ctx, m, spec, size)
    ctx.observe('large_maps')
    ctx.record_max('most_grains', len(m))


STREAMS = [
    Stream('large', 8, 120, s_large),
    Stream('maps', 150, 4000, s_maps),
    Stream('walls', 100, 3000, s_walls),
]
