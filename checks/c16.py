"""C16: grain views and map data are two views of the same values."""
import numpy as np

from vt import build, ref
from vt.core import Stream

PROPERTY = 'C16'
RULE = ('EBSD maps with hostile grain shapes and DIC maps linked to them; '
        'map data of order 0 to 2 and several types, list data added to '
        'grains, grain subsets and backgrounds; distinct by map and data')
ASSUMPTIONS = ['grain images of tensor data have the tensor axes last, as '
               'for RGB values', 'the centre of a grain is rounded to the '
               'nearest point']
REQUIRE = {'verdict:gather': 300, 'verdict:grain_image': 200,
           'verdict:to_map': 60, 'verdict:values_to_map': 150,
           'verdict:average': 60, 'verdict:coarse': 60, 'verdict:outline':
           100, 'verdict:centre': 200, 'dic_maps': 15, 'tensor_images': 50,
           'odd_grains': 40, 'many_grains': 2,
           'verdict:large': 40}


def a_map(ctx, rng, i):
    spec = build.ebsd_spec(rng, max_dim=18)
    if i % 30 == 4:
        # more grains than fit a byte
        spec = build.ebsd_spec(rng, shape=(17, int(rng.integers(17, 20))),
                               multi=False, noise=0., nonindexed='none')
        spec.euler = ref.random_eulers(rng, spec.phase.size).reshape(
            (3,) + spec.shape)
        ctx.observe('many_grains')
    em = build.ebsd_map(spec)
    em.data.generate('grains', min_grain_size=int(rng.choice([1, 1, 3])))
    if i % 3 != 2:
        return em, spec
    m = build.dic_map(ctx.scratch, build.smooth_disp(rng, spec.shape),
                      int(rng.choice([2, 8])))
    h, w = spec.shape
    pts = [(0, 0), (w - 1, 0), (0, h - 1), (w - 1, h - 1)]
    build.link(m, em, pts, pts)
    if rng.integers(2) and min(h, w) > 5:
        m.set_crop(left=1, top=2, right=1, update_homog_points=True)
    m.data.generate('grains', algorithm=rng.choice(['warp', 'floodfill']),
                    min_grain_size=1)
    ctx.observe('dic_maps')
    return m, spec


def user_data(rng, shape, order, dtype):
    lead = (2, 3)[:order]
    if dtype == 'bool':
        return rng.random(lead + shape) < .5
    if dtype.startswith(('int', 'uint')):
        return rng.integers(0, 200 if dtype[0] == 'u' else 1000,
                            lead + shape).astype(dtype)
    return rng.normal(size=lead + shape).astype(dtype)


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object:
        return all(x is y or x == y for x, y in zip(a.flat, b.flat))
    return np.array_equal(a.astype(float), b.astype(float), equal_nan=True)


def s_views(ctx, rng, i):
    m, spec = a_map(ctx, rng, i)
    ctx.describe(distinct=[spec.shape, spec.kind, type(m).__module__, i],
                 shape=spec.shape, kind=spec.kind, grains=len(m),
                 map=type(m).__module__)
    if len(m) == 0:
        return
    shape = tuple(m.shape)
    order = int(rng.integers(0, 3))
    dtype = str(rng.choice(['float64', 'float32', 'int64', 'uint8', 'bool']))
    full = user_data(rng, shape, order, dtype)
    kw = {'cropped': True}
    m.data.add('user', full.copy(), type='map', order=order, unit='', **kw)
    names = ['user', 'grains'] + (
        ['max_shear', 'e', 'displacement'] if 'e' in m.data else
        ['phase', 'euler_angle', 'band_contrast', 'orientation', 'KAM'])
    image = np.asarray(m.data.grains)
    for g in m:
        p = np.asarray(g.data.point)
        n = len(p)
        ctx.check(p.shape == (n, 2) and len(g) == n, 'points')
        # the points are those carrying the number of the grain in the image
        want = np.argwhere(image == g.grain_id + 1)[:, ::-1]
        ctx.check(set(map(tuple, p.tolist())) == set(map(tuple, want.tolist())
                                                     ), 'point_set')
        x0, y0 = p.min(0)
        x1, y1 = p.max(0)
        ctx.equal(list(g.extreme_coords), [x0, y0, x1, y1], 'box')
        ctx.observe('odd_grains', 0 < n < (x1 - x0 + 1) * (y1 - y0 + 1))
        for name in names:
            a = np.asarray(m.data[name])
            want = np.stack([a[..., y, x] for x, y in p], -1)
            got = g.data[name]
            ctx.check(same(got, want), 'gather', name=name, got=got,
                      want=want)
            ctx.check(g.data[name, 'type'] == 'list', 'list_type')
        ctx.check(same(g.grain_data(full), np.stack(
            [full[..., y, x] for x, y in p], -1)), 'gather')
        # grain image
        bg = rng.choice([np.nan, 0, -1]) if dtype != 'bool' else np.nan
        if dtype == 'uint8' and bg == -1:
            bg = 0
        form = rng.choice(['map', 'list', 'default'])
        lead = full.shape[:order]
        vals = np.stack([full[..., y, x] for x, y in p])
        kw = {} if form == 'default' else {'bg': bg}
        if form == 'default':
            bg = np.nan
        if form == 'list':
            img = g.grain_map_data(grain_data=vals.copy(), **kw)
        else:
            img = g.grain_map_data(map_data=full, **kw)
        want = np.full((y1 - y0 + 1, x1 - x0 + 1) + lead, bg, float)
        for (x, y), v in zip(p, vals):
            want[y - y0, x - x0] = v
        ctx.observe('tensor_images', order > 0)
        ctx.check(same(img, want), 'grain_image', got=img, want=want,
                  form=form, dtype=dtype)
        # outline, centre
        if rng.integers(2):
            out, bgo, fgo = g.grain_outline(), np.nan, 0
        else:
            bgo, fgo = int(rng.integers(-3, 3)), int(rng.integers(3, 9))
            out = g.grain_outline(bg=bgo, fg=fgo)
        wo = np.full((y1 - y0 + 1, x1 - x0 + 1), bgo, float)
        wo[p[:, 1] - y0, p[:, 0] - x0] = fgo
        ctx.check(same(out, wo), 'outline', got=out, want=wo)
        for kind, c in (('box', ((x0 + x1) / 2, (y0 + y1) / 2)),
                        ('com', p.mean(0))):
            for local in (True, False):
                off = np.array([x0, y0]) * local
                got = g.centre_coords(centre_type=kind, grain_coords=local)
                ctx.check(np.all(np.abs(np.array(got) + off - c) <= .5 + 1e-9)
                          and all(isinstance(v, (int, np.integer))
                                  for v in got), 'centre', kind=kind,
                          local=local, got=got, want=c, box=[x0, y0, x1, y1])
    with ctx.raises(ValueError, 'refuse_centre'):
        m[0].centre_coords('middle')
    with ctx.raises(ValueError, 'refuse_no_data'):
        m[0].grain_map_data()
    ctx.equal(m.data.user, full, 'map_unchanged')


def s_place(ctx, rng, i):
    """From grain values back to maps."""
    m, spec = a_map(ctx, rng, i)
    ctx.describe(distinct=[spec.shape, spec.kind, type(m).__module__, i],
                 shape=spec.shape, kind=spec.kind, grains=len(m))
    if len(m) == 0:
        return
    shape = tuple(m.shape)
    image = np.asarray(m.data.grains)
    n = len(m)
    # list data of every grain seen as a map
    order = int(rng.integers(0, 3))
    lead = (2, 3)[:order]
    want = np.zeros(lead + shape)
    for g in m:
        v = rng.normal(size=lead + (len(g),))
        g.data.add('vals', v, type='list', order=order, unit='')
        for k, (x, y) in enumerate(g.data.point):
            want[..., y, x] = v[..., k]
    ctx.check('vals' in m.data and m.data['vals', 'type'] == 'map',
              'list_visible')
    got = m.data.vals
    ctx.equal(got, want, 'to_map')
    ctx.equal(m.grain_data_to_map('vals'), want, 'to_map')
    # and back: each grain gets its own values
    for g in m:
        ctx.equal(np.asarray(want)[..., g.data.point[:, 1],
                                   g.data.point[:, 0]], g.data.vals,
                  'round_trip')
    # single value or colour per grain
    for _ in range(4):
        kind = rng.choice(['all', 'some', 'one'])
        ids = {'all': -1, 'some': [int(v) for v in rng.permutation(n)[
            :rng.integers(1, n + 1)]], 'one': int(rng.integers(n))}[kind]
        idl = list(range(n)) if kind == 'all' else (
            ids if kind == 'some' else [ids])
        rgb = rng.random() < .3
        dt = rng.choice(['int64', 'float64'])
        v = (rng.random((len(idl), 3) if rgb else len(idl)) * 50).astype(dt)
        bg = rng.choice([0, -1, np.nan, .5])
        kw = {} if rng.random() < .3 else {'bg': bg}
        bg = kw.get('bg', 0)
        wm = np.full(shape + ((3,) if rgb else ()), bg, float)
        for k, gid in enumerate(idl):
            wm[image == gid + 1] = v[k]
        arg = v if rng.integers(2) else v.tolist()
        got = m.grain_data_to_map_data(arg, grain_ids=ids, **kw)
        ctx.check(same(got, wm), 'values_to_map', got=got, want=wm, ids=ids,
                  bg=bg, dtype=dt)
    with ctx.raises(ValueError, 'refuse_length'):
        m.grain_data_to_map_data(np.zeros(n + 1))
    # averages
    other = user_data(rng, shape, 0, str(rng.choice(
        ['uint8', 'bool', 'int64', 'uint16'])))
    if rng.integers(2):
        other = other.astype(other.dtype) * 50 if other.dtype == 'uint16' \
            else np.maximum(other, 150) if other.dtype == 'uint8' else other
    want = np.array([other[image == k + 1].astype(float).mean()
                     for k in range(n)])
    ctx.close(m.calc_grain_average(other), want, 'average', atol=1e-9,
              dtype=str(other.dtype))
    data = rng.normal(size=shape)
    want = np.array([data[image == k + 1].mean() for k in range(n)])
    ctx.close(m.calc_grain_average(data), want, 'average', atol=1e-12)
    ids = [int(v) for v in rng.permutation(n)[:rng.integers(1, n + 1)]]
    ctx.close(m.calc_grain_average(data, grain_ids=ids), want[ids],
              'average', atol=1e-12)
    one = int(rng.integers(n))
    ctx.close(m.calc_grain_average(data, grain_ids=one), want[[one]],
              'average', atol=1e-12)
    # coarsened image of one grain
    for g in [m[int(rng.integers(n))], m[int(rng.integers(n))]]:
        k = int(rng.integers(0, 7))
        p = np.asarray(g.data.point)
        x0, y0 = p.min(0)
        d = data.copy()
        if rng.random() < .3:
            d[tuple(p[0][::-1])] = np.nan
        bg = float(rng.choice([np.nan, 0., -5.]))
        kw = {'kernel_size': k, 'bg': bg}
        got = (g.grain_map_data_coarse(map_data=d, **kw) if rng.integers(2)
               else g.grain_map_data_coarse(grain_data=d[p[:, 1], p[:, 0]],
                                            **kw))
        want = np.full(p.max(0)[::-1] - [y0, x0] + 1, bg)
        for x, y in p:
            if np.isnan(d[y, x]):
                continue
            near = p[(np.abs(p - [x, y]) <= k).all(1)]
            want[y - y0, x - x0] = np.nanmean(d[near[:, 1], near[:, 0]])
        ctx.close(got, want, 'coarse', atol=1e-9, kernel=k)


def s_large(ctx, rng, i):
    """Grains of more points than any block, wider than a byte."""
    shape = [(6, 300), (45, 47), (300, 5), (71, 60),
             (36, 41), (260, 258)][i % 6]
    spec = build.ebsd_spec(rng, shape=shape, min_cells=1, noise=0.,
                           phases=[build.cubic_phase()], nonindexed='none')
    spec.euler[:] = .3
    h, w = shape
    y, x = (int(rng.integers(0, v // 4)) for v in shape)
    spec.euler[:, y:y + 2, x:x + 2] = 1.
    m = build.ebsd_map(spec)
    m.data.generate('grains', min_grain_size=1)
    image = np.asarray(m.data.grains)
    ctx.describe(distinct=[shape, y, x], shape=shape, at=(y, x))
    g = max(m, key=len)
    p = np.asarray(g.data.point)
    ctx.check(len(p) == h * w - 4 and set(map(tuple, p.tolist())) == set(map(
        tuple, np.argwhere(image == g.grain_id + 1)[:, ::-1].tolist())),
        'large', what='points')
    ctx.equal(list(g.extreme_coords), [0, 0, w - 1, h - 1], 'large')
    full = rng.normal(size=shape)
    m.data.add('user', full, type='map', order=0, unit='')
    ctx.equal(g.data.user, full[p[:, 1], p[:, 0]], 'large')
    inside = image == g.grain_id + 1
    ctx.equal(g.grain_map_data(map_data=full), np.where(inside, full, np.nan),
              'large')
    ctx.equal(g.grain_map_data(grain_data=full[inside], bg=3.) if (
        p[:, ::-1] == np.argwhere(inside)).all() else np.where(
        inside, full, 3.), np.where(inside, full, 3.), 'large')
    ctx.equal(g.grain_outline(bg=0, fg=4), np.where(inside, 4, 0), 'large')
    for gr in m:
        gr.data.add('vals', full[gr.data.point[:, 1], gr.data.point[:, 0]],
                    type='list', order=0, unit='')
    ctx.equal(m.data.vals, full, 'large')
    want = [full[image == k + 1].mean() for k in range(len(m))]
    ctx.close(m.calc_grain_average(full), want, 'large', atol=1e-9)
    ctx.close(m.grain_data_to_map_data(want), np.array(want)[image - 1],
              'large', atol=1e-12)
    c = g.centre_coords(centre_type='com', grain_coords=False)
    ctx.check(np.abs(np.array(c) - p.mean(0)).max() <= .5 + 1e-9, 'large')


STREAMS = [Stream('views', 60, 2000, s_views),
           Stream('place', 60, 2000, s_place),
           Stream('large', 12, 120, s_large)]
