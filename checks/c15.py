"""C15: crop and mask select the same region of every map consistently."""
import numpy as np

from vt import build
from vt.core import Stream

PROPERTY = 'C15'
RULE = ('random histories of set_crop (any subset of sides), masks (two ways '
        'of setting, with dilation, switched off), user maps, binned maps, '
        'pattern image, homologous points and accesses on one DIC map, '
        'against a model holding the full arrays; distinct by history')
ASSUMPTIONS = ['maps of different binning are added with apply_mask=False',
               'dilation uses the 4-neighbourhood, inside the cropped window',
               'masked points are told from the masked array returned']
REQUIRE = {'verdict:window': 500, 'verdict:mask': 200, 'verdict:unmasked':
           200, 'crop_after_mask': 40, 'uncrop': 40, 'binned': 40,
           'verdict:homog': 60, 'recrop': 100, 'grain_crops': 10,
           'verdict:refuse_mask': 10}


def dilate(mask, n):
    """Points within n 4-neighbour steps of the mask."""
    out = np.zeros_like(mask)
    h, w = mask.shape
    yy, xx = np.nonzero(mask)
    for y in range(h):
        for x in range(w):
            out[y, x] = np.any(abs(yy - y) + abs(xx - x) <= n)
    return out


class Model:
    def __init__(self, ctx, rng, wide=None):
        self.ctx, self.rng = ctx, rng
        self.full_shape = h, w = (int(rng.integers(3, 16)),
                                  int(rng.integers(3, 16)))
        if wide is not None:
            h, w = sorted(build.long_shape(rng))
            self.full_shape = h, w = (h, w) if wide else (w, h)
            ctx.observe('long_maps')
        self.binning = int(rng.choice([2, 4, 8]))
        self.m = build.dic_map(ctx.scratch, build.smooth_disp(rng, (h, w)),
                               self.binning)
        self.crop = dict(left=0, right=0, top=0, bottom=0)
        self.mask = None
        # name -> (full array, binning, cropped already, masked)
        self.maps = {n: (np.array(self.m.data[n]), 1, True)
                     for n in ('coordinate', 'displacement', 'f', 'e',
                               'max_shear')}
        self.points = []
        self.n = 0
        self.log = []

    def window(self, a, k=1):
        c = self.crop
        h, w = self.full_shape
        return a[..., c['top'] * k:(h - c['bottom']) * k,
                 c['left'] * k:(w - c['right']) * k]

    @property
    def shape(self):
        c = self.crop
        h, w = self.full_shape
        return h - c['top'] - c['bottom'], w - c['left'] - c['right']

    # ---- operations ----
    def set_crop(self):
        rng, h, w = self.rng, *self.full_shape
        new = dict(self.crop)
        sides = [s for s in ('left', 'right', 'top', 'bottom')
                 if rng.random() < .5]
        for s in sides:
            n = w if s in ('left', 'right') else h
            other = new[{'left': 'right', 'right': 'left', 'top': 'bottom',
                         'bottom': 'top'}[s]]
            hi = n - other - 1
            new[s] = int(rng.choice([0, rng.integers(0, hi + 1),
                                     rng.integers(0, hi + 1)]))
            self.ctx.observe('uncrop', new[s] < self.crop[s])
            self.ctx.observe('recrop')
        if new != self.crop:
            self.ctx.observe('crop_after_mask', self.mask is not None)
        upd = bool(rng.integers(2))
        num = rng.choice([int, np.int64, float])
        kw = {s: num(new[s]) for s in sides}
        if upd:
            kw['update_homog_points'] = True
        self.m.set_crop(**kw)
        if upd:
            d = (self.crop['left'] - new['left'], self.crop['top'] -
                 new['top'])
            self.points = [(x + d[0], y + d[1]) for x, y in self.points]
        self.crop = new
        self.log.append(['crop', kw])

    def set_mask(self):
        rng = self.rng
        if rng.random() < .2:
            self.m.data.generate('mask', mask=None)
            self.mask = None
            self.log.append(['mask off'])
            return
        d = int(rng.choice([0, 0, 1, 2, 3, 5, 8]))
        if rng.random() < .3:
            v = np.ma.getdata(self.m.data.max_shear)
            mask = v > np.quantile(v, .9)
        else:
            mask = rng.random(self.shape) < rng.choice([.05, .3])
        keep = mask.copy()
        kw = {'dilation': d} if d or rng.integers(2) else {}
        if rng.random() < .1:
            bad = np.zeros((self.shape[0] + 1, self.shape[1]), bool)
            with self.ctx.raises(ValueError, 'refuse_mask'):
                self.m.data.generate(
                    'mask', mask=[bad, mask.tolist()][rng.integers(2)])
        if rng.integers(2):
            self.m.data.generate('mask', mask=mask, **kw)
        else:
            self.m.calc_mask(mask=mask, **kw)
        self.ctx.equal(mask, keep, 'mask_argument')
        full = np.zeros(self.full_shape, bool)
        self.window(full)[...] = dilate(mask, d) if d else mask
        self.mask = full
        self.log.append(['mask', d, int(mask.sum())])

    def add_user(self):
        rng = self.rng
        name = f'user{self.n}'
        self.n += 1
        k = int(rng.choice([1, 1, 2, 3]))
        lead = (2,) * int(rng.integers(0, 3))
        h, w = self.full_shape
        a = rng.random(lead + (h * k, w * k))
        if rng.integers(2):
            a = np.where(a < .4, 0, np.where(a > .8, np.nan, a))
        kw = {}
        masked = k == 1
        if k > 1:
            kw['binning'] = k
            kw['apply_mask'] = False
        elif rng.random() < .3:
            kw['apply_mask'] = masked = False
        self.m.data.add(name, a.copy(), type='map', order=len(lead), **kw)
        self.maps[name] = (a, k, masked)
        self.log.append(['add', name, k, masked])

    def set_pattern(self):
        rng = self.rng
        k = int(rng.choice([1, 2, 3]))
        h, w = self.full_shape
        img = rng.integers(0, 256, (h * k, w * k)).astype('uint8')
        import matplotlib.image
        from PIL import Image
        path = build.scratch_file(self.ctx.scratch, '.png')
        Image.fromarray(img).save(path)
        self.m.set_pattern(path, k)
        self.maps['pattern'] = (img.astype('float32') / np.float32(255), k,
                                False)
        self.log.append(['pattern', k])

    def set_points(self):
        n = int(self.rng.integers(0, 5))
        self.points = [tuple(int(v) for v in self.rng.integers(0, 30, 2))
                       for _ in range(n)]
        self.m.frame.set_homog_points(list(self.points))
        self.log.append(['points', n])

    # ---- observation ----
    def observe(self):
        m, ctx = self.m, self.ctx
        ctx.check(tuple(m.shape) == self.shape and m.x_dim == self.shape[1]
                  and m.y_dim == self.shape[0], 'shape', log=self.log,
                  got=m.shape)
        for name, (full, k, masked) in self.maps.items():
            got = m.data[name]
            want = self.window(full, k)
            det = dict(name=name, log=self.log, crop=self.crop)
            ctx.observe('binned', k > 1)
            ctx.close(np.ma.getdata(got), want, 'window',
                      atol=1e-7 if name == 'pattern' else 0, **det)
            mk = np.ma.getmaskarray(got)
            if masked and self.mask is not None:
                ctx.equal(mk, np.broadcast_to(self.window(self.mask),
                                              got.shape), 'mask', **det)
            else:
                ctx.check(not mk.any(), 'unmasked', **det)
        if self.mask is None:
            ctx.check(m.data.mask is None, 'mask_off', log=self.log)
        else:
            ctx.equal(np.asarray(m.data.mask), self.window(self.mask),
                      'mask_image', log=self.log)
        ctx.check([tuple(int(v) for v in p) for p in m.frame.homog_points] ==
                  self.points, 'homog', log=self.log,
                  got=m.frame.homog_points, want=self.points)


def s_history(ctx, rng, i):
    s = Model(ctx, rng, {3: True, 13: False}.get(i % 20))
    for _ in range(int(rng.integers(6, 18))):
        op = rng.choice(['crop', 'crop', 'crop', 'mask', 'mask', 'user',
                         'pattern', 'points'])
        {'crop': s.set_crop, 'mask': s.set_mask, 'user': s.add_user,
         'pattern': s.set_pattern, 'points': s.set_points}[op]()
        ctx.describe(distinct=[s.full_shape, s.log], shape=s.full_shape,
                     log=s.log)
        if rng.random() < .6:
            s.observe()
    s.observe()
    # undo everything: nothing was lost
    s.m.set_crop(left=0, right=0, top=0, bottom=0)
    s.m.data.generate('mask', mask=None)
    s.mask = None
    s.crop = dict(left=0, right=0, top=0, bottom=0)
    s.points = [tuple(p) for p in s.m.frame.homog_points]
    s.log.append(['undo'])
    s.observe()


def s_grains(ctx, rng, i):
    """Grains are found in, and grain data read from, the current window."""
    spec = build.ebsd_spec(rng, shape=(int(rng.integers(14, 24)),
                                       int(rng.integers(14, 24))),
                           min_cells=4, nonindexed='none', noise=0.,
                           phases=[build.cubic_phase()])
    em = build.ebsd_map(spec)
    em.data.generate('grains', min_grain_size=1)
    m = build.dic_map(ctx.scratch, build.smooth_disp(rng, spec.shape))
    h, w = spec.shape
    pts = [(0, 0), (w - 1, 0), (0, h - 1), (w - 1, h - 1), (w // 2, h // 3)]
    build.link(m, em, pts, pts)
    full = np.array(m.data.max_shear)
    log = []
    for step in range(4):
        new = {s: int(v) for s, v in zip(('left', 'right', 'top', 'bottom'),
                                         rng.integers(0, 5, 4))}
        if step and rng.random() < .7:
            new = {s: new[s] for s in rng.permutation(list(new))[
                :rng.integers(1, 3)]}
        c = {**c, **new} if step else new
        if step and len(m):
            m.sel_grain = sel = m[int(rng.integers(len(m)))]
        else:
            sel = None
        before = m.crop_dists.copy()
        m.set_crop(update_homog_points=True, **new)
        log.append(new)
        ctx.describe(distinct=[spec.shape, log, i], shape=spec.shape, log=log)
        # the selected grain is one of the map's grains or none is selected
        if sel is not None:
            ctx.observe('crop_with_selection')
            ctx.check(m.sel_grain is None or any(m.sel_grain is g for g in m),
                      'selection', log=log,
                      changed=bool((m.crop_dists != before).any()))
        ctx.observe('grain_crops', step > 0)
        win = full[c['top']:h - c['bottom'], c['left']:w - c['right']]
        alg = rng.choice(['warp', 'default'])
        if alg == 'warp' or rng.integers(2):
            m.data.generate('grains', min_grain_size=1,
                            algorithm='warp' if alg == 'warp' else
                            'floodfill')
        g = np.asarray(m.data.grains)
        ctx.check(g.shape == tuple(m.shape) == win.shape, 'grain_image_shape',
                  got=g.shape, want=win.shape, log=log)
        for grain in m:
            p = np.asarray(grain.data.point)
            ctx.check(np.all(g[p[:, 1], p[:, 0]] == grain.grain_id + 1),
                      'grain_points', log=log)
            ctx.equal(np.ma.getdata(grain.data.max_shear),
                      win[p[:, 1], p[:, 0]], 'grain_values', log=log)
        prox = m.data.proxigram if len(m.data.grain_boundaries.points) else win
        ctx.check(np.asarray(prox).shape == win.shape, 'proxigram_shape',
                  log=log)


STREAMS = [Stream('history', 120, 4000, s_history),
           Stream('grains', 14, 400, s_grains)]
