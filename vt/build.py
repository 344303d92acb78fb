"""Synthetic maps driven through DefDAP's public constructors."""
import os

import numpy as np

from vt import ref


def cubic_phase(name='fcc', sg=225):
    from defdap.crystal import Phase
    return Phase(name, 11, sg, (3.6, 3.6, 3.6) + (np.pi / 2,) * 3)


def hex_phase(name='hcp', ca=1.587, sg=194):
    from defdap.crystal import Phase
    a = 2.95
    return Phase(name, 9, sg, (a, a, a * ca, np.pi / 2, np.pi / 2,
                                2 * np.pi / 3))


def voronoi(rng, shape, n):
    """Label image of n cells (some may be empty), possibly disconnected
    after noise."""
    ys, xs = np.mgrid[:shape[0], :shape[1]]
    sy = rng.uniform(0, shape[0], n)
    sx = rng.uniform(0, shape[1], n)
    d = (ys[..., None] - sy) ** 2 + (xs[..., None] - sx) ** 2
    return d.argmin(-1)


def label_pattern(rng, shape):
    """Hostile label images: cells, stripes, checkerboards, spirals, noise."""
    h, w = shape
    kind = rng.choice(['voronoi', 'voronoi', 'voronoi', 'stripes', 'checker',
                       'spiral', 'noise', 'single', 'rings', 'touch', 'specks'])
    if kind == 'voronoi':
        lab = voronoi(rng, shape, int(rng.integers(1, 9)))
    elif kind == 'stripes':
        ax = rng.integers(2)
        t = int(rng.integers(1, 5))
        idx = np.indices(shape)[ax] // t
        lab = idx % int(rng.integers(2, 5))
    elif kind == 'checker':
        t = int(rng.integers(1, 4))
        i, j = np.indices(shape)
        lab = ((i // t) + (j // t)) % 2
    elif kind == 'spiral':
        lab = np.zeros(shape, int)
        t, l, b, r = 0, 0, h - 1, w - 1
        k = 0
        y, x, d = 0, 0, 0
        step = [(0, 1), (1, 0), (0, -1), (-1, 0)]
        vis = np.zeros(shape, bool)
        for n in range(h * w // 2):
            lab[y, x] = 1
            vis[y, x] = True
            moved = False
            for turn in range(2):
                dy, dx = step[d % 4]
                ny, nx = y + dy, x + dx
                ny2, nx2 = y + 2 * dy, x + 2 * dx
                if (0 <= ny < h and 0 <= nx < w and not vis[ny, nx] and not (
                        0 <= ny2 < h and 0 <= nx2 < w and vis[ny2, nx2])):
                    y, x = ny, nx
                    moved = True
                    break
                d += 1
            if not moved:
                break
    elif kind == 'noise':
        lab = rng.integers(0, int(rng.integers(2, 5)), shape)
    elif kind == 'single':
        lab = np.zeros(shape, int)
    elif kind == 'rings':
        i, j = np.indices(shape)
        r = np.hypot(i - h / 2, j - w / 2)
        lab = (r // rng.uniform(1.5, 4)).astype(int) % 3
    elif kind == 'touch':     # diagonal contact only
        lab = np.zeros(shape, int)
        y, x = h // 2, w // 2
        lab[:y, :x] = 1
        lab[y:, x:] = 1
    else:                     # specks
        lab = voronoi(rng, shape, int(rng.integers(2, 5)))
        m = rng.random(shape) < 0.08
        lab = np.where(m, lab.max() + 1 + rng.integers(0, 2, shape), lab)
    return lab.astype(int), str(kind)


class Spec:
    """Everything that went into an EBSD map (the ground truth)."""


def long_shape(rng, least=258, most=600):
    """More points along one side than an 8 bit index counts."""
    shape = (int(rng.integers(2, 6)), int(rng.integers(least, most)))
    return shape if rng.random() < .5 else shape[::-1]


def ebsd_spec(rng, shape=None, kind=None, phases=None, noise=None,
              nonindexed=None, min_cells=None, max_dim=26, multi=None):
    s = Spec()
    if shape is None:
        shape = (int(rng.integers(2, max_dim)), int(rng.integers(2, max_dim)))
    s.shape = tuple(int(v) for v in shape)
    if min_cells:
        s.labels = voronoi(rng, s.shape, int(min_cells))
        s.kind = 'voronoi'
    else:
        s.labels, s.kind = label_pattern(rng, s.shape)
    n = int(s.labels.max()) + 1
    if phases is None:
        choice = rng.integers(4) if multi is None else (2 if multi else
                                                         rng.integers(2))
        phases = [[cubic_phase()], [hex_phase()],
                  [cubic_phase('c'), hex_phase('h')],
                  [hex_phase('h'), cubic_phase('b', 229)]][choice]
    s.phases = phases
    s.cell_phase = rng.integers(1, len(phases) + 1, n)
    if nonindexed is None:
        nonindexed = rng.choice(['none', 'none', 'points', 'cell'])
    s.phase = s.cell_phase[s.labels].astype(rng.choice(
        np.array(['uint8', 'int64', 'int32'])))
    if nonindexed == 'points':
        s.phase[rng.random(s.shape) < rng.uniform(0.01, 0.2)] = 0
    elif nonindexed == 'cell' and n > 1:
        s.phase[s.labels == rng.integers(n)] = 0
    s.nonindexed = str(nonindexed)
    base = ref.random_eulers(rng, n)
    # some cells are tiny rotations of others: low-angle boundaries
    for k in range(1, n):
        if rng.random() < 0.4:
            ax = rng.normal(size=3)
            g = ref.rodrigues(ax, np.deg2rad(rng.choice(
                [1., 4., 8., 12., 20.]))) @ ref.bunge(
                *base[:, rng.integers(k)])
            base[:, k] = ref.mat_to_eulers(g)
    s.base = base
    if noise is None:
        noise = rng.choice([0., 0., 0.5, 2.])
    s.noise = float(noise)
    e = base[:, s.labels].copy()
    if noise:
        g = ref.bunge_many(e)
        ax = rng.normal(size=s.shape + (3,))
        ang = np.deg2rad(noise) * rng.random(s.shape)
        for idx in np.ndindex(s.shape):
            g[idx] = ref.rodrigues(ax[idx], ang[idx]) @ g[idx]
        e = ref.mat_to_eulers(g)
    e[:, s.phase == 0] = 0
    s.euler = e
    s.bc = rng.integers(0, 256, s.shape).astype('uint8')
    s.step = float(rng.choice([0.05, 0.12, 0.5, 1., 2.5]))
    return s


def ebsd_dict(s):
    return {'step_size': s.step, 'phases': list(s.phases),
            'phase': s.phase.copy(), 'euler_angle': s.euler.copy(),
            'band_contrast': s.bc.copy()}


def ebsd_map(s, **kw):
    """Map from arrays, through the PythonDict loader."""
    from defdap import ebsd
    from defdap.experiment import Experiment
    # do not pile up maps in the global default experiment
    kw.setdefault('experiment', Experiment())
    return ebsd.Map(ebsd_dict(s), data_type='PythonDict', **kw)


# ---- DIC ------------------------------------------------------------------
_count = [0]


def scratch_file(scratch, suffix):
    _count[0] += 1
    return os.path.join(scratch, f'f{_count[0]}{suffix}')


def dic_coords(shape, binning, origin=None):
    """Coordinates of the sub-window centres, as DaVis writes them."""
    if origin is None:
        origin = (binning // 2, binning // 2)
    x = origin[0] + binning * np.arange(shape[1])
    y = origin[1] + binning * np.arange(shape[0])
    return np.array(np.meshgrid(x, y), float)


def write_davis(path, coords, disp, binning, version='8.4.0', shape=None):
    h, w = coords.shape[1:] if shape is None else shape
    with open(path, 'w') as f:
        f.write(f'#DaVis {version} 2D-vector {binning} {h} {w} "" "pixel" '
                f'"" "pixel"\n')
        for j in range(coords.shape[1]):
            for i in range(coords.shape[2]):
                f.write('%r\t%r\t%r\t%r\n' % (
                    float(coords[0, j, i]), float(coords[1, j, i]),
                    float(disp[0, j, i]), float(disp[1, j, i])))
    return path


def dic_map(scratch, disp, binning=8, **kw):
    """DIC map with the given displacement (2, h, w), through a DaVis file."""
    from defdap import hrdic
    from defdap.experiment import Experiment
    kw.setdefault('experiment', Experiment())
    disp = np.asarray(disp, float)
    path = write_davis(scratch_file(scratch, '.txt'),
                       dic_coords(disp.shape[1:], binning), disp, binning)
    try:
        return hrdic.Map(path, **kw)
    finally:
        os.remove(path)


def smooth_disp(rng, shape, amp=.5):
    y, x = np.mgrid[:shape[0], :shape[1]].astype(float)
    d = np.zeros((2,) + tuple(shape))
    for c in range(2):
        for _ in range(3):
            kx, ky = rng.normal(size=2) * .5
            d[c] += amp * rng.normal() * np.sin(kx * x + ky * y +
                                                rng.uniform(0, 6))
    return d + rng.normal(0, .01, d.shape)


def block_labels(rows, cols, size):
    """Labels of a chequer of square cells."""
    y, x = np.mgrid[:rows * size, :cols * size]
    return y // size * cols + x // size


def link(dic, em, e_points, d_points, transform_type='affine', **kw):
    em.frame.set_homog_points([tuple(p) for p in e_points])
    dic.frame.set_homog_points([tuple(p) for p in d_points])
    dic.link_ebsd_map(em, transform_type=transform_type, **kw)
