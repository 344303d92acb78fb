"""C34: histograms and summary tables describe exactly the data given."""
import contextlib
import io
import re

import matplotlib.pyplot as plt
import numpy as np

from vt import build, gui
from vt.core import Stream
from defdap import plotting

PROPERTY = 'C34'
RULE = ('data of any shape with masked, NaN and infinite points, bin numbers, '
        'ranges given or not, all plot and axis types, several series per '
        'plot; cropped and masked DIC maps with user data of order 0 to 2; '
        'distinct by data and options')
ASSUMPTIONS = ['bins hold lower <= value < upper, the last one its upper end',
               'points of logarithmic scatter histograms are inside their '
               'bin', 'percentiles interpolate linearly']
REQUIRE = {'verdict:counts': 200, 'verdict:edges': 200, 'masked': 40,
           'nans': 40, 'no_range': 40, 'log_bins': 40, 'integers': 20,
           'second_series': 30, 'verdict:label': 40, 'verdict:percentile':
           200, 'verdict:components': 40, 'verdict:header': 40,
           'verdict:refused': 60, 'masked_map': 15, 'cropped_map': 15,
           'verdict:unchanged': 60, 'density': 60}


def setup(ctx):
    gui.no_rendering()


def data(ctx, rng, log):
    shape = [(int(rng.integers(1, 300)),), (int(rng.integers(1, 20)),) * 2,
             (2, 2, int(rng.integers(1, 12)), 7)][rng.integers(3)]
    kind = str(rng.choice(['normal', 'skew', 'integers', 'narrow']))
    if kind == 'integers':
        a = rng.integers(1, 12, shape).astype(rng.choice(
            ['int64', 'float64', 'uint8', 'float32']))
        ctx.observe('integers')
    elif kind == 'normal':
        a = rng.normal(rng.normal() * 3, 1, shape)
    elif kind == 'skew':
        a = 10 ** rng.uniform(-4, 2, shape)
    else:
        a = 5 + 1e-5 * rng.random(shape)
    if log and rng.integers(2):
        a = np.abs(a) + (a == 0).astype(a.dtype)
    if kind != 'narrow' and rng.random() < .25:
        a[rng.random(shape) < .3] = 0
        ctx.observe('zeros')
    if a.dtype.kind == 'f' and rng.random() < .4:
        a[rng.random(shape) < .2] = np.nan
        ctx.observe('nans')
        if rng.integers(2):
            a[rng.random(shape) < .1] = rng.choice([np.inf, -np.inf])
    given = a
    if rng.random() < .4:
        given = np.ma.array(a, mask=rng.random(shape) < .3)
        ctx.observe('masked')
    elif rng.random() < .3:
        given = a.tolist()
    vals = np.ma.compressed(given).astype(float)
    return given, vals[~np.isnan(vals)], kind


def s_hist(ctx, rng, i):
    kind = ['scatter', 'bar', 'step'][i % 3]
    axes = ['linear', 'logx', 'logy', 'loglog'][i // 3 % 4]
    axes_in = axes if rng.integers(2) else axes.upper()
    density = bool(rng.integers(2))
    if rng.random() < .3:
        density = np.bool_(density) if rng.integers(2) else int(density)
    logx = axes in ('logx', 'loglog')
    plot = None
    labels = []
    ctx.describe(distinct=[kind, axes, density, i], type=kind, axes=axes)
    for series in range(int(rng.integers(1, 4))):
        given, vals, what = data(ctx, rng, logx)
        fin = vals[np.isfinite(vals)]
        if logx:
            fin = fin[fin > 0]
        if not len(fin):
            continue
        bins = int(rng.integers(1, 30))
        rg = None
        if rng.integers(2):
            if what == 'integers' and not logx:
                a = int(rng.integers(0, 6))
                rg = (a, a + int(rng.integers(1, 8)))
                if rng.integers(2):
                    bins = rg[1] - rg[0]
            else:
                lo, hi = fin.min(), fin.max()
                w = (hi - lo) or 1.
                rg = (lo + w * rng.uniform(-.3, .4),
                      hi - w * rng.uniform(-.3, .4))
                if logx:
                    rg = (lo * rng.uniform(.3, 1.2), hi * rng.uniform(1.3, 2))
        else:
            ctx.observe('no_range')
            if fin.min() == fin.max():
                continue             # no interval to divide
        lo, hi = rg if rg is not None else (fin.min(), fin.max())
        if logx:
            ctx.observe('log_bins')
            edges = lo * (hi / lo) ** (np.arange(bins + 1) / bins)
        else:
            edges = lo + (hi - lo) * np.arange(bins + 1) / bins
        edges[0], edges[-1] = lo, hi
        # the bin of values closer than rounding to an inner edge is not
        # judged, unless edges are whole numbers and hence exact
        exact = not logx and np.all(edges == np.round(edges)) and \
            what == 'integers'
        rel = 1e-5 if getattr(given, 'dtype', None) == np.float32 else 1e-9
        tol = 0 if exact else rel * max(abs(lo), abs(hi))
        certain = np.array([
            np.sum((vals > a + tol) & (vals < b - tol)) for a, b in
            zip(edges[:-1], edges[1:])])
        most = np.array([
            np.sum((vals >= a - tol) & (vals <= b + tol)) for a, b in
            zip(edges[:-1], edges[1:])])
        total = np.sum((vals >= lo) & (vals <= hi))
        if exact:
            certain = most = np.array([
                np.sum((vals >= a) & (vals < b) | (k == bins - 1) &
                       (vals == b)) for k, (a, b) in
                enumerate(zip(edges[:-1], edges[1:]))])
        if not total:
            continue
        keep = np.ma.array(given, copy=True) if isinstance(
            given, np.ma.MaskedArray) else np.array(given)
        lab = f's{series}' if rng.integers(2) else None
        kw = {}
        if rng.integers(2) and kind == 'scatter':
            kw['line'] = str(rng.choice(['o', '-', 'x-']))
        if plot is None or rng.integers(2):
            first = plot is None
            p = plotting.HistPlot.create(
                given, plot=plot, plot_type=kind, axes_type=axes_in,
                density=density, bins=bins, range=rg, label=lab, **kw)
            ctx.check(first or p is plot, 'same_plot')
            plot = p
            if first:
                first_lines, first_patches = 0, 0
        else:
            plot.add_hist(given, bins=bins, range=rg, label=lab, **kw)
        if series:
            ctx.observe('second_series')
        labels += [lab] if lab else []
        ctx.check(np.array_equal(np.ma.filled(np.ma.asarray(keep), 7),
                                 np.ma.filled(np.ma.asarray(given), 7),
                                 equal_nan=True) if
                  np.asarray(keep).dtype.kind == 'f' else
                  np.array_equal(np.ma.filled(keep, 7),
                                 np.ma.filled(np.ma.asarray(given), 7)),
                  'unchanged')
        ax = plot.ax
        width = np.diff(edges)
        if kind == 'scatter':
            ln = ax.lines[-1]
            ctx.check(len(ax.lines) == first_lines + 1, 'series')
            first_lines += 1
            x, y = ln.get_xdata(), ln.get_ydata()
            ctx.check(len(x) == len(y) == bins, 'edges', n=len(x), want=bins)
            slack = rel * max(abs(lo), abs(hi))
            ctx.check(np.all((x >= edges[:-1] - slack) &
                             (x <= edges[1:] + slack)), 'edges', got=x,
                      want=edges)
            if not logx:
                ctx.close(x, (edges[1:] + edges[:-1]) / 2, 'edges',
                          atol=slack)
        elif kind == 'bar':
            rects = ax.patches[first_patches:]
            first_patches += len(rects)
            ctx.check(len(rects) == bins, 'edges', n=len(rects), want=bins)
            left = np.array([r.get_x() for r in rects])
            right = left + [r.get_width() for r in rects]
            ctx.close(left, edges[:-1], 'edges', rtol=100 * rel, atol=1e-9)
            ctx.close(right, edges[1:], 'edges', rtol=100 * rel, atol=1e-9)
            y = np.array([r.get_height() for r in rects])
        else:
            polys = ax.patches[first_patches:]
            first_patches += len(polys)
            ctx.check(len(polys) == 1, 'series')
            xy = polys[0].get_xy()
            ctx.close([xy[:, 0].min(), xy[:, 0].max()], [lo, hi], 'edges',
                      rtol=100 * rel, atol=1e-9)
            # closed or open outline: level of the steps between the edges
            mids = np.sqrt(edges[1:] * edges[:-1]) if logx else \
                (edges[1:] + edges[:-1]) / 2
            y = []
            for a in mids:
                ks = [k for k in range(len(xy) - 1)
                      if xy[k, 1] == xy[k + 1, 1] and
                      xy[k, 0] < a < xy[k + 1, 0]]
                ctx.check(len(ks) == 1, 'edges', want=edges, got=xy)
                y.append(xy[ks[0], 1])
            y = np.array(y)
        y = np.asarray(y, float)
        if density:
            ctx.observe('density')
            ctx.close((y * width).sum(), 1., 'counts', atol=1e3 * rel)
            n = y * width * total
        else:
            n = y
        n_int = np.round(n)
        ctx.check(np.abs(n - n_int).max() < max(1e-4, 100 * rel) * max(
            1, n_int.max()),
                  'counts', got=n)
        ctx.check(np.all(n_int >= certain) and np.all(n_int <= most) and
                  n_int.sum() == total, 'counts', got=n_int, least=certain,
                  most=most, total=total, density=density)
    if plot is None:
        return
    ctx.check(plot.ax.get_xscale() == ('log' if logx else 'linear') and
              plot.ax.get_yscale() == ('log' if axes in ('logy', 'loglog')
                                       else 'linear'), 'axes')
    ctx.check(plot.ax.get_ylabel() == ('Normalised frequency' if density
                                       else 'Frequency'), 'label')
    if labels:
        plot.add_legend()
        ctx.check([t.get_text() for t in plot.ax.get_legend().get_texts()] ==
                  labels, 'label')
    with ctx.raises(ValueError, 'refused'):
        plotting.HistPlot.create([1., 2.], plot_type='bars')
    with ctx.raises(ValueError, 'refused'):
        plotting.HistPlot.create([1., 2.], axes_type='logz')
    gui.close()


def percentile(v, p):
    v = np.sort(v)
    k = (len(v) - 1) * p / 100
    a = int(np.floor(k))
    b = min(a + 1, len(v) - 1)
    return v[a] + (v[b] - v[a]) * (k - a)


def s_table(ctx, rng, i):
    shape = tuple(int(v) for v in rng.integers(4, 16, 2))
    b = int(rng.choice([2, 8, 12]))
    m = build.dic_map(ctx.scratch, build.smooth_disp(rng, shape), b)
    full = {}
    for order, name in enumerate(['mine', 'vec', 'tens']):
        a = rng.normal(size=(2, 3)[:order] + shape) * 10 ** rng.uniform(-1, 2)
        if rng.integers(2):
            a[rng.random(a.shape) < .1] = np.nan
        m.data.add(name, a, type='map', order=order)
        full[name] = a
    mask = np.zeros(shape, bool)
    win = (slice(None), slice(None))
    for op in rng.permutation(2):
        if op == 0 and rng.integers(2):
            t, bt, l, r = (int(v) for v in rng.integers(0, 3, 4))
            bt = min(bt, shape[0] - t - 1)
            r = min(r, shape[1] - l - 1)
            m.set_crop(top=t, bottom=bt, left=l, right=r)
            win = (slice(t, shape[0] - bt), slice(l, shape[1] - r))
            ctx.observe('cropped_map')
        elif op == 1 and rng.random() < .7:
            mk = rng.random(mask[win].shape) < .3
            m.calc_mask(mask=mk)
            mask[win] = mk
            ctx.observe('masked_map')
    h, w = mask[win].shape
    ctx.check(m.shape == (h, w), 'shape')
    ctx.describe(distinct=['table', i], shape=shape, masked=bool(mask.any()))
    names = [str(n) for n in rng.permutation(
        ['mine', 'vec', 'tens', 'e', 'f', 'max_shear', 'displacement'])]
    names = names[:int(rng.integers(1, 6))]
    pers = [float(p) for p in rng.choice([0, 1, 5, 25, 50, 75, 99, 99.9, 100],
                                         int(rng.integers(1, 5)),
                                         replace=False)]
    if rng.integers(2):
        pers.append(round(float(rng.uniform(0, 100)), 2))
    want = []
    ok = ~mask[win]
    for n in names:
        a = full[n][(Ellipsis,) + win] if n in full else \
            np.ma.getdata(m.data[n])
        for idx in np.ndindex(a.shape[:-2]):
            v = np.asarray(a[idx])[ok]
            v = v[~np.isnan(v)]
            want.append((n + ''.join(str(k + 1) for k in idx),
                         [percentile(v, p) for p in pers] if len(v) else None))
    if any(r is None for _, r in want):
        return
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        my_map = m
        my_map.print_stats_table(pers if rng.integers(2) else tuple(pers),
                                 names)
    text = re.sub('\033\\[[0-9]+m', '', out.getvalue())
    lines = [ln for ln in text.splitlines() if ln.strip()]
    head = re.search(r'(\d+) x (\d+) pixels, sub-window size: (\S+) x (\S+) '
                     r'pixels, number of points: (\d+)', lines[0])
    ctx.check(head and [float(v) for v in head.groups()] ==
              [w, h, b, b, w * h], 'header', got=lines[0])
    cols = lines[1].split()
    ctx.check(cols[0] == 'Component' and [float(v) for v in cols[1:]] == pers,
              'header', got=lines[1])
    ctx.check(len(lines) - 2 == len(want), 'components', got=lines[2:],
              want=[r[0] for r in want])
    for ln, (name, vals) in zip(lines[2:], want):
        cells = ln.split()
        ctx.check(cells[0] == name, 'components', got=cells[0], want=name)
        ctx.close([float(v) for v in cells[1:]], vals, 'percentile',
                  atol=1.01e-4 / 2 + 1e-9, line=ln)
    for bad in (['nothing'], names + ['nope']):
        with ctx.raises(Exception, 'refused'):
            m.print_stats_table([50], bad)
    # histograms of the same data leave the same points out
    n = str(rng.choice(['mine', 'max_shear']))
    a = full[n][win] if n in full else np.ma.getdata(m.data[n])
    v = np.asarray(a)[ok]
    v = v[~np.isnan(v)]
    p = plotting.HistPlot.create(m.data[n], density=False, bins=7)
    if v.min() < v.max():
        ctx.check(p.ax.lines[-1].get_ydata().sum() == len(v), 'counts')
    gui.close()


STREAMS = [
    Stream('hist', 240, 6000, s_hist),
    Stream('table', 100, 3000, s_table),
]
