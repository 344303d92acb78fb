"""C29: analysis and plotting never change the data they read."""
import hashlib
import os

import matplotlib as mpl
import matplotlib.pyplot as plt
import numpy as np

from vt import build, gui, ref
from vt.core import Stream
import defdap
from defdap import crystal, ebsd, plotting
from defdap.quat import Quat

PROPERTY = 'C29'
RULE = ('random sequences of every analysis, lookup and plotting operation on '
        'an EBSD map and a linked DIC map, each later repeated in another '
        'order; everything stored compared after every operation; distinct '
        'by map and sequence')
ASSUMPTIONS = ['operations whose purpose is to change a map (crop, scale, '
               'links, filter, rotation, regeneration of grains, load '
               'direction of Schmid factors) are not part of the sequences',
               'the cosines of a repeated calculation agree exactly']
REQUIRE = {'verdict:unchanged': 2500, 'verdict:repeat': 150,
           'verdict:arguments': 60, 'verdict:globals': 200, 'ops': 300,
           'distinct_ops': 40}


def setup(ctx):
    gui.no_rendering()


# ---- what a value is -------------------------------------------------------

def plain(o, depth=0):
    """Comparable copy of any result."""
    if depth > 7:
        return '...'
    if isinstance(o, Quat):
        return ('q',) + tuple(float(v) for v in o.quat_coef)
    if isinstance(o, np.ma.MaskedArray):
        return ('m', plain(np.asarray(o.filled(np.nan) if o.dtype.kind == 'f'
                                      else o.filled(0)), depth),
                plain(np.ma.getmaskarray(o), depth))
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ('o', o.shape, tuple(plain(v, depth + 1) for v in o.flat))
        return ('a', o.shape, str(o.dtype), hashlib.md5(
            np.ascontiguousarray(o).tobytes()).hexdigest())
    if isinstance(o, (float, np.floating)):
        return ('f', repr(float(o)))
    if isinstance(o, (int, np.integer, bool, str, bytes, type(None))):
        return (str(type(o).__name__), o)
    if isinstance(o, (set, frozenset)):
        return ('s', tuple(sorted(repr(plain(v, depth + 1)) for v in o)))
    if isinstance(o, dict):
        return ('d', tuple((repr(k), plain(v, depth + 1))
                           for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(plain(v, depth + 1) for v in o))
    if isinstance(o, plotting.PolePlot):
        return ('pole', plain([(np.asarray(c.get_offsets()),
                                None if c.get_array() is None else
                                np.asarray(c.get_array()))
                               for c in o.img_layers], depth))
    if isinstance(o, plotting.Plot) and hasattr(o, 'img_layers'):
        out = []
        for lay in o.img_layers:
            if hasattr(lay, 'get_segments'):
                out.append([np.asarray(s) for s in lay.get_segments()])
            else:
                out.append(np.ma.asarray(lay.get_array()))
        lines = [np.asarray(ln.get_xydata()) for ln in o.ax.lines]
        quiv = [np.stack([c.U, c.V]) for c in o.ax.collections
                if hasattr(c, 'U')]
        return ('plot', plain(out, depth), plain(lines, depth),
                plain(quiv, depth), plain([t.get_text() for t in o.ax.texts]))
    if isinstance(o, plotting.Plot):
        # (projected) outlines; 3D collections pad faces with uninitialised
        # vertices, so only the valid ones are looked at
        polys = [_faces(c) for c in o.ax.collections]
        return ('draw', plain(polys, depth), plain(
            [np.asarray(ln.get_xydata()) for ln in o.ax.lines], depth),
            plain([np.asarray(q.get_xy()) for q in o.ax.patches], depth))
    if hasattr(o, 'points_x'):
        return ('eb', plain(set(map(tuple, o.points_x)), depth),
                plain(set(map(tuple, o.points_y)), depth))
    if hasattr(o, 'lines') and hasattr(o, 'points'):
        return ('db', plain(set(map(tuple, o.points)), depth),
                plain([np.asarray(v, float) for v in o.lines], depth))
    if hasattr(o, 'grain_id'):
        return ('grain', o.grain_id)
    if hasattr(o, 'plane_mb') or hasattr(o, 'plane_idc'):
        return ('slip', repr(o), plain(np.asarray(o.slip_plane, float)),
                plain(np.asarray(o.slip_dir, float)))
    return ('?', type(o).__name__)


def _faces(c):
    f = getattr(c, '_faces', None)
    if f is None:
        return [np.asarray(p.vertices) for p in c.get_paths()]
    bad = getattr(c, '_invalid_vertices', False)
    f = np.asarray(f)
    if bad is False:
        return f
    return [face[~b] for face, b in zip(f, bad)]


def store(s, pre):
    out = {}
    # without it only what the public names give is compared
    for k, item in getattr(s, '_store', {}).items():
        if item.get('data') is not None:
            out[pre + k] = plain(item['data'])
        out[pre + k + '/meta'] = plain({a: b for a, b in item.items()
                                        if a != 'data'})
    return out


class World:
    def __init__(self, ctx, rng, dic):
        while True:
            self.spec = build.ebsd_spec(rng, max_dim=13)
            if min(self.spec.shape) < 4:
                continue
            self.given = build.ebsd_dict(self.spec)
            from defdap.experiment import Experiment
            self.e = ebsd.Map(self.given, data_type='PythonDict',
                              experiment=Experiment())
            self.e.data.generate('grains', min_grain_size=2)
            if len(self.e):
                break
        self.d = None
        self.scratch = ctx.scratch
        e = self.e
        e.calc_grain_av_oris()
        if dic:
            h, w = self.spec.shape
            m = build.dic_map(ctx.scratch, build.smooth_disp(
                rng, self.spec.shape), 4)
            pts = [(0, 0), (w - 1, 0), (0, h - 1), (w - 1, h - 1)]
            build.link(m, e, pts, pts)
            m.set_scale(.2)
            if rng.random() < .5:
                m.set_crop(left=1, bottom=1, update_homog_points=True)
            if rng.random() < .5:
                m.data.generate('mask', mask=rng.random(m.shape) < .1)
            m.data.generate('grains', algorithm='warp', min_grain_size=1)
            if len(m):
                self.d = m
        # data of the user, shown as asked when it was added
        for m in (self.e, self.d):
            if m is not None:
                m.data.add('mine', rng.normal(size=self.spec.shape),
                           type='map', order=0, plot_params={'cmap': 'gray'})
        self.args = []

    def arg(self, a):
        """An argument that must come back as it was."""
        self.args.append((a, plain(a)))
        return a

    def snapshot(self):
        out = store(self.e.data, 'e:')
        out.update({'given:' + k: plain(v) for k, v in self.given.items()
                    if k != 'phases'})
        for m, pre in ((self.e, 'e'), (self.d, 'd')):
            if m is None:
                continue
            out[pre + '.shape'] = plain(tuple(m.shape))
            out[pre + '.homog'] = plain(m.frame.homog_points)
            out[pre + '.scale'] = plain(m.scale)
            for g in m:
                p = f'{pre}g{g.grain_id}:'
                out.update(store(g.data, p))
        out['e.step'] = plain(self.e.step_size)
        for g in self.e:
            p = f'eg{g.grain_id}.'
            for a in ('ref_ori', 'mis_ori_list', 'mis_ori_axis_list',
                      'average_mis_ori', 'slip_trace_angles',
                      'slip_trace_inclinations'):
                v = getattr(g, '_' + a, None)
                v = getattr(g, a, None) if v is None else v
                if v is not None:
                    out[p + a] = plain(v)
        for k, p in enumerate(self.e.phases):
            out[f'phase{k}'] = plain([p.name, list(p.lattice_params),
                                      p.crystal_structure.name])
            if p.slip_systems is not None:
                out[f'slip{k}'] = plain(p.slip_systems)
        if self.d is not None:
            out.update(store(self.d.data, 'd:'))
            out['d.crop'] = plain(np.asarray(self.d.crop_dists))
            out['d.corr'] = plain(self.d.corrVal if hasattr(
                self.d, 'corrVal') else None)
        return out


def global_state():
    out = {'defaults': plain(dict(defdap.defaults)),
           'rc': plain({k: repr(v) for k, v in mpl.rcParams.items()
                        if k != 'interactive'}),
           'err': plain(np.geterr()), 'cwd': os.getcwd(),
           'rng': plain(np.random.get_state()[1])}
    for n, c in crystal.crystalStructures.items():
        out['struct' + n] = plain([[s for s in c.symmetries],
                                   np.asarray(c.vertices, float), c.faces])
    return out


# ---- operations ------------------------------------------------------------
# each returns its result, all choices from the generator only

def pickg(m, r):
    return m[int(r.integers(len(m)))]


def ids(m, r):
    if r.random() < .4:
        return -1
    return [int(v) for v in r.permutation(len(m))[:r.integers(1, len(m) + 1)]]


def o_access(w, r, m):
    names = ['orientation', 'grains', 'KAM', 'GND', 'Nye_tensor', 'phase',
             'euler_angle', 'band_contrast', 'grain_boundaries',
             'phase_boundaries', 'grain_boundaries'] if m is w.e else \
        ['max_shear', 'e', 'f', 'displacement', 'coordinate', 'mask', 'grains',
         'grain_boundaries', 'phase_boundaries']
    return m.data[str(r.choice(names))]


def o_names(w, r, m):
    return sorted(m.data), len(m.data), [
        m.data.get_metadata(k, 'type') for k in sorted(m.data)]


def o_plot_map(w, r, m):
    opts = [('orientation', 'IPF_x'), ('orientation', 'IPF_z'),
            ('euler_angle', 'all_euler'), ('euler_angle', (1,)),
            ('euler_angle', 'norm'), ('KAM', None), ('GND', None),
            ('Nye_tensor', (1, 2)), ('Nye_tensor', 'norm'), ('phase', None),
            ('band_contrast', None), ('mine', None)] if m is w.e else \
        [('max_shear', None), ('e', (0, 1)), ('e', 'norm'), ('f', (1, 1)),
         ('f', None), ('displacement', 'norm'), ('displacement', 0),
         ('grains', None), ('mine', None)]
    n, c = opts[r.integers(len(opts))]
    kw = w.arg({'plot_colour_bar': True, 'plot_gbs': [False, True, 'line'][
        r.integers(3)], 'vmin': 0, 'plot_scale_bar': bool(r.integers(2))})
    return m.plot_map(n, c, **kw)


def o_colours(w, r, m):
    bg = w.arg([np.array([1, 1, 1]), np.array([.1, .2, .3])][r.integers(2)])
    k = r.integers(5)
    if m is w.d:
        return m.plot_grain_av_max_shear()
    if k == 0:
        return m.plot_euler_map(bg_colour=bg)
    if k == 1:
        return m.plot_ipf_map(w.arg(r.normal(size=3)), bg_colour=bg)
    if k == 2:
        return m.plot_ipf_map(w.arg(np.array([1, 2, 0])), phases=w.arg([0]))
    if k == 3:
        return m.plot_phase_map()
    return m.plot_euler_map(phases=w.arg([0]), bg_colour=bg)


def o_bound_plots(w, r, m):
    if m is w.d:
        return m.plot_grain_numbers(dilate_boundaries=bool(r.integers(2)))
    k = r.integers(4)
    if k == 0:
        return m.plot_boundary_map()
    if k == 1:
        return m.plot_phase_boundary_map(dilate=bool(r.integers(2)))
    if k == 2:
        return m.plot_grain_numbers(dilate_boundaries=bool(r.integers(2)))
    return m.plot_grain_map(plot_gbs='line')


def o_mis_map(w, r, m):
    if m is w.d:
        return o_access(w, r, m)
    m.calc_grain_av_oris()
    return m.plot_mis_ori_map(int(r.integers(4)))


def o_data_map(w, r, m):
    i = ids(m, r)
    n = len(m) if i == -1 else len(i)
    k = r.integers(4)
    if k == 0:
        return m.plot_grain_data_map(map_data=w.arg(r.normal(
            size=tuple(m.shape))), grain_ids=w.arg(i), bg=np.nan)
    if k == 1:
        return m.plot_grain_data_map(grain_data=w.arg(r.random((n, 3))),
                                     grain_ids=w.arg(i))
    if k == 2:
        return m.grain_data_to_map_data(w.arg(r.normal(size=n).tolist()),
                                        grain_ids=w.arg(i), bg=-1)
    return m.calc_grain_average(w.arg(r.normal(size=tuple(m.shape))),
                                grain_ids=w.arg(i))


def o_data_ipf(w, r, m):
    if m is w.d:
        return o_access(w, r, m)
    i = ids(m, r)
    return m.plot_grain_data_ipf(
        w.arg(np.array([[0, 0, 1], [1, 0, 0]][r.integers(2)])),
        map_data=w.arg(r.normal(size=tuple(m.shape))), grain_ids=w.arg(i))


def o_to_map(w, r, m):
    name = 'euler_angle' if m is w.e else str(r.choice(['e', 'max_shear']))
    return m.grain_data_to_map(name)


def o_highlight(w, r, m):
    p = plotting.MapPlot.create(m, w.arg(r.normal(size=tuple(m.shape))))
    i = ids(m, r)
    p.add_grain_highlights(w.arg([0] if i == -1 else i),
                           w.arg([['red', 'blue'], None][r.integers(2)]))
    p.add_points(w.arg([1, 2]), w.arg([0., 1.]))
    p.add_grain_boundaries('pixel', dilate=True, colour='red')
    return p


def o_click(w, r, m):
    p = m.locate_grain()
    for _ in range(3):
        y, x = (int(r.integers(k)) for k in m.shape)
        gui.mouse(p.ax, x, y)
    return p


def o_profile(w, r, m):
    p = m.draw_line_profile()
    y, x = m.shape
    gui.drag(p.ax, *(r.uniform(0, 1, 4) * [x - 1, y - 1, x - 1, y - 1]))
    return [np.asarray(ln.get_xydata()) for ln in m.profile_plot.ax.lines]


def o_grain_data(w, r, m):
    g = pickg(m, r)
    names = ['orientation', 'KAM', 'euler_angle', 'phase', 'point'] \
        if m is w.e else ['e', 'max_shear', 'f', 'displacement', 'point']
    full = r.normal(size=tuple(m.shape))
    k = r.integers(6)
    if k == 0:
        return g.data[str(r.choice(names))]
    if k == 1:
        return g.grain_map_data(map_data=w.arg(full))
    if k == 2:
        return g.grain_map_data(grain_data=w.arg(r.normal(size=len(g))))
    if k == 3:
        return g.grain_map_data_coarse(map_data=w.arg(full), kernel_size=1)
    if k == 4:
        return [g.extreme_coords, g.centre_coords('com', False),
                g.grain_outline(), len(g), str(g)]
    return g.grain_data(w.arg(full))


def o_grain_plot(w, r, m):
    g = pickg(m, r)
    k = r.integers(6)
    if k == 0:
        return g.plot_outline()
    if k == 1:
        return g.plot_grain_data(map_data=w.arg(r.normal(
            size=tuple(m.shape))))
    if m is w.d:
        if k == 2:
            return g.plot_map('e', [(0, 1), (1, 1), 'norm'][r.integers(3)],
                              plot_slip_traces=False)
        if k == 3:
            return g.plot_map(['max_shear', 'mine'][r.integers(2)], **w.arg(
                [{}, {'vmax': 1}][r.integers(2)]))
        data = np.abs(r.normal(size=(len(g),)))
        img = g.grain_map_data(grain_data=data)
        if min(img.shape) < 3:
            return None
        return g.calc_slip_bands(w.arg(img))
    if k == 2:
        return g.plot_ref_ori(direction=w.arg(np.array([1, 0, 1])))
    if k == 3:
        return g.plot_ori_spread(direction=w.arg(r.normal(size=3)))
    if k == 4:
        return g.plot_unit_cell()
    g.build_mis_ori_list(calc_axis=True)
    return g.plot_mis_ori(int(r.integers(4)))


def o_grain_map(w, r, m):
    g = pickg(m, r)
    n, c = [('mine', None), ('e', (0, 1)), ('e', 'norm'), ('f', (1, 1)),
            ('max_shear', None), ('mine', None)][r.integers(6)] \
        if m is w.d else \
        [('orientation', 'IPF_x'), ('euler_angle', 'all_euler'),
         ('band_contrast', None), ('euler_angle', (1,)), ('phase', None),
         ('mine', None), ('GROD', None), ('GROD_axis', 'norm'),
         ('KAM', None), ('Nye_tensor', (0, 2)), ('mine', None)][
             r.integers(11)]
    return g.plot_map(n, c, **w.arg([{}, {'vmax': 1}, {
        'plot_scale_bar': True}][r.integers(3)]))


def o_oris(w, r, m):
    e = w.e
    k = r.integers(5)
    if k == 0:
        e.calc_grain_av_oris()
        return [g.ref_ori for g in e]
    if k == 1:
        e.calc_grain_mis_ori(calc_axis=bool(r.integers(2)))
        return [g.mis_ori_list for g in e]
    if k == 2:
        e.calc_grain_mis_ori(calc_axis=True)
        return [g.mis_ori_axis_list for g in e]
    if k == 3:
        g = pickg(e, r)
        return Quat.calc_average_ori(Quat.calc_sym_eqvs(
            w.arg(g.data.orientation), g.phase.crystal_structure.name))
    g = pickg(e, r)
    return g.calc_grod()


def o_slip(w, r, m):
    e = w.e
    g = pickg(e, r)
    if g.phase.slip_systems is None:
        return None
    k = r.integers(4)
    if k == 0:
        g.calc_slip_traces()
        return g.slip_traces
    if k == 1:
        g.calc_average_schmid_factors(w.arg(r.normal(size=3)))
        return g.average_schmid_factors
    if k == 2:
        return g.calc_rdr()
    g.calc_slip_traces(slip_systems=w.arg(g.phase.slip_systems))
    return g.slip_traces


def o_schmid_map(w, r, m):
    e = w.e
    if any(g.phase.slip_systems is None for g in e) or \
            len({g.phase.name for g in e}) > 1:
        return None
    e.calc_average_grain_schmid_factors(w.arg(np.array([1., 0, 0])))
    return e.plot_average_grain_schmid_factors_map(planes=w.arg([0]))


def o_network(w, r, m):
    e = w.e
    e.build_neighbour_network()
    out = []
    for a, b, d in sorted(e.neighbour_network.edges(data=True),
                          key=lambda t: (t[0].grain_id, t[1].grain_id)):
        bs = d['boundary']
        out.append((min(a.grain_id, b.grain_id), max(a.grain_id, b.grain_id),
                    len(bs), bs.misorientation()[0]))
    return sorted(out, key=repr)


def o_proxigram(w, r, m):
    if not len(m.data.grain_boundaries.points):
        return None
    return m.calc_proxigram(num_trials=7) if r.integers(2) else \
        m.data.generate('proxigram', return_val=True)


def o_save(w, r, m):
    path = build.scratch_file(w.scratch, '.ctf')
    w.e.save(path[:-4])
    try:
        return open(path, 'rb').read()
    finally:
        os.remove(path)


def o_quat(w, r, m):
    q = [Quat.from_euler_angles(*r.uniform(0, 3, 3)) for _ in range(4)]
    q = w.arg(q)
    sym = ['cubic', 'hexagonal'][r.integers(2)]
    k = r.integers(7)
    if k == 0:
        return q[0].mis_ori(q[1], sym, return_quat=2)
    if k == 1:
        return q[0] * q[1], q[0].conjugate, q[0] + q[1], q[0].dot(q[2])
    if k == 2:
        return q[0].transform_vector(w.arg(r.normal(size=3)))
    if k == 3:
        return Quat.calc_ipf_colours(q, w.arg(np.array([0, 1, 1])), sym)
    if k == 4:
        return Quat.calc_average_ori(w.arg(Quat.calc_sym_eqvs(q, sym)))
    if k == 5:
        return Quat.multiply_many_quats(q, q[0]), q[1].rot_matrix(), \
            q[1].euler_angles()
    return Quat.plot_ipf(q, w.arg(np.array([1, 1, 0])), sym)


def o_hist(w, r, m):
    p = plotting.HistPlot(plot_type=str(r.choice(['scatter', 'bar', 'step'])),
                          density=bool(r.integers(2)))
    p.add_hist(w.arg(r.random((5, 6))), bins=7, range=w.arg((0., 1.)))
    return p


def o_frames(w, r, m):
    if w.d is None:
        return o_names(w, r, m)
    d, e = w.d, w.e
    k = r.integers(4)
    if k == 0:
        return np.asarray(d.experiment.get_frame_transform(
            e.frame, d.frame).params)
    if k == 1:
        return d.warp_to_dic_frame(w.arg(r.random(tuple(e.shape))))
    if k == 2:
        return d.warp_boundaries(w.arg(e.data.grain_boundaries))
    return d.experiment.warp_lines(
        w.arg([((0., 1.), (2., 2.))]), e.frame, d.frame)


def o_stats(w, r, m):
    if w.d is None:
        return o_names(w, r, m)
    import contextlib
    import io
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        w.d.print_stats_table(w.arg([0, 50, 99]), w.arg(['max_shear', 'e']))
        w.e.phases[0].print_slip_systems()
    return out.getvalue()


def o_regenerate(w, r, m):
    name = str(r.choice(['KAM', 'GND', 'orientation', 'grain_boundaries',
                         'Nye_tensor']))
    return w.e.data.generate(name, return_val=True)


OPS = [o_access, o_names, o_plot_map, o_plot_map, o_colours, o_bound_plots,
       o_mis_map, o_data_map, o_data_ipf, o_to_map, o_highlight, o_click,
       o_profile, o_grain_data, o_grain_data, o_grain_plot, o_grain_map,
       o_oris, o_slip, o_schmid_map, o_network, o_proxigram, o_save, o_quat,
       o_hist, o_frames, o_stats, o_regenerate]
SEEN = set()


def s_history(ctx, rng, i):
    w = World(ctx, rng, i % 2 == 1)
    n = int(rng.integers(6, 14))
    todo = []
    for k in range(n):
        op = OPS[rng.integers(len(OPS))]
        m = 'd' if w.d is not None and rng.random() < .5 else 'e'
        todo.append((op, int(rng.integers(2 ** 31)), m))
    repeat = [todo[k] for k in rng.permutation(n)]
    ctx.describe(distinct=[w.spec.shape, w.spec.kind, i],
                 shape=w.spec.shape, dic=w.d is not None,
                 ops=[(t[0].__name__, t[2]) for t in todo])
    results = {}
    before = w.snapshot()
    gbefore = global_state()
    for rnd, seq in enumerate((todo, repeat)):
        for op, seed, mm in seq:
            m = w.d if mm == 'd' else w.e
            w.args = []
            np.random.seed(1)
            gbefore = global_state()
            try:
                res = op(w, np.random.default_rng(seed), m)
                got = plain(res)
            finally:
                plt.close('all')
            ctx.observe('ops')
            ctx.observe('results', got not in (('NoneType', None),))
            ctx.observe('op:' + op.__name__)
            ctx.check("('?'" not in repr(got), 'known_result')
            key = (op.__name__, mm, seed % 6)
            if key not in SEEN:
                SEEN.add(key)
                ctx.observe('distinct_ops')
            after = w.snapshot()
            for k, v in before.items():
                if k not in after:
                    ctx.fail('unchanged', op=op.__name__, gone=k)
                if after[k] != v:
                    ctx.fail('unchanged', op=op.__name__, on=mm, changed=k,
                             before=repr(v)[:300], after=repr(after[k])[:300])
            ctx.oracle_verdicts += 1
            ctx.observe('verdict:unchanged', len(before))
            before = after
            for a, was in w.args:
                ctx.check(plain(a) == was, 'arguments', op=op.__name__,
                          before=repr(was)[:300], after=repr(plain(a))[:300])
            now = global_state()
            diff = [k for k in gbefore if now[k] != gbefore[k]]
            ctx.check(not diff, 'globals', op=op.__name__, changed=diff)
            if rnd == 0:
                results[op, seed, mm] = got
            else:
                ctx.check(got == results[op, seed, mm], 'repeat',
                          op=op.__name__, on=mm,
                          first=repr(results[op, seed, mm])[:400],
                          now=repr(got)[:400])


STREAMS = [Stream('history', 64, 1500, s_history)]
