"""C26: lines drawn in the grain inspector survive grouping, save and load."""
import contextlib
import copy
import io
import os

import numpy as np
import matplotlib.pyplot as plt
import skimage.draw

from vt import build, gui, ref
from vt.core import Stream, Skip
from defdap import hrdic  # noqa: F401  (inspector needs it imported first)
from defdap.inspector import GrainInspector

PROPERTY = 'C26'
RULE = ('random histories of drawing (mouse events on the real figure), '
        'removing, clearing, visiting grains (buttons, text boxes and '
        'calls), correction angles, saving and loading (same and fresh '
        'sessions), regrouping, against a model of the lines of every grain; '
        'everything written and drawn compared after each step; lines '
        'between two groups; displacement fields with a known ratio or of '
        'any kind for the RDR and its window; distinct by history')
ASSUMPTIONS = ['grouping judged for lines that fall in well separated '
               'clusters of directions (spread below 5, gap above 20 degrees) '
                'and for single lines within ten degrees of two groups',
               'angles are those of undirected lines (modulo 180 degrees)',
               'grains a loaded file does not mention are not judged']
REQUIRE = {'verdict:line': 80, 'verdict:groups': 40, 'verdict:group_angle': 40,
           'verdict:planes': 30, 'verdict:loaded': 8, 'hundred_grains': 1,
           'verdict:loaded_many': 60, 'verdict:rdr': 6,
           'op:remove': 8, 'op:clear': 1, 'op:goto': 15, 'fresh_session': 3,
           'verdict:sta': 5, 'verdict:shown': 100, 'verdict:ratio': 15,
           'verdict:rdr_plot': 50, 'verdict:nearest': 5, 'typed_remove': 5,
           'multi_group': 5, 'regroup_other': 1, 'rdr_not_displayed': 5,
           'wrap_cluster': 3, 'rdr_map_edge': 3, 'planes_found': 5}


def setup(ctx):
    gui.no_rendering()


def adiff(a, b):
    return (a - b + 90) % 180 - 90


def session_maps(ctx, rng, shape=(24, 24), disp=None, cells=4):
    spec = build.ebsd_spec(rng, shape=shape, min_cells=cells, noise=0.,
                           nonindexed='none', phases=[
                               build.cubic_phase() if rng.random() < .6
                               else build.hex_phase()])
    # distinct grains
    em = build.ebsd_map(spec)
    em.data.generate('grains', min_grain_size=1)
    if disp is None:
        disp = build.smooth_disp(rng, shape)

    def dic():
        m = build.dic_map(ctx.scratch, disp)
        build.link(m, em, [(0, 0), (20, 0), (0, 20)],
                   [(0, 0), (20, 0), (0, 20)])
        m.set_scale(.1)
        m.data.generate('grains', algorithm='warp')
        return m
    em.calc_average_grain_schmid_factors(np.array([1, 0, 0]))
    return spec, em, dic


def draw(gi, *pos):
    gui.drag(gi.max_shear_axis, *pos)


def button(gi, label):
    """Click a button of the inspector with the mouse."""
    b = [b for b in gi.plot.btn_store
         if b.label.get_text().replace('\n', ' ') == label]
    gui.click_button(b[0])


def click(ax):
    x, y = ax.transData.inverted().transform(ax.transAxes.transform((.9, .9)))
    gui.mouse(ax, x, y)
    gui.mouse(ax, x, y, 'button_release_event')


def type_in(gi, label, text, leave=True):
    """Type into a text box, press enter and click somewhere else."""
    tb = [t for t in gi.plot.txt_box_store
          if t.label.get_text().replace('\n', '').startswith(label)][0]
    tb.eventson = False
    tb.set_val('')
    tb.eventson = True
    click(tb.ax)
    for c in text:
        gui.press_key(tb.ax, c)
    gui.press_key(tb.ax, 'enter')
    if leave:
        click(gi.grain_info_axis)


def shown(ctx, gi, corr):
    """What is written and drawn agrees with the lines of the grain."""
    g = gi.selected_dic_map[gi.grain_id]
    ctx.check(gi.selected_dic_grain is g, 'shown', what='grain')
    img = np.asarray(gi.grain_plot.img_layers[0].get_array())
    x0, y0 = g.extreme_coords[:2]
    for (x, y), v in zip(g.data.point, g.data.max_shear):
        ctx.check(img[y - y0, x - x0] == v, 'shown', what='map')
    txt = gi.grain_info_axis.texts[-1].get_text().split('\n')
    ms = 100 * np.asarray(g.data.max_shear)
    vals = [float(w.split(':')[-1]) for w in
            txt[1].replace('%', '').replace(': ', ':').split()]
    ctx.check(txt[0].split()[2] == str(gi.grain_id) and
              np.abs(np.array(vals) - [ms.min(), ms.mean(), ms.max()]
                     ).max() < .0051, 'shown', what='info', text=txt)
    rows = [r.split() for r in gi.line_info_axis.texts[-1].get_text()
            .strip().split('\n')[2:]]
    ctx.check(len(rows) == len(g.points_list), 'shown', what='lines',
              rows=rows)
    arrows = [a for a in gi.max_shear_axis.texts if a.get_text() == '']
    labels = [a for a in gi.max_shear_axis.texts if a.get_text() != '']
    for k, (r, ln) in enumerate(zip(rows, g.points_list)):
        f = [float(v) for v in r]
        ctx.check(f[0] == k and np.abs(np.subtract(f[1:5], ln[0])).max() < .51
                  and abs(f[5] - ln[1]) < .051 and f[6] == ln[2], 'shown',
                  what='line row', row=r, line=ln)
        ctx.check(any(np.allclose(a.xy + a.get_position(), ln[0])
                      for a in arrows), 'shown', what='arrow', line=ln)
        ctx.check(any(a.get_text() == str(k) and
                      np.allclose(a.xy, ln[0][2:]) for a in labels), 'shown',
                  what='arrow label', line=ln)
    rows = gi.groups_info_axis.texts[-1].get_text().strip('\n').split('\n')[2:]
    ctx.check(len(rows) == len(g.groups_list), 'shown', what='groups',
              rows=rows)
    for k, (r, gr) in enumerate(zip(rows, g.groups_list)):
        w = r.split()
        ctx.check(int(w[0]) == k and abs(float(w[1]) - gr[1]) < .051 and
                  abs(float(w[-1]) - gr[4]) < .0051, 'shown',
                  what='group row', row=r, group=gr)
        if gr[2]:
            ctx.check([int(v) for v in w[2].split(',')] == list(gr[2]) and
                      np.abs(np.subtract([float(v) for v in w[3].split(',')],
                                         gr[3])).max() < .051, 'shown',
                      what='group row', row=r, group=gr)
    q = gui.arrows(gi.slip_trace_axis)
    n = len(g.ebsd_grain.phase.slip_systems)
    ctx.check(len(q) == n + len(g.groups_list), 'shown', what='bands')
    for c, gr in zip(q[n:], g.groups_list):
        mine = [ln[0] for ln in g.points_list if ln[2] == gr[0]]
        if not mine:
            continue
        # screen direction of the drawn lines, y up
        a = [np.rad2deg(np.arctan2(-(b[3] - b[1]), b[2] - b[0]))
             for b in mine]
        want = a[0] + np.mean([adiff(v, a[0]) for v in a]) - corr
        got = np.rad2deg(np.arctan2(c.u[1], c.u[0]))
        ctx.check(abs(adiff(got, want)) < 1.5, 'shown', what='band',
                  got=got, want=want)


class Session:
    def __init__(self, ctx, rng, m, corr):
        self.ctx, self.rng, self.m, self.corr = ctx, rng, m, corr
        self.gi = GrainInspector(m, vmax=.1, correction_angle=corr)
        self.gi.plot.fig.canvas.draw()
        self.model = {k: [] for k in range(len(m))}
        self.base = {}
        self.gap = 40 if rng.random() < .5 else 25

    def size(self, g):
        x0, y0, x1, y1 = self.m[g].extreme_coords
        return x1 - x0 + 1, y1 - y0 + 1

    def draw(self):
        """Draw one line in one of the grain's clusters of directions."""
        rng, ctx = self.rng, self.ctx
        g = self.gi.grain_id
        if g not in self.base:
            b = rng.uniform(0, 180)
            if rng.random() < .4:      # a cluster either side of 0/180
                b = rng.uniform(-1, 1) + self.corr
            tr = np.rad2deg(self.m[g].ebsd_grain.slip_trace_angles)
            if rng.random() < .5:
                b = tr[rng.integers(len(tr))] + rng.uniform(-3, 3)
            self.base[g] = b
        want = self.base[g] + self.gap * rng.choice(4, p=[.5, .2, .2, .1]) + rng.uniform(-1.5, 1.5)
        if rng.random() < .5:          # drawn the other way
            want += 180
        w, h = self.size(g)
        c = np.array([w - 1, h - 1]) / 2 + rng.uniform(-.2, .2, 2)
        r = max(min(w, h) - 1, .6) * rng.uniform(.3, .45)
        a = np.deg2rad(want)
        d = r * np.array([np.sin(a), np.cos(a)])
        p, q = c - d, c + d
        draw(self.gi, *p, *q)
        if rng.random() < .5:
            button(self.gi, 'Save Line')
        else:
            self.gi.save_line(None, None)
        line = self.m[g].points_list[-1]
        self.model[g].append([list(p) + list(q), want - self.corr])
        ctx.observe('drawn')

    def check(self, grain=None):
        ctx = self.ctx
        for g, lines in self.model.items():
            got = self.m[g].points_list
            ctx.check(len(got) == len(lines), 'line', grain=g, got=got,
                      want=lines)
            for a, b in zip(got, lines):
                L = np.hypot(b[0][2] - b[0][0], b[0][3] - b[0][1])
                ctx.check(np.abs(np.subtract(a[0], b[0])).max() < .06,
                          'line', grain=g, got=a, want=b)
                ctx.check(abs(adiff(a[1], b[1])) < .02 and 0 <= a[1] <= 180,
                          'line', grain=g, got=a, want=b)
            self.check_groups(g)

    def check_groups(self, g):
        ctx = self.ctx
        lines, groups = self.m[g].points_list, self.m[g].groups_list
        if not lines:
            ctx.check(not groups, 'groups', groups=groups)
            return
        b = self.base[g] - self.corr
        cl = [int(np.argmin([abs(adiff(ln[1], b + self.gap * k))
                             for k in range(4)])) for ln in lines]
        ctx.check([gr[0] for gr in groups] == list(range(len(groups))) and
                  len(groups) == len(set(cl)), 'groups', lines=lines,
                  groups=groups)
        of = {}
        for ln, c in zip(lines, cl):
            ctx.check(0 <= ln[2] < len(groups) and
                      of.setdefault(c, ln[2]) == ln[2], 'groups',
                      lines=lines, groups=groups)
        ctx.check(len(set(of.values())) == len(of), 'groups', lines=lines)
        tr = np.rad2deg(self.m[g].ebsd_grain.slip_trace_angles)
        for c, k in of.items():
            mine = [ln[1] for ln in lines if ln[2] == k]
            mean = b + self.gap * c + np.mean([adiff(a, b + self.gap * c) for a in mine])
            ctx.observe('wrap_cluster', min(mine) < 20 and max(mine) > 160)
            ctx.check(abs(adiff(groups[k][1], mean)) < .03, 'group_angle',
                      lines=lines, groups=groups)
            dev = [adiff(groups[k][1], t) for t in tr]
            found = dict(zip(groups[k][2], groups[k][3]))
            for p, d in enumerate(dev):
                if abs(abs(d) - 5) < .02:
                    continue
                ctx.check((p in found) == (abs(d) < 5), 'planes',
                          group=groups[k], traces=tr)
                if p in found:
                    ctx.observe('planes_found')
                    ctx.check(abs(found[p] - d) < .02, 'deviation',
                              group=groups[k], traces=tr)

    def state(self):
        return {g: copy.deepcopy((gr.points_list, gr.groups_list))
                for g, gr in enumerate(self.m)}


def s_session(ctx, rng, i):
    spec, em, dic = session_maps(ctx, rng)
    m = dic()
    corr = float(rng.choice([0., 0., 5., -8., 90.]))
    s = Session(ctx, rng, m, corr)
    gi = s.gi
    files = {}
    hist = []
    try:
        for _ in range(int(rng.integers(12, 30))):
            op = rng.choice(['draw', 'draw', 'draw', 'draw', 'goto', 'remove',
                             'clear', 'save', 'load', 'sta', 'fresh',
                             'regroup'],
                            p=[.1, .1, .1, .1, .15, .12, .03, .1, .08,
                               .04, .04, .04])
            g = gi.grain_id
            hist.append(str(op))
            by = rng.integers(3)
            if op == 'draw':
                for _ in range(int(rng.integers(1, 4))):
                    s.draw()
            elif op == 'goto':
                t = int(rng.integers(len(m)))
                step = 1 if rng.random() < .6 else -1
                if by == 0 and g == len(m) - 1 and step > 0:
                    before = gi.selected_dic_grain
                    with contextlib.suppress(IndexError):
                        button(gi, 'Next Grain')
                    t = gi.grain_id
                    ctx.check(before is gi.selected_dic_grain or t != g,
                              'goto')
                    ctx.observe('beyond_last')
                elif by == 0 and 0 <= g + step < len(m):
                    t = g + step
                    button(gi, 'Next Grain' if step > 0 else 'Previous Grain')
                elif by == 1:
                    type_in(gi, 'Go to', str(t))
                else:
                    gi.goto_grain(str(t) if rng.random() < .5 else t, None)
                ctx.check(gi.grain_id == t and gi.selected_dic_grain is m[t]
                          and gi.selected_ebsd_grain is m[t].ebsd_grain,
                          'goto')
                gi.plot.fig.canvas.draw()
                ctx.observe('op:goto')
            elif op == 'remove' and s.model[g]:
                k = int(rng.integers(len(s.model[g])))
                if by == 0:
                    gi.remove_line(k, None)
                else:
                    type_in(gi, 'Remove', str(k), by == 1)
                    ctx.observe('typed_remove')
                gi.plot.fig.canvas.draw()
                del s.model[g][k]
                ctx.observe('op:remove')
            elif op == 'clear':
                if by:
                    gi.clear_all_lines(None, None)
                else:
                    button(gi, 'Clear All Lines')
                gi.plot.fig.canvas.draw()
                s.model[g] = []
                ctx.observe('op:clear')
            elif op == 'save':
                name = f'session{len(files) % 3}_{i}.txt'
                gi.update_filename(name, None)
                if by:
                    gi.save_file(None, None)
                else:
                    button(gi, 'Save File')
                ctx.check(os.path.exists(os.path.join(ctx.scratch, name)),
                          'saved')
                files[name] = (s.state(), copy.deepcopy(s.model))
            elif op in ('load', 'fresh') and files:
                name = str(rng.choice(sorted(files)))
                st, model = files[name]
                if op == 'fresh':
                    ctx.observe('fresh_session')
                    plt.close('all')
                    m = dic()
                    s2 = Session(ctx, rng, m, corr)
                    s2.base, s2.gap = s.base, s.gap
                    s, gi = s2, s2.gi
                gi.update_filename(name, None)
                if by:
                    gi.load_file(None, None)
                else:
                    button(gi, 'Load File')
                gi.plot.fig.canvas.draw()
                now = s.state()
                for k, v in st.items():
                    if v[0]:
                        ctx.check(now[k] == v, 'loaded', grain=k,
                                  got=now[k], want=v)
                        s.model[k] = copy.deepcopy(model[k])
                    elif not now[k][0]:
                        s.model[k] = []
                # visit, so that traces are there for the next grouping
                for k in range(len(m)):
                    m[k].ebsd_grain.calc_slip_traces()
            elif op == 'sta':
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    if by:
                        gi.batch_run_sta(None, None)
                    else:
                        button(gi, 'Run All STA')
                rows = [r.split('\t') for r in
                        out.getvalue().strip().split('\n')[1:] if r.strip()]
                want = [(k, gr) for k, gg in enumerate(m) if gg.points_list
                        for gr in gg.groups_list]
                ctx.check(len(rows) == len(want), 'sta', rows=rows)
                for r, (k, gr) in zip(rows, want):
                    e = np.rad2deg(m[k].ebsd_grain.ref_ori.euler_angles())
                    sf = max(x for y in m[k].ebsd_grain.average_schmid_factors
                             for x in y)
                    vals = [float(v) for v in r[1:5]]
                    ctx.check(int(r[0]) == k and int(r[5]) == gr[0] and
                              np.allclose(vals[:3], e, atol=.06) and
                              abs(vals[3] - sf) < 6e-4 and
                              abs(float(r[6]) - gr[1]) < .06, 'sta', row=r,
                              group=gr)
            elif op == 'regroup':
                # a grain other than the one displayed
                k = [k for k in range(len(m)) if k != g and s.model[k]]
                k = int(rng.choice(k)) if k else g
                gi.group_lines(m[k])
                ctx.observe('regroup_other', k != g)
            s.check()
            if op not in ('load', 'fresh', 'save', 'sta') and gi.grain_id >= 0:
                shown(ctx, gi, corr)
        ctx.describe(distinct=hist, history=hist, grains=len(m),
                     correction=corr)
    finally:
        plt.close('all')
        for name in files:
            os.remove(os.path.join(ctx.scratch, name))


def s_rdr(ctx, rng, i):
    """Displacement with a known ratio across the lines of each grain."""
    shape = (30, 30)
    spec = build.ebsd_spec(rng, shape=shape, min_cells=3, noise=0.,
                           nonindexed='none', phases=[build.cubic_phase()])
    dirs = [(1, 0), (1, 1), (0, 1), (1, -1)]
    n = int(spec.labels.max()) + 1
    k = rng.uniform(-3, 3, n)
    y, x = np.mgrid[:shape[0], :shape[1]].astype(float)
    disp = np.zeros((2,) + shape)
    which = rng.integers(0, 4, n)
    for c in range(n):
        dx, dy = dirs[which[c]]
        across, along = -dy * x + dx * y, dx * x + dy * y
        f = np.interp(across, np.arange(-80, 80), rng.normal(size=160))
        g1 = np.interp(along, np.arange(-80, 80), rng.normal(size=160))
        g2 = np.interp(along, np.arange(-80, 80), rng.normal(size=160))
        mk = spec.labels == c
        disp[1][mk] = (f + g1)[mk]
        disp[0][mk] = (k[c] * f + g2)[mk]
    em = build.ebsd_map(spec)
    em.data.generate('grains', min_grain_size=1)
    em.calc_average_grain_schmid_factors(np.array([1, 0, 0]))
    m = build.dic_map(ctx.scratch, disp)
    build.link(m, em, [(0, 0), (20, 0), (0, 20)], [(0, 0), (20, 0), (0, 20)])
    m.set_scale(.1)
    m.data.generate('grains', algorithm='warp')
    length = int(rng.choice([3, 5, 7]))
    img = np.asarray(m.data.grains)
    try:
        gi = GrainInspector(m, vmax=.1, rdr_line_length=length)
        gi.plot.fig.canvas.draw()
        done = {}
        for g in range(len(m)):
            pts = m[g].data.point
            labs = {int(spec.labels[p[1], p[0]]) for p in pts}
            if len(labs) != 1:
                continue
            c = labs.pop()
            dx, dy = dirs[which[c]]
            own = {tuple(map(int, p)) for p in pts}
            half = (length - 1) // 2
            cand, edge = [], []
            for p in sorted(own):
                for ln in (5, 4, 3, 2):
                    rows = [[(p[0] + t * dx + o * -dy, p[1] + t * dy + o * dx)
                             for o in range(-half, half + 1)]
                            for t in range(ln + 1)]
                    full = [r for r in rows if all(
                        0 <= q[0] < shape[1] and 0 <= q[1] < shape[0]
                        for q in r)]
                    if len(full) < 3 or not all(q in own for r in full
                                                for q in r):
                        continue
                    if not all(r[half] in own for r in rows):
                        continue
                    cand.append((p, ln))
                    if len(full) < len(rows):
                        edge.append((p, ln))
                    break
            if not cand:
                continue
            gi.goto_grain(g, None)
            gi.plot.fig.canvas.draw()
            x0, y0 = m[g].extreme_coords[:2]
            for _ in range(int(rng.integers(1, 4))):
                at = edge if edge and rng.random() < .5 else cand
                p, ln = at[rng.integers(len(at))]
                ctx.observe('rdr_map_edge', (p, ln) in edge)
                a = np.array(p) - (x0, y0)
                b = a + ln * np.array((dx, dy))
                # off the pixel corner so that truncation keeps the pixel
                e = .3
                if rng.random() < .5:
                    a, b = b, a
                draw(gi, *(a + e), *(b + e))
                gi.save_line(None, None)
            ctx.check(len(m[g].groups_list) == 1, 'groups',
                      lines=m[g].points_list, groups=m[g].groups_list)
            done[g] = k[c]
        if not done:
            raise Skip
        ctx.describe(distinct=[i, which.tolist()], shape=shape,
                     ratios=list(done.values()), length=length)
        for g, want in done.items():
            ctx.observe('rdr_not_displayed', g != gi.grain_id)
            plots = g == gi.grain_id and rng.random() < .3
            if plots:
                gi.run_rdr_group('0', None)
            else:
                gi.calc_rdr(m[g], 0, show_plot=bool(rng.random() < .1))
            ctx.close(m[g].groups_list[0][4], want, 'rdr', atol=1e-6,
                      rtol=1e-6, grain=g, displayed=gi.grain_id)
        for g, want in done.items():
            ctx.close(m[g].groups_list[0][4], want, 'rdr_kept', atol=1e-6,
                      rtol=1e-6)
    finally:
        plt.close('all')


def s_between(ctx, rng, i):
    """A line that lies within ten degrees of two groups joins the nearer."""
    spec, em, dic = session_maps(ctx, rng, cells=int(rng.integers(4, 8)))
    m = dic()
    try:
        gi = GrainInspector(m, vmax=.1)
        for k in range(1, len(m)):
            button(gi, 'Next Grain')
            ctx.check(gi.grain_id == k and gi.selected_dic_grain is m[k],
                      'walk', grain=k, got=gi.grain_id)
        for k in range(len(m) - 2, -1, -1):
            button(gi, 'Previous Grain')
            ctx.check(gi.grain_id == k and gi.selected_ebsd_grain
                      is m[k].ebsd_grain, 'walk', grain=k, got=gi.grain_id)
        g = int(rng.integers(len(m)))
        gi.goto_grain(g, None)
        gi.plot.fig.canvas.draw()
        sep = rng.uniform(12, 16)
        base = rng.uniform(0, 180)
        near = rng.integers(2)
        third = base + sep * (.5 + rng.uniform(.06, .1) * (1 if near else -1))
        first = [base, base + sep]
        swap = rng.random() < .5
        if swap:
            first = first[::-1]
            near = 1 - near
        far = base + 90 + rng.uniform(-20, 20)
        ang = [first[0], first[1], far, third]
        w = np.array(m[g].extreme_coords)
        c = (w[2:] - w[:2]) / 2.
        for a in ang:
            d = 8 * np.array([np.sin(np.deg2rad(a)), np.cos(np.deg2rad(a))])
            gi.grain_plot.p1, gi.grain_plot.p2 = tuple(c - d), tuple(c + d)
            gi.save_line(None, None)
        got = [ln[2] for ln in m[g].points_list]
        ctx.check(got == [0, 1, 2, near], 'nearest', angles=ang, got=got)
        ctx.describe(distinct=[i, ang], angles=ang)
    finally:
        plt.close('all')


def s_many(ctx, rng, i):
    """Files of many grains, lines and planes."""
    n = (11, 4)[i % 2]
    cell = build.block_labels(n, n, 4)
    spec = build.ebsd_spec(rng, shape=cell.shape, min_cells=1, noise=0.,
                           nonindexed='none', phases=[build.cubic_phase()])
    spec.euler = ref.random_eulers(rng, (n * n,))[:, cell]
    em = build.ebsd_map(spec)
    em.data.generate('grains', min_grain_size=1)
    em.calc_average_grain_schmid_factors(np.array([1, 0, 0]))
    disp = build.smooth_disp(rng, spec.shape)

    def dic():
        m = build.dic_map(ctx.scratch, disp)
        build.link(m, em, [(0, 0), (20, 0), (0, 20)],
                   [(0, 0), (20, 0), (0, 20)])
        m.set_scale(.1)
        m.data.generate('grains', algorithm='warp')
        return m
    m = dic()
    ids = rng.permutation(len(m))[-int(rng.integers(3, len(m))):]
    ids[0] = len(m) - 1 if len(m) - 1 not in ids else ids[0]
    ctx.describe(distinct=[n, ids.tolist()], grains=len(m), used=len(ids))
    ctx.observe('hundred_grains', len(m) > 100 and max(ids) > 99)
    want = {}
    for k in ids:
        k = int(k)
        groups = [[j, float(np.round(rng.uniform(0, 180), 2)),
                   [int(v) for v in range(rng.integers(0, 13))], [], 0]
                  for j in range(rng.choice([1, 2, 12]))]
        for gr in groups:
            gr[3] = [float(np.round(v, 2)) for v in rng.uniform(-5, 5, len(
                gr[2]))]
            gr[4] = float(rng.normal()) if rng.integers(2) else 0
        lines = [[[float(np.round(v, 2)) for v in rng.uniform(0, 4, 4)],
                  float(np.round(rng.uniform(0, 180), 2)),
                  int(rng.integers(len(groups)))]
                 for _ in range(rng.choice([1, 3, 14]))]
        m[k].points_list, m[k].groups_list = lines, groups
        want[k] = copy.deepcopy((lines, groups))
    try:
        gi = GrainInspector(m, vmax=.1)
        gi.update_filename('many_%d.txt' % i, None)
        gi.save_file(None, None)
        m2 = dic()
        gi2 = GrainInspector(m2, vmax=.1)
        gi2.update_filename('many_%d.txt' % i, None)
        gi2.load_file(None, None)
        for k, g in enumerate(m2):
            got = (g.points_list, g.groups_list)
            ctx.check([list(map(list, v)) for v in got] ==
                      [list(map(list, v)) for v in want.get(k, ([], []))],
                      'loaded_many', grain=k, got=got, want=want.get(k))
    finally:
        plt.close('all')


def perp(angle):
    """Unit step across a line at the inspector angle, to the nearest 45."""
    a = np.deg2rad(45 * np.round(angle / 45))
    dx, dy = np.sin(a), np.cos(a)       # along the line, y down
    return int(np.round(-dy * 1.01)), int(np.round(dx * 1.01))


def s_ratio(ctx, rng, i):
    """Any displacement, any line: RDR is the slope of the pooled rows."""
    shape = (int(rng.integers(22, 30)), int(rng.integers(22, 30)))
    disp = build.smooth_disp(rng, shape) + rng.normal(size=(2,) + shape) * .3
    spec, em, dic = session_maps(ctx, rng, shape=shape, disp=disp, cells=3)
    m = dic()
    length = int(rng.choice([3, 3, 5, 9]))
    half = length // 2
    u, v = np.asarray(m.data.displacement)
    try:
        gi = GrainInspector(m, vmax=.1, rdr_line_length=length)
        gi.plot.fig.canvas.draw()
        want = {}
        for g in rng.permutation(len(m))[:3].tolist():
            gi.goto_grain(g, None)
            gi.plot.fig.canvas.draw()
            x0, y0, x1, y1 = m[g].extreme_coords
            w, h = x1 - x0, y1 - y0
            base = rng.uniform(0, 180)
            lines = {}
            for _ in range(int(rng.integers(2, 7))):
                k = int(rng.integers(3))
                a = np.deg2rad(base + 45 * k)
                d = np.array([np.sin(a), np.cos(a)])
                c = np.array([w, h]) * rng.uniform(.3, .7, 2)
                r = min(w, h) * rng.uniform(.2, .45)
                p, q = c - r * d, c + r * d
                if min(w, h) < 4 or min(*p, *q) < 0 or (
                        p[0] > w or q[0] > w or p[1] > h or q[1] > h):
                    continue
                # off the pixel edge so that the pixels are not in doubt
                p, q = np.floor(p) + .3, np.floor(q) + .3
                ang = np.rad2deg(np.arctan2(q[0] - p[0], q[1] - p[1]))
                if np.abs(adiff(ang, base + 45 * k)) > 4 or (p == q).all():
                    continue
                draw(gi, *p, *q)
                gi.save_line(None, None)
                lines.setdefault(k, []).append((p, q))
            groups = m[g].groups_list
            ctx.check(len(groups) == len(lines), 'groups', groups=groups)
            for k, mine in lines.items():
                gr = min(groups, key=lambda t: abs(adiff(t[1], base + 45 * k)))
                if abs((gr[1] / 22.5) % 2 - 1) < .08:    # between two steps
                    continue
                sx, sy = perp(gr[1])
                us, vs = [], []
                for p, q in mine:
                    px, py = skimage.draw.line(*np.floor(
                        np.concatenate([p, q])).astype(int))
                    for x, y in zip(px + x0, py + y0):
                        cx = x + sx * np.arange(-half, half + 1)
                        cy = y + sy * np.arange(-half, half + 1)
                        if min(*cx, *cy) < 0 or max(cx) >= shape[1] or (
                                max(cy) >= shape[0]):
                            continue
                        us.append(u[cy, cx] - u[cy, cx].mean())
                        vs.append(v[cy, cx] - v[cy, cx].mean())
                if len(us) < 3:
                    continue
                us, vs = np.ravel(us), np.ravel(vs)
                want[g, gr[0]] = (vs @ us) / (vs @ vs), us, vs
        if not want:
            raise Skip
        ctx.describe(distinct=[i, shape], shape=shape, length=length,
                     measured=len(want))
        order = list(want)
        rng.shuffle(order)
        for g, k in order:
            val, us, vs = want[g, k]
            here = g == gi.grain_id
            if here and rng.random() < .3:
                type_in(gi, 'Run RDR', str(k))
                plotted = True
            else:
                plotted = rng.random() < .5
                gi.calc_rdr(m[g], k, show_plot=bool(plotted))
            got = m[g].groups_list[k][4]
            ctx.close(got, val, 'ratio', atol=1e-9, rtol=1e-7, grain=g)
            ctx.observe('multi_group', len(m[g].groups_list) > 1)
            if plotted:
                rdr_plot(ctx, gi, m[g], m[g].groups_list[k], val, us, vs)
                plt.close(gi.rdr_plot.fig)
        for (g, k), (val, _, _) in want.items():
            ctx.close(m[g].groups_list[k][4], val, 'ratio', atol=1e-9,
                      rtol=1e-7, grain=g)
    finally:
        plt.close('all')


def rdr_plot(ctx, gi, g, group, val, us, vs):
    """The window of a measurement shows it and the grain it is of."""
    p = gi.rdr_plot
    off = np.concatenate([np.asarray(c.get_offsets())
                          for c in p.plot_axis.collections])
    ctx.close(off[np.lexsort(off.T)], np.c_[vs, us][np.lexsort(
        np.c_[vs, us].T)], 'rdr_plot', atol=1e-9, what='points')
    # the fitted line, over the range of the points
    fit = p.plot_axis.lines
    if len(fit):
        x, y = fit[-1].get_data()
        icept = np.mean(us) - val * np.mean(vs)
        tol = 1e-6 * (1 + np.abs(us).max() + abs(val) * np.abs(vs).max())
        ctx.check(abs(min(x) - min(vs)) < 1e-9 and
                  abs(max(x) - max(vs)) < 1e-9 and
                  np.abs(np.asarray(y) - (val * np.asarray(x) + icept)).max()
                  < tol, 'rdr_plot', what='fitted line', x=x, y=y, slope=val)
        ctx.observe('fitted_lines')
    txt = p.plot_axis.texts[-1].get_text().split('\n')
    ctx.check(abs(float(txt[0].split()[2]) - val) < 6e-4 and
              abs(float(txt[1].split()[-1]) -
                  np.corrcoef(us, vs)[0, 1] ** 2) < 6e-4, 'rdr_plot',
              what='slope text', text=txt)
    eg = g.ebsd_grain
    head = p.text_axis.texts[0].get_text().split('\n')
    eul = np.rad2deg(eg.ref_ori.euler_angles())
    ctx.check(abs(float(head[0].split(':')[1]) - group[1]) < 6e-3 and
              np.abs(np.array(head[1].split()[1:], float) - eul).max() < .06,
              'rdr_plot', what='head', text=head)
    planes = p.text_axis.texts[1:]
    ss = eg.phase.slip_systems
    ctx.check(len(planes) == len(ss), 'rdr_plot', what='planes')
    rdrs = {}
    for k, (t, grp) in enumerate(zip(planes, ss)):
        rows = t.get_text().strip('\n').split('\n')
        ctx.check(len(rows) == len(grp) + 1 and
                  grp[0].slip_plane_label in rows[0] and
                  abs(float(rows[0].split(':')[-1]) -
                      np.rad2deg(eg.slip_trace_angles[k])) < .051,
                  'rdr_plot', what='plane', text=rows)
        ctx.check((t.get_fontweight() == 'bold') == (k in group[2]),
                  'rdr_plot', what='active plane', plane=k, group=group)
        for j, (r, sys) in enumerate(zip(rows[1:], grp)):
            d = eg.ref_ori.conjugate.transform_vector(sys.slip_dir)
            rdrs[f'{sys.slip_plane_label} {sys.slip_dir_label}'] = (
                r0 := -d[0] / d[1])
            f = r.replace(sys.slip_dir_label, '').replace(':', ' ').split()
            ctx.check(sys.slip_dir_label in r and
                      abs(float(f[1]) - eg.average_schmid_factors[k][j])
                      < 6e-4 and (abs(r0) > 1e3 or
                                  abs(float(f[3]) - r0) < 6e-4), 'rdr_plot',
                      what='system', text=r)
    named = []
    for t in p.number_line_axis.texts:
        x, y = t.get_position()
        if x > 0:
            for lab in t.get_text().strip().split('  '):
                named.append(lab)
                ctx.check(lab in rdrs and abs(rdrs[lab] - y - .01) < 1e-6,
                          'rdr_plot', what='named', label=lab, at=y)
    for lab, r0 in rdrs.items():
        if abs(abs(r0 - val) - 1.5) > 1e-6:
            ctx.check(named.count(lab) == (abs(r0 - val) < 1.5), 'rdr_plot',
                      what='missing', label=lab)


STREAMS = [Stream('session', 22, 500, s_session), Stream('rdr', 12, 300, s_rdr),
           Stream('many', 3, 60, s_many),
           Stream('between', 8, 100, s_between),
           Stream('ratio', 12, 300, s_ratio)]
