"""C30: linked EBSD maps share references through the chosen links."""
import numpy as np

from vt import build, gui, ref
from vt.core import Stream
from defdap import ebsd

PROPERTY = 'C30'
RULE = ('histories of mouse clicks on the real plots of 2-4 linked EBSD maps '
        '(origins set by clicking, different step sizes and shapes), link '
        'button presses, resets and application of the links, against a model '
        'of selections and links; distinct by history')
ASSUMPTIONS = ['pixels are not rendered; mouse positions go through the real '
               'axes', 'positions closer than 1e-6 to the edge of a point are '
               'not judged', 'maps without a grain at the guessed position '
               'are not judged until clicked']
REQUIRE = {'verdict:selected': 150, 'verdict:guess': 80, 'verdict:others': 60,
           'verdict:links': 50, 'verdict:reference': 100,
           'verdict:unlinked': 100, 'verdict:misori': 100, 'scaled_guess': 40,
           'duplicate_link': 5, 'refused_link': 3, 'verdict:highlight': 100,
           'verdict:origin': 20, 'verdict:axis': 20}


def setup(ctx):
    gui.no_rendering()


def lit(plot):
    k = plot.highlights_layer_id
    return None if k is None else np.asarray(plot.img_layers[k].get_array()) > 0


def s_link(ctx, rng, i):
    n = int(rng.integers(2, 5))
    phases = [build.cubic_phase()] if rng.random() < .6 else [build.hex_phase()]
    maps = []
    base = float(rng.choice([.1, .5, 1.]))
    for k in range(n):
        spec = build.ebsd_spec(rng, shape=rng.integers(8, 20, 2),
                               min_cells=int(rng.integers(2, 7)), noise=.5,
                               phases=phases,
                               nonindexed='points' if rng.random() < .3
                               else 'none')
        spec.step = base * float(rng.choice([1., 1., .5, 2., .7]))
        m = build.ebsd_map(spec)
        m.data.generate('grains', min_grain_size=int(rng.choice([1, 3])))
        if len(m) == 0:
            return
        maps.append(m)
    linker = ebsd.Linker(maps)
    img = [np.asarray(m.data.grains) for m in maps]
    hist = []
    try:
        origin = [(0, 0)] * n
        if rng.random() < .7:
            linker.set_origin()
            for k in rng.permutation(n)[:rng.integers(1, n + 1)]:
                for _ in range(int(rng.integers(1, 3))):
                    o = [int(rng.integers(0, maps[k].shape[1 - d] // 2 + 1))
                         for d in (0, 1)]
                    gui.mouse(linker.plots[k].ax,
                              *(o + rng.uniform(-.45, .45, 2)))
                    origin[k] = tuple(o)

            if rng.random() < .4:        # next to the map, nothing happens
                gui.mouse(linker.plots[int(rng.integers(n))].ax, -40, -40)

            def marked():
                return [[tuple(q) for q in np.asarray(p.img_layers[
                    p.points_layer_ids[0]].get_offsets()).tolist()]
                    for p in linker.plots]
            ctx.check(marked() == [[o] for o in origin], 'origin_shown',
                      got=marked(), want=origin)
            if rng.random() < .4:        # asked for again
                gui.close()
                linker.set_origin()
                ctx.check(marked() == [[o] for o in origin], 'origin_shown',
                          got=marked(), want=origin)
        for k in range(n):
            ctx.check(tuple(maps[k].origin) == origin[k], 'origin', map=k,
                      got=maps[k].origin, want=origin[k])
        gui.close()
        linker.start_linking()
        sel = [None] * n          # None, -2: none, -1: not judged
        links = []
        shown = [None] * n
        # the longest histories make many links, some of them again
        for _ in range(int(rng.integers(6, 25)) if i % 8 else 90):
            op = rng.choice(['first', 'first', 'other', 'link', 'link',
                             'reset', 'outside'],
                            p=[.25, .2, .2, .15, .12, .04, .04] if i % 8
                            else [.3, .2, .1, .2, .18, .005, .015])
            if op == 'first' and len(links) > 5 and rng.random() < .5:
                op = 'again'
            hist.append(str(op))
            if op == 'again':
                # the grains of a link made before
                again = links[int(rng.integers(len(links)))]
                for k in range(n):
                    ys, xs = np.nonzero(img[k] == again[k] + 1)
                    j = int(rng.integers(len(ys)))
                    gui.mouse(linker.plots[k].ax, xs[j], ys[j])
                    sel[k] = shown[k] = again[k]
                    ctx.check(maps[k].sel_grain is maps[k][again[k]],
                              'selected', map=k)
                ctx.observe('old_link_again')
                gui.click_button(linker.plots[0].btn_store[-1])
            elif op in ('first', 'other'):
                k = 0 if op == 'first' else int(rng.integers(1, n))
                ys, xs = np.nonzero(img[k] > 0)
                j = rng.integers(len(ys))
                pos = np.array((xs[j], ys[j])) + rng.uniform(-.45, .45, 2)
                ax = linker.plots[k].ax
                before = [m.sel_grain for m in maps]
                gui.mouse(ax, *pos)
                sel[k] = shown[k] = int(img[k][ys[j], xs[j]]) - 1
                ctx.check(maps[k].sel_grain is maps[k][sel[k]], 'selected',
                          map=k, pos=pos, want=sel[k],
                          got=getattr(maps[k].sel_grain, 'grain_id', None))
                if k:
                    for q in range(n):
                        ctx.check(q == k or maps[q].sel_grain is before[q],
                                  'others', clicked=k, map=q)
                else:
                    # the real position the event had (float of the pixel)
                    for q in range(1, n):
                        s = maps[0].step_size / maps[q].step_size
                        g = (pos - origin[0]) * s + origin[q]
                        r = np.rint(g).astype(int)
                        if np.any(np.abs(np.abs(g - r) - .5) < 1e-6):
                            sel[q] = shown[q] = -1
                            continue
                        if np.any(r < 0) or r[0] >= maps[q].shape[1] or \
                                r[1] >= maps[q].shape[0] or \
                                img[q][r[1], r[0]] <= 0:
                            # no grain there: nothing to link until clicked
                            sel[q] = shown[q] = -2
                            continue
                        sel[q] = shown[q] = int(img[q][r[1], r[0]]) - 1
                        ctx.check(maps[q].sel_grain is maps[q][sel[q]],
                                  'guess', map=q, pos=pos, guess=g,
                                  want=sel[q], origins=origin,
                                  got=getattr(maps[q].sel_grain, 'grain_id',
                                              None))
                        ctx.observe('scaled_guess', s != 1)
            elif op == 'outside':
                # a click that is not on the map changes nothing
                k = int(rng.integers(n))
                before = [m.sel_grain for m in maps]
                gui.mouse(linker.plots[k].ax, -30, -30)
                ctx.check(all(m.sel_grain is b for m, b in zip(maps, before)),
                          'outside')
            elif op == 'link':
                btn = linker.plots[int(rng.integers(n))].btn_store[-1]
                if -1 not in sel and any(v in (None, -2) for v in sel):
                    ctx.observe('no_guess', -2 in sel)
                    with ctx.raises(Exception, 'refused'):
                        linker.make_link(None, None)
                    ctx.observe('refused_link')
                elif None not in sel and min(sel) >= 0:
                    gui.click_button(btn)
                    ctx.observe('duplicate_link', tuple(sel) in links)
                    if tuple(sel) not in links:
                        links.append(tuple(sel))
            else:
                linker.reset_links()
                links = []
            ctx.check([tuple(map(int, v)) for v in linker.links] == links,
                      'links', got=linker.links, want=links)
            for k in range(n):
                if shown[k] is None or shown[k] < 0:
                    continue
                ctx.equal(lit(linker.plots[k]), img[k] == shown[k] + 1,
                          'highlight', map=k, grain=shown[k])
        ctx.describe(distinct=hist if links else None, history=hist, maps=n,
                     links=len(links), grains=[len(m) for m in maps])
        apply(ctx, rng, linker, maps, links)
    finally:
        gui.close()


def apply(ctx, rng, linker, maps, links):
    pre = []
    for k, m in enumerate(maps):
        if k == 0 or rng.random() < .7:
            m.calc_grain_av_oris()
            if rng.random() < .5:
                for g in m:
                    g.build_mis_ori_list()
        pre.append([None if g.ref_ori is None else np.array(g.ref_ori.quat_coef)
                    for g in m])
    preavg = [[g.average_mis_ori for g in m] for m in maps]
    linker.set_ref_ori_from_master()
    axis = bool(rng.random() < .4)
    linker.update_misori(calc_axis=axis)
    for k, m in enumerate(maps):
        want = {} if k == 0 else {v[k]: v[0] for v in links}
        for g in range(len(m)):
            o = m[g].ref_ori
            if g not in want:
                same = o is None and pre[k][g] is None or (
                    o is not None and pre[k][g] is not None and
                    np.array_equal(o.quat_coef, pre[k][g]))
                ctx.check(same and m[g].average_mis_ori == preavg[k][g],
                          'unlinked', map=k, grain=g)
                continue
            master = maps[0][want[g]].ref_ori
            ctx.equal(o.quat_coef, master.quat_coef, 'reference', map=k,
                      grain=g)
            ctx.check(o is not master, 'copied')
            G = ref.quat_to_mat(o.quat_coef)
            c = [ref.mis_cos_half(ref.quat_to_mat(q.quat_coef), G,
                                  m.primary_phase.crystal_structure.name)
                 for q in m[g].data.orientation]
            ctx.close(m[g].mis_ori_list, c, 'misori', atol=1e-7)
            ctx.close(m[g].average_mis_ori, np.mean(c), 'misori', atol=1e-7)
            if axis:
                ctx.check(np.shape(m[g].mis_ori_axis_list) in
                          ((len(c), 3), (3, len(c))), 'axis')


STREAMS = [Stream('link', 80, 1500, s_link)]
