"""C24: the grain neighbour network matches the boundary between grains."""
import numpy as np

from vt import ref, build
from vt.core import Stream
from defdap import ebsd

PROPERTY = 'C24'
RULE = ('EBSD maps with hostile grain topologies (enclosed grains, several '
        'separate contacts, diagonal contacts, grains at the edge only, too '
        'small regions, non-indexed points, two phases); distinct by map')
ASSUMPTIONS = ['a boundary step is interior if its left or upper point is '
               'not on the edge of the map',
               'misorientation judged between grains of one structure']
REQUIRE = {'verdict:edges': 60, 'verdict:pairs': 200, 'verdict:nodes': 60,
           'verdict:misorientation': 150, 'verdict:axis': 100,
           'secondary_phase': 5, 'isolated_nodes': 5, 'links': 200,
           'verdict:combined': 60}


def oracle(m, spec):
    """{frozenset of grain ids: set of (kind, (x, y))} of interior steps."""
    img = np.asarray(m.data.grains)
    h, w = img.shape
    ix = np.asarray(m.data.grain_boundaries.image_x)
    iy = np.asarray(m.data.grain_boundaries.image_y)
    links = {}
    for y in range(1, h - 1):
        for x in range(1, w - 1):
            for kind, (im, dx, dy) in enumerate(((ix, 1, 0), (iy, 0, 1))):
                if not im[y, x]:
                    continue
                a, b = img[y, x], img[y + dy, x + dx]
                if a > 0 and b > 0 and a != b:
                    links.setdefault(frozenset((int(a) - 1, int(b) - 1)),
                                     set()).add((kind, (x, y)))
    return links


def s_network(ctx, rng, i):
    shape = None
    if i % 30 == 11:
        shape = build.long_shape(rng)
        ctx.observe('long_maps')
    spec = build.ebsd_spec(rng, max_dim=20, shape=shape, multi=i % 3 == 0 or None,
                           noise=float(rng.choice([0., .5])))
    m = build.ebsd_map(spec)
    m.data.generate('grains', min_grain_size=int(rng.choice([1, 1, 2, 5])))
    want = oracle(m, spec)
    n = len(m)
    ctx.describe(distinct=[spec.shape, spec.kind, n, i] if want else None,
                 shape=spec.shape, kind=spec.kind, grains=n,
                 links=len(want))
    m.build_neighbour_network()
    nn = m.neighbour_network
    ids = {id(g): g.grain_id for g in m}
    ctx.check(sorted(ids.get(id(g), -1) for g in nn.nodes) == list(range(n)),
              'nodes')
    got = {frozenset((a.grain_id, b.grain_id)) for a, b in nn.edges}
    ctx.check(got == set(want), 'edges', missing=[sorted(e) for e in
              set(want) - got], extra=[sorted(e) for e in got - set(want)])
    ctx.observe('links', len(want))
    linked = set().union(*want) if want else set()
    ctx.observe('isolated_nodes', n - len(linked))
    img = np.asarray(m.data.grains)
    m.calc_grain_av_oris()
    for a, b, seg in nn.edges.data('boundary'):
        key = frozenset((a.grain_id, b.grain_id))
        ctx.check(frozenset((seg.grain1.grain_id, seg.grain2.grain_id)) ==
                  key, 'segment_grains')
        pts = [(0, tuple(p)) for p in seg.boundary_points_x] + \
            [(1, tuple(p)) for p in seg.boundary_points_y]
        ctx.check(len(pts) == len(set(pts)) == len(seg) and
                  set(pts) == want[key], 'points',
                  missing=[list(map(str, want[key] - set(pts)))],
                  extra=[list(map(str, set(pts) - want[key]))])
        for kind, pairs in ((0, seg.boundary_point_pairs_x),
                            (1, seg.boundary_point_pairs_y)):
            seen = set()
            for p, q in pairs:
                ctx.check(img[p[1], p[0]] == seg.grain1.grain_id + 1 and
                          img[q[1], q[0]] == seg.grain2.grain_id + 1,
                          'pairs', kind=kind, pair=[p, q],
                          grains=[seg.grain1.grain_id, seg.grain2.grain_id])
                d = (abs(p[0] - q[0]), abs(p[1] - q[1]))
                ctx.check(d == ((1, 0), (0, 1))[kind], 'pair_step')
                seen.add((kind, (min(p[0], q[0]), min(p[1], q[1]))))
            ctx.check(seen == {t for t in want[key] if t[0] == kind},
                      'pair_set')
        # lines run between the two points of each step
        lines = {tuple(sorted((tuple(map(float, s)), tuple(map(float, e)))))
                 for s, e in seg.boundary_lines}
        exp = set()
        for kind, (x, y) in want[key]:
            exp.add(((x + .5, y - .5), (x + .5, y + .5)) if kind == 0 else
                    ((x - .5, y + .5), (x + .5, y + .5)))
        ctx.check(lines == exp and len(seg.boundary_lines) == len(exp),
                  'lines')
        g1, g2 = seg.grain1, seg.grain2
        ctx.check(seg == ebsd.BoundarySegment(m, g1, g2) and
                  seg == ebsd.BoundarySegment(m, g2, g1), 'segment_equality')
        other = m[int(rng.integers(n))]
        if other is not g1 and other is not g2:
            ctx.check(not seg == ebsd.BoundarySegment(m, g1, other) and
                      not seg == ebsd.BoundarySegment(m, other, g2),
                      'segment_equality')
        s1 = g1.phase.crystal_structure.name
        if s1 != g2.phase.crystal_structure.name:
            continue
        ctx.observe('secondary_phase', s1 !=
                    m.primary_phase.crystal_structure.name)
        q1, q2 = g1.ref_ori.quat_coef, g2.ref_ori.quat_coef
        G1, G2 = ref.quat_to_mat(q1), ref.quat_to_mat(q2)
        ang, axis = seg.misorientation()
        ctx.close(np.cos(ang / 2), ref.mis_cos_half(G1, G2, s1),
                  'misorientation', atol=1e-7, structure=s1)
        if ang > 1e-3:
            ctx.close(np.linalg.norm(axis), 1., 'axis_unit')
            R = ref.rodrigues(axis, ang) @ G1
            ctx.check(ref.mis_angle(R, G2, s1) < 1e-5, 'axis', angle=ang,
                      axis=axis, structure=s1)
        # a refused point changes nothing
        with ctx.raises(ValueError, 'kind_refused'):
            seg.addBoundaryPoint((0, 0), 2, g1)
        ctx.check(len(seg) == len(want[key]), 'kind_refused')
        # the lines of one direction only, or of both in one call
        to_lines = ebsd.BoundarySet.boundary_points_to_lines
        px, py = seg.boundary_points_x, seg.boundary_points_y
        lx, ly, lxy = to_lines(boundary_points_x=px, boundary_points_y=py)
        ctx.check(to_lines(boundary_points_x=px) == lx and
                  to_lines(boundary_points_y=py) == ly and
                  lxy == lx + ly == seg.boundary_lines and
                  len(lx) == len(px) and len(ly) == len(py), 'lines')
    # segments combined give the boundary between these grains
    segs = [s for _, _, s in nn.edges.data('boundary')]
    if segs:
        pick = [segs[k] for k in rng.permutation(len(segs))[
            :rng.integers(1, len(segs) + 1)]]
        b = ebsd.BoundarySet.from_boundary_segments(pick)
        exp = set().union(*(want[frozenset((s.grain1.grain_id,
                                            s.grain2.grain_id))]
                            for s in pick))
        got = {(0, tuple(p)) for p in b.points_x} | {(1, tuple(p)) for p in
                                                     b.points_y}
        ctx.check(got == exp, 'combined')
        im = np.zeros(spec.shape, bool)
        for _, (x, y) in exp:
            im[y, x] = True
        ctx.equal(b.image, im, 'combined')
    # found again, or rotated: the network is that of the grains there are
    if rng.integers(2):
        m.data.generate('grains', min_grain_size=1)
    else:
        m.rotate_data()
    m.build_neighbour_network()
    nn = m.neighbour_network
    ctx.check({id(g) for g in nn.nodes} == {id(g) for g in m}, 'again')
    img = np.asarray(m.data.grains)
    for a, b, seg in nn.edges.data('boundary'):
        ctx.check({id(seg.grain1), id(seg.grain2)} == {id(a), id(b)},
                  'again')
        for pairs in (seg.boundary_point_pairs_x, seg.boundary_point_pairs_y):
            for p, q in pairs:
                ctx.check(img[p[1], p[0]] == seg.grain1.grain_id + 1 and
                          img[q[1], q[0]] == seg.grain2.grain_id + 1,
                          'again', pair=[p, q])


STREAMS = [Stream('network', 120, 4000, s_network)]
