"""Per property: (deciding technique, oracle and monitors, why beyond tests)."""
NOTES = {
'C01': ('reference-model monitor: every conversion is checked against rotation matrices computed independently',
 'An independent Bunge/axis-angle to matrix construction (vt/ref.py, plain numpy) decides every observed call: components, Euler angles out, products, conjugates, vector transforms, rotation matrices and the array twins have to describe the same matrix; unit norm, hemisphere and q/-q identity are invariants checked on every quaternion seen.',
 'tests hold stored numbers for a few orientations; the singular sets (phi = 0, pi, half turns, negative zero, southern inputs) are where the formulas branch'),
'C02': ('reference-model monitor: brute force minimum over an independently generated rotation group',
 'For every pair the oracle multiplies out all equivalents with matrices and takes the smallest angle, and compares mis_ori, mis_ori_axis (axis checked by rebuilding the rotation) and the array calls with it; symmetry of arguments and invariance under replaced equivalents are metamorphic checks on the same calls.',
 'an operator left out or a sign lost shows only for the few pairs whose reduction needs that operator'),
'C03': ('reference-model monitor with an error bound: mean rotation vector about the known centre',
 'Clusters are generated about a known centre with known spread, every point replaced by a random equivalent; the returned average must lie within the second order bound of the first-order mean, and close to equal for shuffled and re-represented input.',
 'averaging in quaternion space fails only when equivalents or hemispheres straddle, which fixed samples avoid'),
'C04': ('invariant monitor: group axioms and comparison with an independently closed group',
 'The operator lists are compared, as rotation matrices, with groups generated by closing two generators; closure, inverses, uniqueness and determinant are checked over all products; equivalents returned for arrays are compared operator by operator.',
 'tests compare one list with a copy of itself'),
'C05': ('reference-model monitor: all equivalents of the direction reduced into an independently stated sector',
 'The oracle takes every symmetric equivalent of a crystal direction from rotation matrices, keeps those in the sector given by its corner directions, and compares polar angles and the RGB colour computed from the corner weights; also the invariance of the colour under symmetry.',
 'edges, corners and the equator of the triangle are where points leave the sector or colours jump'),
'C06': ('reference-model monitor: lattice geometry from first principles',
 'Lattice and reciprocal matrices are rebuilt from (a, b, c, alpha, beta, gamma); direction, plane, Miller-Bravais and orthonormal conversions must give parallel vectors / zone law; integer equivalents must be exactly the orbit under the group; malformed input must raise.',
 'integer reduction, negative indices and the two hexagonal axis conventions combine in more ways than examples list'),
'C07': ('invariant monitor over every loaded slip system file, shipped or generated',
 'Each system: direction in plane, unit vectors, vectors agreeing with the indices under the lattice; each group: one plane, every system exactly once, groups disjoint; generated files (random order, sign, family, spacing) compared with what was written; malformed files refused.',
 'grouping errors depend on the order and sign of lines in a file'),
'C08': ('reference-model monitor: Schmid factor, trace and RDR from rotation matrices',
 'For every grain, system and load the oracle computes cos(phi)cos(lambda), the plane/surface intersection and the displacement ratio from the Bunge matrix and compares, over all systems or subsets, before and after recalculation.',
 'sign and frame errors vanish for symmetric fixture orientations'),
'C09': ('trace monitor: random operation histories against an executable model of the linked stores',
 'Every operation (add, set, attribute access, metadata, generator registration, generation, merge, derivation, iteration, deletion of links) is applied to the real stores and to a small dictionary model; after each operation names, values, metadata, laziness (generator call counts) and identity are compared.',
 'order of generator runs, replacement and cross-store visibility are properties of histories'),
'C10': ('reference-model monitor: pairwise decision for every neighbouring point',
 'For every neighbouring pair the oracle computes the disorientation with brute force symmetry and compares both step images, the point image and the line list; conservation checks between the three forms.',
 'each pair near the tolerance, at a map edge, at a phase change or next to a non-indexed point is its own case'),
'C11': ('reference-model monitor: union-find segmentation of the same boundaries',
 'Labels must be constant on union-find components, points of a grain listed once, small components marked -2, non-indexed 0, ids contiguous, phases and primary lists consistent; large maps, spirals, mazes and directly set walls stress the fill.',
 'connectivity bugs need particular topologies (spirals, diagonal contacts, one-point necks)'),
'C12': ('reference-model monitor: independent connected component labelling of the warped boundary image',
 'The flood fill result is compared region by region with scipy-free labelling written in the check; the linked EBSD grain is compared with the maximum overlap under the transform the harness chose.',
 'same, plus the mapping between two frames'),
'C13': ('reference-model monitor: the harness owns the true transform',
 'Homologous points are generated from a known affine, projective or polynomial relation; every mapped point, line and image is compared with the true relation; boundary images by distance in both directions, with aggregate coverage statistics over all cases.',
 'tests use one alignment; composition direction, offsets and crops only matter for others'),
'C14': ('reference-model monitor: analytic and finite difference strain of the written field',
 'Deformation gradient, Green strain and maximum shear are computed from the field that was written to the file, with exact expectations for linear and rigid fields.',
 'the axis, sign and spacing errors cancel for the symmetric fixtures'),
'C15': ('trace monitor: histories of crop and mask operations against a full-array model',
 'After every operation every map, binned map, pattern image, coordinates and homologous points are compared with slices of the full arrays that the model holds.',
 'crops compose; the failures are in sequences and in maps of unequal binning'),
'C16': ('metamorphic monitor between two views of the same store',
 'Grain data, grain images, map-from-list and attribute views are compared point by point with the map arrays and point lists, for all orders and dtypes.',
 'holes, single points, edges and tensor order decide the index arithmetic'),
'C17': ('reference-model monitor: byte-exact files written from a known truth',
 'The monitor writes the files itself (every format, channel order, unknown channel, comment and header variant) and compares every loaded channel and header value point by point; corrupted files must raise, not load.',
 'two sample files cannot cover format variations'),
'C18': ('round-trip monitor over repeated save and load, with an independent parser of the written file',
 'The written text is parsed by the monitor and compared with the map, then loaded and compared again; existing files are hashed before and after.',
 'history (rotation, filtering) and phases change what has to be written'),
'C19': ('reference-model monitor: files written from a known displacement field',
 'As C17 for DIC formats, including spacing, row order, missing points and sub-window; plus lazily loaded images.',
 'grid inference depends on every row of the file'),
'C20': ('reference-model monitor: disorientation from the grain reference',
 'Angles and axes of every point from rotation matrices and the brute force group; list, stored data, image and both plots must agree.',
 'the reduction operator differs from point to point'),
'C21': ('reference-model and metamorphic monitor',
 'KAM per point from matrices; mirrored, transposed, sign-flipped and locally changed maps must transform accordingly.',
 'edges, corners and quaternion sign are where kernels go wrong'),
'C22': ('reference-model monitor: curvature tensor per point',
 'The Nye tensor is rebuilt from forward differences of rotation matrices; structure and scaling laws are checked on constructed lattice curvature.',
 'components vanish for simple fixtures so a swapped index goes unseen'),
'C23': ('differential monitor: rotated map against a map loaded rotated',
 'Every stored quantity of the rotated map is compared with one built from rotated arrays, whatever had been computed before; twice is the identity.',
 'stale cached data depends on what was computed before'),
'C24': ('reference-model monitor: adjacency recomputed from the labels',
 'Edges, boundary points, lines and misorientation per edge are recomputed from the grain image and the boundary steps.',
 'topologies with several contacts, enclosed grains and edges'),
'C25': ('reference-model monitor: brute force distance transform',
 'Every point against the minimum over all boundary points, for many batch sizes (the batching must not be visible).',
 'batch and rounding boundaries'),
'C26': ('trace monitor: user interface histories against a model of the lines, with an offline check of saved files and displayed text',
 'Mouse drags, buttons and text boxes are driven on the real figure; after each step every grain\'s lines, groups, plane assignment and what is displayed are compared with a model; RDR against an independent regression of the cells it should sample.',
 'save/load, regrouping after removal and visiting other grains are histories'),
'C27': ('sanitizer: numba bounds checking plus guarded arrays, crash and progress watchdog on every derived quantity',
 'All derived quantities of degenerate maps run with NUMBA_BOUNDSCHECK=1; compiled fills are driven on arrays embedded in guard bands that must stay untouched; a crash signal or lack of progress in processor time is a violation.',
 'out-of-bounds reads in compiled code are silent and appear only for edge shapes'),
'C28': ('reference-model monitor: per-point Kuwahara oracle',
 'Every filtered orientation is recomputed from the four windows; invariants: no point moves across a boundary, sign independence, uniform maps unchanged.',
 'window choice depends on local data at every point'),
'C29': ('invariant monitor: fingerprints of everything stored around every operation',
 'Every array, list and metadata entry is hashed before and after each analysis or plot call; each call is repeated later in another order and must return the same.',
 'aliasing bugs need a particular pair of calls'),
'C30': ('trace monitor: click histories against a model of selections and links',
 'Mouse and button events on the real canvases; after each event selections, highlights, guesses and link lists are compared with the model; after updating, shared references and phases.',
 'histories'),
'C31': ('trace monitor: histories over experiments, increments, frames and points',
 'A model of names, maps, frames and homologous points is compared after every operation, for objects that must be shared and objects that must not.',
 'isolation between objects shows only with several of them'),
'C32': ('reference-model monitor: projection formulas on vectors',
 'Plotted offsets are compared with independent projections of all equivalents of the known direction; outline, labels, values, sizes and legend likewise.',
 'configuration (default names, triangle, frame) times data'),
'C33': ('display monitor: the artists on the figure are read back and compared with the data',
 'Image arrays, extents, norms, colour maps, overlays, labels, scale bars, legends, points and the axes they are on are read from matplotlib and compared with the data requested.',
 'place and colour depend on the grain shape, crop, phase and options'),
'C34': ('reference-model monitor: counts recomputed from the data',
 'Bin edges and counts, percentiles and component choice are recomputed with sorting and counting in the check.',
 'masked, infinite and out of range data'),
'C35': ('display monitor: drawn geometry compared with the rotated crystal',
 'Polygons and quivers are read back and compared with the crystal planes and traces rotated by the known orientation; detected bands with the synthetic ones.',
 'frames and projections look right for symmetric orientations'),
'C36': ('fault injection at executed lines, twin-run monitor of the state left behind',
 'An exception is raised at a chosen line event of the package (trace hook); everything stored is compared with the state before and with a twin that was never stopped, then the step is repeated and compared again. Refusals are compared with a full snapshot.',
 'point of failure (line and occurrence) times history'),
}
