"""Source of properties.jsonl (run: python3 tools/gen_properties.py)."""
import json
import os

P = []


def add(id, title, statement, over, qtext, why, files, mech):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why,
              'anchors': {'files': files,
                          'mechanism': [{'name': n, 'where': w}
                                        for n, w in mech]}})


I, H, C, F = 'inputs', 'histories', 'configurations', 'fault_sequences'

add('C01', 'All orientation representations describe the same rotation',
    'Whatever way an orientation is given (Bunge Euler angles, axis and angle, quaternion components, singly or as an array), its quaternion product, conjugate, rotation matrix, vector transform and recovered Euler angles all describe one and the same rotation in the passive sample-to-crystal sense. Quaternions built from user input are unit-preserving, lie in the northern hemisphere unless asked otherwise, and q and -q act identically.',
    [I], 'For every Euler triple (degenerate and out of range ones included), axis/angle, unit quaternion in either hemisphere, and array shape.',
    'Tests compare a handful of fixed orientations with stored numbers; agreement between representations has to hold over the whole rotation group including its singular sets.',
    ['defdap/quat.py'],
    [('conversion and product formulae', 'Quat.from_euler_angles/euler_angles/rot_matrix/__mul__/transform_vector'),
     ('vectorised twins', 'Quat.create_many_quats/multiply_many_quats/extract_quat_comps')])
add('C02', 'Misorientation is the smallest rotation over the crystal symmetry',
    'The misorientation reported between two orientations is the minimum rotation over all symmetry equivalents of the crystal: symmetric in its arguments, unchanged when either orientation is replaced by an equivalent, zero exactly for equivalent orientations and never above the crystal maximum. The single-pair and array calculations agree, the equivalent returned attains the minimum, and the misorientation axis is finite and is the axis and angle of the rotation between the two.',
    [I], 'For all pairs of orientations of either crystal symmetry, including identical, equivalent, 180-degree and near-degenerate pairs.',
    'Tests use a few stored pairs; the minimum over 12 or 24 operators can be wrong for a small region of orientation space only.',
    ['defdap/quat.py'],
    [('scalar search over equivalents', 'Quat.mis_ori, Quat.mis_ori_axis'),
     ('vectorised search', 'Quat.calc_sym_eqvs, Quat.calcMisOri')])
add('C03', 'Average orientation is the centre of its cluster',
    'The average of a set of mutually close orientations is a unit quaternion lying within the spread of the set, independent (to second order in the spread) of the order of the points and of which symmetric equivalent or quaternion sign represents each of them. The average of identical orientations is that orientation.',
    [I], 'For every cluster centre (including rotations near 180 degrees), spread of a few degrees, ordering and choice of representatives.',
    'Failure needs clusters that straddle a hemisphere or symmetry-domain boundary, which the sampled data does not contain.',
    ['defdap/quat.py', 'defdap/ebsd.py'],
    [('incremental averaging over equivalents', 'Quat.calc_average_ori'), ('per-grain reference orientation', 'ebsd.Grain.calc_average_ori')])
add('C04', 'Symmetry operators form the crystal rotation group',
    'The symmetry operators of each crystal structure are distinct unit quaternions forming exactly the proper rotation group of that structure (24 cubic, 12 hexagonal), first the identity. The equivalents computed for an array of orientations are exactly the products of each operator with each orientation, in the northern hemisphere; an unknown structure has only the identity.',
    [I, C], 'For all operator pairs, every structure, and all orientation arrays and dtypes.',
    'Tests check stored equivalents for few orientations; a wrong or duplicated operator only shows for orientations whose minimum uses it.',
    ['defdap/crystal.py', 'defdap/quat.py'],
    [('operator tables', 'crystal.crystalStructures'), ('vectorised products', 'Quat.calc_sym_eqvs, Quat.sym_eqv')])
add('C05', 'IPF directions lie in the fundamental sector, colours are symmetry safe',
    'For every orientation and sample direction the inverse pole figure direction is a symmetry equivalent (up to inversion) of the sample direction in crystal coordinates and lies in the fundamental sector of the crystal and triangle convention. IPF colours are finite, in [0, 1] with maximum component 1, the same for equivalent orientations and for opposite directions, and pure red, green and blue at the sector corners; invalid symmetry or triangle names are rejected.',
    [I, C], 'For all orientations including those mapping the direction onto a sector edge or corner, all directions, both symmetries, both triangle conventions and both float types.',
    'Tests compare stored values of a few orientations; sector edges and single-precision rounding are where the selection can fail.',
    ['defdap/quat.py', 'defdap/ebsd.py'],
    [('sector selection', 'Quat.calc_fund_dirs'), ('colour key', 'Quat.calc_ipf_colours'), ('per phase colouring', 'ebsd.Map.calc_ipf_colour, ebsd.Grain.calc_ipf_colour')])
add('C06', 'Crystal index conversions agree with the lattice geometry',
    'Conversions between Miller and Miller-Bravais indices are mutually inverse and consistent with the lattice in the chosen orthonormal convention: the direct basis has the given lengths and angles, the reciprocal basis is its dual, and projected directions and plane normals are those of the lattice. Symmetric equivalents of indices are exactly the images under the symmetry operators, reduced indices are the coprime multiple, and non-integer results are refused rather than rounded.',
    [I, C], 'For all index vectors in the integer range handled, lattice parameters, c/a ratios and both conventions.',
    'No existing test touches this module.',
    ['defdap/crystal_utils.py'],
    [('lattice matrices', 'create_l_matrix, create_q_matrix'), ('index conversion', 'convert_idc, project_to_orth, equavlent_indicies, reduce_idc, pos_idc, safe_int_cast, idc_to_string')])
add('C07', 'Slip systems are geometrically valid and grouped exactly once',
    'Every loaded slip system has a unit plane normal and unit direction lying in that plane, matching its indices in the crystal frame. Grouping by plane or by family partitions the systems without loss or duplication and keeps the file order of planes, the family generated from a system is closed under the crystal symmetry, equality ignores the sign of plane and direction and agrees with hashing, malformed files are refused, and each phase gets the systems of its structure.',
    [I, C], 'For all shipped and generated slip-system files, c/a ratios and conventions, and all systems in them.',
    'No existing test touches slip system loading, grouping or families.',
    ['defdap/crystal.py'],
    [('loading and grouping', 'SlipSystem.load, SlipSystem.group'), ('family generation', 'SlipSystem.generate_family'), ('phase selection', 'Phase.__init__')])
add('C08', 'Schmid factors, slip traces and RDR follow from grain orientation',
    'For every grain and slip system the Schmid factor is |cos(phi) cos(lambda)| of the load direction with the plane normal and direction rotated by the grain reference orientation, between 0 and 0.5 for a unit load and unchanged by reversing the load. The slip trace angle and inclination are those of the intersection of the plane with the map surface, and the relative displacement ratio is that of the slip direction in the sample frame; the maximum over the requested planes and directions is what is mapped.',
    [I], 'For all orientations, phases, load vectors and slip systems.',
    'Existing tests do not run these calculations.',
    ['defdap/ebsd.py'],
    [('Schmid factors', 'ebsd.Grain.calc_average_schmid_factors, ebsd.Map.plot_average_grain_schmid_factors_map'), ('traces', 'ebsd.Grain.calc_slip_traces'), ('RDR', 'ebsd.Grain.calc_rdr')])
add('C09', 'Data store returns what was stored, generated or derived',
    'After any sequence of additions, assignments, metadata updates, generations and merges, a data store returns exactly the last stored value for each name, runs a generator when and only when its data is missing (storing every output it declares saved), and lists each name once. Data of another store is visible through every derivative whose filter it matches, transformed by that derivative and carrying its declared properties; unknown names and duplicate additions are refused, and a failing generator or lookup leaves the store usable.',
    [H, I], 'For all operation histories over several stores linked by derivatives (chains, several derivatives, cycles).',
    'Tests exercise single operations; the guarantees are about arbitrary histories and several linked stores.',
    ['defdap/utils.py'],
    [('lookup, generation, derivation', 'Datastore.__getitem__/generate/add_derivative/lookup_derivative_keys/update')])
add('C10', 'Boundaries separate exactly the misoriented or differing neighbours',
    'A pair of horizontally or vertically adjacent points is on a grain boundary exactly when their symmetry-reduced misorientation exceeds the tolerance or their phases differ, and on a phase boundary exactly when their phases differ. The boundary images, point sets and line segments all describe this same set of pairs, and no pair is invented at the map edge.',
    [I, C], 'For all maps (shape, phases, non-indexed points, orientations), tolerances and crystal symmetries.',
    'Tests compare one map with stored output at two tolerances.',
    ['defdap/ebsd.py'],
    [('neighbour misorientation and phase test', 'ebsd.Map.find_boundaries'), ('representations', 'ebsd.BoundarySet')])
add('C11', 'EBSD grains are the connected regions between boundaries',
    'The grains are exactly the connected regions of indexed points joined by non-boundary neighbour steps having at least the minimum size: every point is in at most one grain, the grain image holds the grain number there, -2 in too-small regions and 0 on non-indexed points, and each grain lists precisely its points and the phase they share. This holds for any map including ones with no boundaries, a single grain or no grain at all.',
    [I, C], 'For all maps: any shape, connectivity (spirals, diagonal contact, specks), phases and minimum sizes.',
    'Tests compare one map with stored output; connectivity errors need particular shapes.',
    ['defdap/ebsd.py', 'defdap/_accelerated.py'],
    [('flood fill and labelling', 'ebsd.Map.find_grains, _accelerated.flood_fill')])
add('C12', 'DIC grains are the regions enclosed by the warped boundaries',
    'Found by flood fill, the grains of a DIC map partition the points that are not boundary: each is a connected region of free points (plus adjacent boundary points to its right and below), at least the minimum size, with grain image, grain point lists and grain count in agreement and smaller regions marked -2. Each grain is linked to the EBSD grain it overlaps most, and an EBSD map with no boundary gives one region.',
    [I, C], 'For all boundary patterns, crops, minimum sizes and map sizes.',
    'Tests compare one map with stored output.',
    ['defdap/hrdic.py', 'defdap/_accelerated.py'],
    [('flood fill', 'hrdic.Map.find_grains, _accelerated.flood_fill_dic'), ('boundary warp', 'hrdic.BoundarySet.from_ebsd_boundaries, experiment.Experiment.warp_points')])
add('C13', 'Frame transforms map homologous points and images consistently',
    'The transform between two linked frames carries the homologous points of the first onto those of the second, and the opposite direction is its inverse, whichever direction was linked; unlinked frames are refused. Images, boundary lines and points warped to the DIC frame agree with that transform, so features at a physical location stay there, and grains obtained by warping the EBSD grain map carry the number of the EBSD grain at the transformed location.',
    [I, C], 'For all affine, projective and polynomial relations, map shapes, scales and homologous point sets determining the transform.',
    'Tests link one pair of maps with one transform.',
    ['defdap/experiment.py', 'defdap/hrdic.py'],
    [('transform estimation and inversion', 'Experiment.get_frame_transform'), ('warping', 'Experiment.warp_image/warp_points/warp_lines'), ('warped grains', 'hrdic.Map.find_grains')])
add('C14', 'Strains follow from the displacement gradient',
    'The deformation gradient is the identity plus the finite-difference gradient of displacement per pixel of sub-window spacing (x before y in both indices), exact for displacement fields linear in position. The Green strain is half of F-transpose-F minus identity and the effective shear is the maximum in-plane shear of it, so rigid translation or rotation gives zero strain.',
    [I], 'For all displacement fields, map shapes and sub-window sizes.',
    'Tests never compute strain from a known displacement field.',
    ['defdap/hrdic.py'],
    [('gradient, Green strain and shear', 'hrdic.Map.__init__')])
add('C15', 'Crop and mask select the same region of every map consistently',
    'After any sequence of crop settings every map quantity of a DIC map is the original array restricted to the window left by the latest distances on each side, all with the reported shape, binned images cropped proportionally, and nothing lost when the crop is undone. A mask hides exactly its (dilated) points in every masked quantity and in none of the others, and if asked homologous points move with the crop so they stay on the same physical feature.',
    [H, I], 'For all sequences of crop, mask and access operations, on all map shapes.',
    'Tests apply one crop; state left by earlier settings and by the interplay with mask and binning is not reached.',
    ['defdap/hrdic.py', 'defdap/utils.py', 'defdap/experiment.py'],
    [('crop and mask views', 'hrdic.Map.set_crop/crop/calc_mask/mask, Datastore.__getitem__'), ('homologous points', 'Frame.update_homog_points')])
add('C16', 'Grain views and map data are two views of the same values',
    'Data of a grain taken from a map are the map values at the points of that grain, of any tensor order; placing them back (grain image, whole-map image, single value per grain) puts each value at its own point and the background elsewhere. Grain averages, coarsened images, bounding box, centre and outline are computed from exactly those points.',
    [I], 'For all maps, grains (shape, position), tensor orders and data types.',
    'Tests look at one grain; index transposition or offset errors cancel for particular grains.',
    ['defdap/base.py'],
    [('gather and scatter', 'base.Grain.grain_data/grain_map_data/grain_map_data_coarse/grain_outline, base.Map.grain_data_to_map/grain_data_to_map_data/calc_grain_average')])
add('C17', 'EBSD files load with the values they contain',
    'Loading a .ctf, .cpr/.crc, .ang file or dictionary yields the shape, step size, phases, Euler angles (in radians, in the convention of the file type), phase numbers, band contrast and other listed channels stored in the file at each point, whatever the order and number of channels in the file. Missing files, non-square grids, unknown structures and inconsistent sizes are refused.',
    [I, C], 'For all map shapes, phase lists, channel sets and orders, comments and optional header entries.',
    'Tests load one .cpr/.crc pair.',
    ['defdap/file_readers.py'],
    [('readers', 'OxfordTextLoader, OxfordBinaryLoader, EdaxAngLoader, PythonDictLoader, read_until_string')])
add('C18', 'A saved EBSD map loads back as the same map',
    'Saving an EBSD map and loading the file returns the same shape, step size, phases (structure, lattice and available slip systems), phase numbers, band contrast and, within the precision written, the same orientations at the same points. Saving never overwrites an existing file.',
    [I, H], 'For all maps that can be saved.',
    'No test writes a map.',
    ['defdap/file_writers.py', 'defdap/ebsd.py', 'defdap/file_readers.py'],
    [('writer', 'OxfordTextWriter.write, ebsd.Map.save'), ('reader', 'OxfordTextLoader.load')])
add('C19', 'DIC files load with the values they contain',
    'Loading a DaVis, OpenPIV (text or binary) or PyVale (csv or binary) result yields the sub-window size and shape of the file and, at each grid point, the displacement stored for that coordinate. Files whose header and data disagree in size or spacing are refused, and correlation images and patterns load only with matching dimensions.',
    [I, C], 'For all grid shapes, spacings, offsets, orderings of points permitted by the format, and displacement values.',
    'Tests load one DaVis file and check loaders of the others only partially.',
    ['defdap/file_readers.py', 'defdap/hrdic.py'],
    [('readers', 'DavisLoader, OpenPivTextLoader, OpenPivBinaryLoader, PyValeLoader, DICDataLoader.check_data'), ('images', 'hrdic.Map.load_corr_val_data, load_pattern')])
add('C20', 'In-grain misorientation is measured from the grain reference',
    'For every point of a grain the reference-orientation deviation is the symmetry-reduced misorientation to the grain reference orientation, its axis vector is the corresponding rotation (finite everywhere, zero where the deviation is zero, with length equal to the deviation), and the grain mean is the mean of the point values. The map images show each value at its own point.',
    [I], 'For all grains: orientation spreads, symmetries, positions; including points exactly at the reference.',
    'Tests do not evaluate deviation axes or uniform grains.',
    ['defdap/ebsd.py'],
    [('per grain', 'ebsd.Grain.build_mis_ori_list, ebsd.Grain.calc_grod'), ('map', 'ebsd.Map.calc_grain_mis_ori, plot_mis_ori_map')])
add('C21', 'Kernel average misorientation measures rotation to neighbours',
    'The kernel average misorientation at a point is the angle of the mean half-angle cosine to its horizontal and vertical neighbours (existing ones only at map edges), so it is zero in uniform regions, unaffected by changes further than one point away or by quaternion sign, and equivariant when the map is mirrored or transposed.',
    [I], 'For all maps with at least two rows and columns.',
    'Tests compare one map with stored output.',
    ['defdap/ebsd.py'],
    [('kernel', 'ebsd.Map.calc_kam')])
add('C22', 'Nye tensor and GND content follow the lattice curvature',
    'The Nye tensor is assembled from the symmetry-reduced lattice rotation gradients in x and y (per metre) of each point, and the GND content is the stated L1 norm of it: zero tensor in a uniform crystal, only x-derivative (or only y-derivative) terms when the lattice curves along x (or y) alone, and proportional to inverse step size and to curvature.',
    [I], 'For all single-phase maps, crystal symmetries, curvatures and step sizes.',
    'No test evaluates the tensor.',
    ['defdap/ebsd.py'],
    [('gradients and assembly', 'ebsd.Map.calc_nye')])
add('C23', 'Rotating an EBSD map by 180 degrees is consistent and involutive',
    'Rotating the map moves every point quantity to the diametrically opposite point and turns every orientation by 180 degrees about the map normal, identically whether or not orientations or grains were computed beforehand. Two rotations restore the map.',
    [H, I], 'For all maps, loaders and histories of access before the rotation.',
    'Tests rotate one freshly loaded map.',
    ['defdap/ebsd.py'],
    [('rotation', 'ebsd.Map.rotate_data')])
add('C24', 'Grain neighbour network matches the boundary between grains',
    'Two grains are linked in the neighbour network exactly when an interior boundary step joins a point of one with a point of the other, all grains are nodes, and the boundary segment of a link lists exactly those steps, each with the first point in the first grain. The misorientation of a segment is that between the reference orientations of its grains.',
    [I], 'For all grain topologies.',
    'Tests do not build the network.',
    ['defdap/ebsd.py', 'defdap/base.py'],
    [('network', 'ebsd.Map.build_neighbour_network'), ('segments', 'ebsd.BoundarySegment, ebsd.BoundarySet.from_boundary_segments')])
add('C25', 'Proxigram is the distance to the nearest boundary',
    'At every point of a map the proxigram is the Euclidean distance to the nearest grain boundary point, independent of how many boundary points are processed per batch and available through every documented accessor.',
    [I, C], 'For all boundary layouts and batch sizes.',
    'Tests check one map with the default batch size.',
    ['defdap/base.py'],
    [('batched minimum', 'base.Map.calc_proxigram, base.Map.proxigram')])
add('C26', 'Slip trace lines survive grouping, saving and loading',
    'Lines drawn on a grain with the inspector are stored in order with the drawn end points, the angle of that (undirected) line and their group; a removed line is gone and the rest are unchanged. Lines whose directions form well separated clusters are grouped by cluster, each group with the mean direction of its lines and the slip planes whose trace lies within 5 degrees of it. Saving then loading restores exactly the lines and groups of every saved grain, whatever is inspected in between, and the measured RDR is the slope of the relative displacements across the lines of that group in that grain, wherever in the map the lines lie. What the inspector displays (lines, groups, grain shown) is what is stored, and each button or text box does its stated job once.',
    [H, I], 'For all histories of drawing, removing, grouping, saving and loading over all grains.',
    'No test drives the inspector.',
    ['defdap/inspector.py'],
    [('line bookkeeping', 'GrainInspector.save_line/remove_line/group_lines'), ('files', 'GrainInspector.save_file/load_file'), ('RDR', 'GrainInspector.calc_rdr')])
add('C27', 'Analysis stays in bounds for every map shape',
    'Finding boundaries, grains and derived quantities never reads or writes outside its arrays and terminates, for any map down to one row or one column and any content, including maps with no boundary, no grain, or only non-indexed points.',
    [I, C], 'For all shapes from 1 x 1 upward, all contents and crops.',
    'Tests use one shape; the compiled kernels do no bounds checking in normal runs, so errors are silent.',
    ['defdap/_accelerated.py', 'defdap/ebsd.py', 'defdap/hrdic.py'],
    [('compiled kernels', '_accelerated.flood_fill, flood_fill_dic'), ('callers', 'ebsd.Map.find_grains, hrdic.Map.find_grains')])
add('C28', 'Orientation filtering smooths without moving boundaries',
    'Filtering replaces the orientation of each point by the average of the orientations within the tolerance of it in the most uniform of the eight 3 x 3 windows that have it on their rim. So a uniform region is unchanged, orientations differing by more than the tolerance are never mixed, no orientation outside the spread of the neighbours used is reported, and the sign of the quaternions representing the orientations does not matter. Points closer than two points to the map edge and the loaded Euler angles are unchanged.',
    [I], 'For all maps, noise levels and tolerances.',
    'No test runs the filter.',
    ['defdap/ebsd.py'],
    [('Kuwahara filter', 'ebsd.Map.filter_data')])
add('C29', 'Analysis and plotting never change the data they read',
    'Computing, plotting or looking up any derived quantity leaves the loaded data, the arguments passed in and already computed quantities unchanged, and repeating the same calculation gives the same result.',
    [H], 'For all sequences of analysis, plotting and access operations.',
    'Tests run each operation once on fresh data.',
    ['defdap/base.py', 'defdap/ebsd.py', 'defdap/hrdic.py', 'defdap/plotting.py'],
    [('all analysis entry points', 'ebsd.Map, hrdic.Map, plotting.MapPlot')])
add('C30', 'Linked EBSD maps share references through the chosen links',
    'Clicking a grain on the first map selects it and, on each other map, the grain at the corresponding position (scaled about the set origins); clicking another map corrects only that map. A link records the grains selected in every map once, and applying links copies the reference orientation of the first map to exactly the linked grains and updates their misorientations.',
    [H, I], 'For all sequences of clicks and links, origins and step sizes.',
    'No test drives the linker.',
    ['defdap/ebsd.py', 'defdap/base.py'],
    [('linker', 'ebsd.Linker'), ('selection', 'base.Map.click_grain_id')])
add('C31', 'Experiments keep increments, maps, frames and points apart',
    'An experiment lists its increments in order of addition and iterates exactly the increments holding a map of the requested name; each map belongs to the increment it was created for. Homologous points belong to one frame, selecting, moving, saving and updating them changes exactly the points addressed and scales by the image binning, and bad indices are refused.',
    [H], 'For all histories of adding increments, maps and points.',
    'Tests only create one map per experiment.',
    ['defdap/experiment.py', 'defdap/base.py'],
    [('bookkeeping', 'Experiment, Increment, Frame'), ('interaction', 'Frame.homog_click/homog_key/homog_click_save')])
add('C32', 'Pole projections are the stated projections',
    'Pole positions are plotted at the stereographic or equal-area projection of their direction, chosen by name, function or default: the north pole at the origin, the crystal y direction to the right and the x direction downwards (azimuths turned by -90 degrees), radius tan(alpha/2) or the equal-area radius 2 sin(alpha/2). Every plotted orientation appears at the projection of its fundamental direction inside the drawn sector, with its own value and marker colours.',
    [I, C], 'For all directions, projections and symmetries.',
    'No test plots poles.',
    ['defdap/plotting.py', 'defdap/quat.py'],
    [('projections', 'PolePlot.stereo_project, PolePlot.lambert_project'), ('points', 'PolePlot.add_points, Quat.plot_ipf')])
add('C33', 'Plots show the requested data at the right place and colour',
    'A map or grain plot displays exactly the requested component of the data with the label and scale of that data, grain value maps colour every point of a grain by the value of that grain, highlights cover exactly the requested grains in the requested colours, boundaries are drawn on the boundary, and Euler and IPF maps colour each point by its own phase rules with background elsewhere. Unknown maps and components are refused.',
    [I, C], 'For all data names, components, grain selections and colours.',
    'Tests do not inspect any plot.',
    ['defdap/plotting.py', 'defdap/base.py', 'defdap/ebsd.py'],
    [('map plots', 'base.Map.plot_map, MapPlot.create/add_grain_highlights/add_grain_boundaries'), ('grain plots', 'base.Grain.plot_map, GrainPlot.create'), ('colours', 'ebsd.Map.calc_euler_colour/calc_ipf_colour')])

add('C34', 'Histograms and summary tables describe exactly the data given',
    'A histogram counts every unmasked, finite value inside the range asked for (by default that of the data) exactly once, in exactly the number of equal linear or logarithmic bins asked for, normalised to unit area if asked for. The statistics table of a DIC map lists the requested percentiles of every tensor component of the requested data over the unmasked points of the cropped map, and unknown components are refused.',
    [I, C], 'For all data, masks, crops, ranges and bin numbers.',
    'No test makes a histogram or a table.',
    ['defdap/plotting.py', 'defdap/hrdic.py'],
    [('histograms', 'HistPlot.create, HistPlot.add_hist'), ('table', 'hrdic.Map.print_stats_table')])
add('C35', 'Drawings of cells, traces and bands show the grain orientation',
    'A unit cell is drawn as the closed cube or hexagonal prism of its crystal turned by the (average) orientation, seen along z. The slip traces drawn on or printed for a grain are, in order and colour, the lines in which its slip planes meet the surface, placed at the centre or where asked for. Band angles given are drawn, and those detected in strain data are the angles of the bands present, including vertical ones.',
    [I, C], 'For all orientations, crystal structures, grains and band patterns.',
    'Tests draw nothing and never detect a band.',
    ['defdap/quat.py', 'defdap/plotting.py', 'defdap/ebsd.py', 'defdap/hrdic.py'],
    [('unit cell', 'Quat.plot_unit_cell, ebsd.Grain.plot_unit_cell, CrystalPlot'), ('traces', 'GrainPlot.add_traces/add_slip_traces, ebsd.Grain.print_slip_traces'), ('bands', 'hrdic.Grain.calc_slip_bands, GrainPlot.add_slip_bands')])
add('C36', 'Failed, refused or stopped steps leave the analysis usable',
    'A request that is refused (unknown names, sizes that do not fit, values of the wrong kind, files that are missing or do not fit) changes nothing: data, metadata, crop, mask, points, links and grains stay as they were. A calculation stopped at any point by an exception (an interrupt, lack of memory) leaves every stored item either as it was before or as the complete calculation leaves it, and the same request made again gives what it would have given without the stop, as do all later ones. A map that cannot be loaded is not part of its experiment, and the file loads normally afterwards.',
    [F, H], 'For every analysis step of EBSD and linked DIC maps and every point in it where it is stopped, one or several times, in random histories; every refused request.',
    'Tests only run steps that succeed; the state left behind by a failure is never looked at.',
    ['defdap/utils.py', 'defdap/base.py', 'defdap/ebsd.py', 'defdap/hrdic.py', 'defdap/experiment.py'],
    [('storing results', 'Datastore.generate/lookup_derivative_keys, ebsd.Map.find_grains/find_boundaries/filter_data/build_neighbour_network'), ('grain results', 'ebsd.Grain.calc_slip_traces/calc_average_schmid_factors/build_mis_ori_list'), ('refusals', 'hrdic.Map.set_crop/calc_mask/load_corr_val_data, Frame.update_homog_points/set_homog_points'), ('loading', 'base.Map.__init__')])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
