"""Static configuration of every check: how it is built and run, what counts as non-trivial."""
CMD = './cmd/'
CHECKS = {}


def check(pid, **kw):
    CHECKS[pid] = kw


check('C01', oracle='round trip with an independent decoder',
      rule='random triangle lists (grid, uniform, arbitrary single-precision bit patterns, extreme magnitudes, signed zero, '
      'degenerate and duplicated triangles, up to 4000), saved, file bytes decoded independently, loaded; non-trivial = at least one triangle')
check('C02', oracle='differential against big-float rounding and the binary file',
      rule='random text STL files (0-12 facets; number formats, signs, exponents, spacing, indentation, blank lines, line ends, '
      'solid names) whose numbers are rounded by big-float arithmetic and compared with the loaded text and binary file; non-trivial = at least one facet')
check('C03', oracle='saved files damaged at generated bytes; arbitrary and mutated byte strings',
      rule='files saved by the library and cut or extended at drawn bytes (record boundaries, header, tail over-represented) must be '
      'rejected; arbitrary and mutated bytes, text, token soups must give a mesh or an error; non-trivial = damaged file, or at least 84 bytes')
check('C04', oracle='fault injection at generated byte offsets',
      rule='meshes of 0 to 4000 triangles saved under injected faults: file size limit at a drawn byte, full device, missing directory, '
      'directory as target, and no fault; non-trivial = the fault stops writing before the last byte')

check('C05', oracle='axis-angle rotation and translation as reference',
      rule='triangle lists and closed meshes rotated about drawn centres and shifted, compared vertex by vertex with the axis-angle formula; '
      'non-trivial = at least one triangle and a non-zero angle')
check('C06', oracle='defining identities over vector pairs of all relations',
      rule='pairs of vectors (any, parallel, opposite, nearly so, perpendicular, axes) over nine orders of magnitude with points and planes; every case is non-trivial')
check('C22', oracle='defining conditions on the kept subsequence',
      rule='polylines of 1..40 points (random, walks, smooth, collinear, grid, repeated points, closed) and epsilon; non-trivial = some inner points kept and some dropped')
check('C23', oracle='angle from the area vector as reference; metamorphic scaling and rotation',
      rule='meshes and triangles facing chosen directions (straight up and down included); non-trivial = some but not all triangles marked')
check('C33', oracle='exact integer mean along the arc; metamorphic turning',
      rule='sorted directions within less than half a ring, rings of 3..1000 units, each also turned by a drawn amount; non-trivial = the arc contains zero')
check('C07', oracle='exact integer classification on a grid; reference section in floats',
      rule='triangles and planes on an integer grid (planes through vertices and edges over-represented), judged exactly, and triangles and planes '
      'of any size and position judged with tolerances; non-trivial = the plane separates the vertices in a section longer than 4e-6')
check('C08', oracle='multiset of directed segments, completeness of joining',
      rule='loops and chains over at most 14 places, cut in pieces, shuffled, coordinates jittered up to 2e-8; non-trivial = something is joined')
check('C09', oracle='known corner sequence; tolerances on length and area',
      rule='open and closed paths given by their corners with extra points on the sides and any start point, and gentle curves; non-trivial = a point is dropped')
check('C10', oracle='winding number and shoelace area as reference',
      rule='simple polygons of ten families at any place, turn, start vertex and direction; probe points aligned with vertices and edges over-represented; '
      'pairs shrunk, moved, touching or unrelated; non-trivial = polygon judged, point inside judged, pair judged')
check('C11', oracle='area centroid of the polygon; metamorphic motion',
      rule='simple polygons in horizontal, vertical and tilted planes, each also translated and rotated; non-trivial = centre compared')
check('C12', oracle='heights and counts computed from the vertices',
      rule='closed models of six families (up to 3 bodies, cavities, holes, any rotation) sliced along drawn directions of any length at layer heights '
      'that often put layers exactly at vertices; meshes without height; non-trivial = at least two layers, or a flat or empty mesh')
check('C13', oracle='generalised winding number of the mesh at generated points; border length and area of the exact section',
      rule='models and directions as in C12, every contour judged at points drawn in the plane and beside contours and section borders; single planes '
      'through vertices over-represented; non-trivial = some judged point lies inside the model')
check('C20', oracle='generalised winding number, volume, area and edge pairing of the parts against the original',
      rule='closed models of six families (up to 3 bodies, cavities, holes, any rotation) cut one to three times in a row by drawn planes (axis-parallel, '
      'rational and any normals of any length, through vertices, coplanar with faces, missing the model), kept part drawn; non-trivial = both parts have volume')
GC = 'programs of 1..14 commands (layers of four groups of paths: random, one-point, repeated points, steps far below 0.001 mm, circles, very long; bed turns and tilts; any settings) '
check('C24', oracle='machine model executing the G-code, against the given paths',
      rule=GC + 'executed by a model of the printer and followed path by path; non-trivial = something is printed')
check('C25', oracle='machine model executing the G-code, against lengths times cross-section',
      rule=GC + 'extruder position compared after every printing move and retraction, counter resets included; non-trivial = something is printed')
check('C26', oracle='machine model executing the G-code, against the settings',
      rule=GC + 'speed, fan and layer number of every printing move; non-trivial = at least two different speeds are used')
check('C27', oracle='machine model executing the G-code, with bed axes',
      rule=GC + 'bed angles, parking, tool and counter after every bed command, first travel after it; non-trivial = at least two bed movements')
check('C16', oracle='reference offset polygon, corner by corner',
      rule='simple polygons of ten families at any place, turn, start vertex and direction, in horizontal and tilted planes, offset by 0.02..2 mm; '
      'non-trivial = the mitres stay within 2 mm and the vanishing edges (if any) leave neighbours that meet')
check('C17', oracle='reference walls: offsets by one, two, ... line widths',
      rule='layers of 0..3 contours of either direction, line widths and wall thicknesses that are often exact multiples, 0..5 skirt lines; '
      'non-trivial = at least one wall or skirt line is compared')
check('C18', oracle='chords of the even-odd region computed on either side of every fill plane',
      rule='layers of 1..3 simple polygons of ten families with holes, filled along drawn planes (through corners over-represented), and models of six families '
      'sliced, walled and filled; non-trivial = something is filled')
check('C19', oracle='spacing and range from the settings and the vertices; chords of squares on the planes',
      rule='boxes and models on and off the origin, all densities and patterns; stacks of squares with any number of top and bottom layers, planes also in '
      'another order; non-trivial = off the origin, density not divisible by the number of families, or some layers solid and some not')
check('C21', oracle='edge pairing, stored normals, bounds and volume of the result',
      rule='closed models of six families, each triangle divided in 4, 16 or not at all, simplified to drawn sizes (hardly anything left, one less, the same, '
      'more, any part), each twice; non-trivial = a smaller mesh is returned', crash_times=20)
check('C28', oracle='bed kinematics as reference: the turn and tilt of the line applied to the normal; write-read round trip',
      rule='plane lines with drawn numbers, flags and separators, and the planes suggested for models of six families standing on the bed, any limit angle; '
      'non-trivial = a plane line, or a tilted plane is suggested')
check('C29', oracle='reference analysis: lowest overhanging face of what the previous planes leave', termination=True,
      rule='models of six families (up to 3 bodies, cavities, any rotation) standing on or above the bed, limit angles 0..90; non-trivial = a plane is suggested')
check('C30', oracle='bed kinematics, generalised winding number of the model between the planes, chords of the region on equally spaced planes',
      rule='models of six families on or above the bed, cut by 0..4 drawn planes (level, turned, tilted, missing the model) or the planes the analyser suggests, '
      'any rotation centre and settings; non-trivial = at least two parts are printed')
check('C31', oracle='process outcome; unturned print compared with the model (points inside, printed volume) and with plain slicing where nothing overhangs',
      rule='five modes times columns, pairs of legs, round columns, models of six families and the empty model; '
      'non-trivial = the bed is turned, or the layers are compared with plain slicing', termination=True)
check('C32', oracle='bed kinematics: the commanded turn and tilt applied to the axis of the section or the normal of the cut; sections as printed compared with the turned model',
      rule='columns of 1..4 sections leaning up to 75 degrees toward any direction, drawn cross-sections, bridges of two leaning legs, solids of revolution, and models of six families; '
      'non-trivial = the bed is tilted')
check('C37', oracle='chords of the region on equally spaced lines in the plane of the layer; walls of the layer on its own',
      rule='leaning columns, models of six families, bridges with leaning legs and solids of revolution sliced by the vip mode with drawn settings, every set of '
      'layers judged in the orientation in which it is printed; non-trivial = infill is judged')
check('C34', oracle='the library called in this process, templates filled in independently; exit status and messages under faults',
      rule='models of C31 with drawn values of every option (present or left out, long and short flags) and drawn or own templates; faulty invocations: missing, '
      'cut or arbitrary model files, coordinates that are no numbers, unknown type, outputs that cannot be written, missing templates, bad flags and numbers, '
      'damaged planes files; non-trivial = layers are printed, or any faulty invocation', cmds=['./cmd/goosli'], termination=True)
check('C35', oracle='the library called in this process, files decoded independently, sides of the plane and face angles computed; exit status and messages under faults',
      rule='closed models of six families, one run each of the cutter, simplifier, colorizer and analyzer with drawn options (present or left out, long and '
      'short flags, outputs that exist already); faulty invocations as in C34, each output in turn; non-trivial = both parts are not empty, something is '
      'simplified, some but not all triangles are marked, a plane is suggested, or any faulty invocation',
      cmds=['./cmd/goosli_cutter', './cmd/goosli_simplifier', './cmd/goosli_colorizer', './cmd/goosli_analyzer'], termination=True)
check('C36', oracle='model of the file over the history of calls; the file before and after',
      rule='histories of 1..10 drawing calls and slicing runs (five modes, four models) in a process with debugging on, off or not configured, and a debug file '
      'that exists or not; non-trivial = something is drawn, or debugging is off')
check('C15', oracle='reference walls under the border lines of the overhang, halves judged clear or blocked by exact contact with the model; contours without supports',
      rule='one to three bodies above one another (voxel solids, prisms, lofts, stars, revolved; cavities, any rotation), sliced upwards or along any direction with drawn '
      'threshold angles, offsets and layer heights; every added line judged at five points, every wall at seven points of every layer, except within 0.001 mm of '
      'wall borders and on halves that touch the model; border lines of arbitrary sets of triangles; non-trivial = a point that needs a support is judged, or a set has inner lines')
check('C14', oracle='metamorphic: other schedules, processor counts, simultaneous runs, triangle orders; race detector',
      rule='models and options of C31/C34 in five modes (supports included), each sliced repeatedly on 1..16 scheduler threads, 2..4 times at once on one mesh, and in '
      'processes bound to 1, 2, 3 and 5 processors, results compared bit by bit under the race detector; models of C12 with shuffled triangles; '
      'non-trivial = layers are made, or a point inside is compared', race=True)
