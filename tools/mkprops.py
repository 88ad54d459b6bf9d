#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: python3 tools/mkprops.py > properties.jsonl"""
import json
P = []
def prop(id, title, statement, text, why, files, mech, over=("inputs",), state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": list(observe), "hook_needed": None}})

prop("C01", "STL written by the library is read back as the same model",
 "Saving any mesh as STL and loading the file gives a mesh with the same number of triangles, in the same order, with the same vertex order and with every coordinate equal to the original rounded to single precision. Facet normals of the loaded mesh are recomputed from the loaded vertices and follow their winding.",
 "every mesh (0 to thousands of triangles, degenerate and duplicated triangles included) with finite single-precision coordinates of any magnitude and sign",
 "No existing test saves an STL file at all; loading is exercised on five fixed ASCII files whose contents are never compared.",
 ["primitives/stl.go", "primitives/triangle.go", "primitives/utils.go"],
 [("SaveSTL", "primitives/stl.go"), ("LoadSTL/loadSTLBinary", "primitives/stl.go"), ("DoInParallelAndWait", "primitives/utils.go")],
 observe=["LoadSTL result after SaveSTL", "bytes of the written file"])

prop("C02", "ASCII and binary STL of one model load to the same mesh",
 "A text STL file loads to the triangles its vertex lines spell out, in file order, every coordinate being the single-precision value of its decimal text, whatever the indentation, spacing, line endings, number format (sign, exponent) and solid name. The result is the same as loading the binary STL of the same model.",
 "all well-formed text STL files over finite single-precision coordinates, all layouts of white space, line endings and number notation",
 "Tests load five ASCII files from one exporter and look only at how many layers they slice into; they cannot vary notation or compare coordinates.",
 ["primitives/stl.go", "primitives/utils.go"],
 [("loadSTLAscii", "primitives/stl.go"), ("ParseFloat", "primitives/utils.go")], observe=["LoadSTL result"])

prop("C03", "Damaged or arbitrary STL files are rejected or loaded, never worse",
 "Loading any byte sequence ends with a mesh or an error; it never panics. A binary STL file written by the library and then cut short or extended at any byte is reported as an error, never loaded as a different model.",
 "every byte string as file content; every truncation length and every appended tail of a binary STL file",
 "Crash points and arbitrary bytes form an unbounded set; the tests load only intact files.",
 ["primitives/stl.go"], [("size check and format choice", "primitives/stl.go:LoadSTL")], over=("inputs", "crash_points"), observe=["error result of LoadSTL"])

prop("C04", "A failed write of an STL file is reported",
 "When saving a mesh does not get every byte of the file to the operating system, whatever the byte at which writing stops, the save reports an error. A save that reports success leaves a complete file of 84+50n bytes.",
 "every mesh size and every byte offset at which the file system stops accepting data (full device, file size limit), also when the target cannot be created",
 "Tests never inject a write fault; the fault position is a quantifier over all byte offsets including those inside the last buffered block.",
 ["primitives/stl.go"], [("buffered writer and flush", "primitives/stl.go:SaveSTL")], over=("fault_sequences", "inputs"), observe=["error result of SaveSTL", "size of the file"])

prop("C05", "Rotating and shifting a mesh are rigid motions",
 "Rotating a mesh by any of the provided rotations about any centre, or shifting it, keeps triangle count and order, all distances, the enclosed signed volume and the agreement of facet normals with vertex winding; the centre of rotation stays fixed and rotating by an angle and then by its opposite restores the mesh. Rotation leaves the input mesh untouched, and rotating points, vectors and planes agree with each other and with axis-angle rotation.",
 "all meshes, centres, angles (including negative and over 360 degrees) and shift vectors",
 "Tests shift one triangle by two vectors; no rotation is tested.",
 ["primitives/mesh.go", "primitives/rotation_matrix.go", "primitives/vector.go", "primitives/triangle.go", "primitives/plane.go"],
 [("Mesh.Rotate, Mesh.Shift", "primitives/mesh.go"), ("RotationAroundX/Z", "primitives/rotation_matrix.go"), ("Vector.Rotate/RotateAbout", "primitives/vector.go"), ("Plane.Rotate", "primitives/plane.go")],
 over=("inputs",), observe=["rotated mesh coordinates and normals"])

prop("C06", "Vector and point algebra obeys Euclidean geometry",
 "The angle between two non-zero vectors is their true angle in degrees in [0,180], independent of their lengths and of argument order, with 180 minus it for the reversed vector, in particular 0 for parallel and 180 for opposite vectors however they round. Projections onto a vector, a line or a plane are orthogonal and idempotent, normalisation gives unit length and keeps direction, and distances, dot and cross products satisfy their defining identities.",
 "all finite non-zero vectors, points, lines and planes over several orders of magnitude, including parallel and opposite pairs with rounding noise",
 "Tests compare a few integer vectors; rounding beyond +-1 of the cosine happens only for particular bit patterns.",
 ["primitives/vector.go", "primitives/point.go", "primitives/plane.go", "primitives/line.go"],
 [("Vector.Angle, ProjectOn, ProjectOnPlane, Normalize", "primitives/vector.go"), ("Point.ProjectOnLine, DistanceToLine", "primitives/point.go"), ("Plane.ProectionPointToPlane, PointBelongs", "primitives/plane.go")],
 observe=["return values"])

prop("C07", "Cutting a triangle or a segment with a plane gives the true section",
 "A plane that separates the vertices of a triangle, points in the plane counting as in front of it, cuts it in a segment whose two ends lie in the plane and on the triangle's border, directed so that the solid (the side opposite the facet normal) is on the right when seen from the plane's normal side; a plane that does not separate the vertices gives no segment. A segment is cut exactly when its ends are not on the same open side of the plane and it is not parallel to it, in the point of the segment that lies in the plane.",
 "all triangles and planes (any normal length and orientation), including planes through vertices and edges, with feature sizes above the tolerance of 1e-6",
 "Tests check seven triangle/plane pairs; orientation, general planes and vertex/edge incidences quantify over all inputs.",
 ["primitives/plane.go", "primitives/triangle.go"],
 [("Plane.IntersectTriangle, IntersectSegment, Intersect", "primitives/plane.go"), ("Triangle.MinMaxZ", "primitives/triangle.go")], observe=["segment ends, direction, nil"])

prop("C08", "Joining segments into contours loses, invents and reverses nothing",
 "Joining a set of directed paths yields paths that traverse exactly the same directed segments (but for those shorter than 1e-6) the same number of times. Joining is complete: no two resulting open paths can be joined end to start any more, so segments of closed loops come back as closed loops, whatever their order, coordinates and number, also where several loops touch in one point.",
 "all multisets of directed paths, in every order, with shared, repeated and nearly equal (within 1e-6) end points",
 "Tests join up to four segments in seven fixed orders (and fail for four of them); order and multiplicity of coincident end points are unbounded.",
 ["primitives/path.go"], [("JoinPaths3 and tryJoin", "primitives/path.go"), ("JoinPaths2", "primitives/path.go")], observe=["resulting paths"])

prop("C09", "Merging collinear segments keeps the contour's shape",
 "Merging collinear lines of a path keeps its trace: only points on straight runs are dropped, kept points stay in order, ends of open paths stay, closed paths stay closed, and length and enclosed area change by no more than 5e-7 per dropped point (of segments at least 0.01 mm long). Afterwards no inner point of a straight run is left, also where the run contains the closing point of a closed path; where a path turns or doubles back its corner stays.",
 "all open and closed paths in space with segment lengths from 1e-2 to 1e3, with any number of collinear runs anywhere, including across the start of a closed path",
 "The merging step has no test; where runs start, end and wrap around is a quantifier over all paths.",
 ["primitives/path.go", "primitives/line.go"], [("Path.MinimizeLines", "primitives/path.go"), ("JoinPaths3AndMinimize", "primitives/path.go"), ("Line.IsCollinear", "primitives/line.go")], observe=["resulting points"])

prop("C10", "Polygon predicates agree with geometry",
 "For every simple polygon the winding test, the solid/hole test, the closed test and closing, and the point-in-polygon test agree with the polygon's true orientation and interior, wherever the path starts and whichever grid lines the point shares with vertices. A polygon is reported inside another exactly when it lies within it without touching its border.",
 "all simple polygons (convex, concave, any orientation, start vertex and position) in horizontal planes, point inclusion also in tilted planes; points away from the border; pairs of polygons that are nested, disjoint or crossing",
 "Tests use one unit square and points off its symmetry lines.",
 ["primitives/path.go", "primitives/point.go", "primitives/line.go"],
 [("Point.Inside", "primitives/point.go"), ("Path.IsInside/IsWindingCW/IsClosed/Close", "primitives/path.go"), ("Line.IntersectLine", "primitives/line.go")], observe=["boolean results"])

prop("C11", "The centre of a contour is the centroid of its area",
 "The centre computed for a closed planar contour is the centroid of the enclosed area, for any orientation of the plane, any direction of travel and any start point, and moves with the contour under translation and rotation.",
 "all simple planar polygons of any shape with at least 0.01 area per mm of distance scale, in horizontal, vertical and tilted planes",
 "Tests compute four centroids, all of quadrilaterals and near the origin.",
 ["primitives/path.go"], [("FindCentroid", "primitives/path.go")], observe=["centroid point"])

prop("C12", "Slicing stacks evenly spaced layers over the whole height",
 "Slicing a closed mesh of height H at layer height t along any direction gives ceil(H/t) layers (less only an empty one at either end) at heights (i+1/2)H/ceil(H/t) above the lowest point, in increasing order, numbered consecutively, carrying the slicing direction as normal, with every contour point in its layer's plane. The direction's length does not matter, and a mesh with no height or no triangles gives no layers and no crash.",
 "all closed meshes, slicing directions and layer heights, from a fraction of a layer to hundreds of layers, including flat and empty meshes",
 "Tests count layers of five models at one layer height along Z.",
 ["slicers/slice_by_vector.go", "primitives/mesh.go"], [("SliceByVector", "slicers/slice_by_vector.go"), ("Mesh.MinMaxZ", "primitives/mesh.go")],
 over=("inputs", "configurations"), observe=["layers returned by SliceByVector and Plane.IntersectMesh"])

prop("C13", "Layer contours are exactly the cross-section of the model",
 "In every layer of a closed mesh the contours are closed paths that bound exactly the model's cross-section at that height: outer borders run clockwise and holes counter-clockwise seen against the slicing direction, every point of the plane is enclosed by the contours exactly when it is inside the model, and each border appears once. This holds for several bodies, holes, cavities, bodies touching along edges and planes passing exactly through vertices, edges and coplanar faces of the mesh.",
 "all closed oriented meshes (convex, concave, with holes and cavities, several bodies), slicing directions and layer heights; points of the plane at least 1e-4 from the border",
 "Tests never look at a contour; coincidences between slicing planes and vertices, and touching loops, arise only for particular combinations of model and layer height.",
 ["slicers/slice_by_vector.go", "primitives/plane.go", "primitives/path.go"],
 [("active triangle sweep", "slicers/slice_by_vector.go:SliceByVector"), ("Plane.IntersectTriangle", "primitives/plane.go"), ("JoinPaths3AndMinimize", "primitives/path.go"), ("Plane.IntersectMesh", "primitives/plane.go")],
 over=("inputs", "configurations"), observe=["layers returned by SliceByVector and Plane.IntersectMesh"])

prop("C14", "Slicing is deterministic and does not depend on scheduling or order",
 "Slicing the same mesh with the same settings gives the same layers and the same G-code every time, however the worker goroutines are scheduled and however many processors there are, without data races, also when several slicing runs proceed at the same time. It does not change the input mesh, and listing the mesh's triangles in another order, or starting them at another vertex, describes the same regions.",
 "all goroutine schedules, processor counts, repetitions and concurrent runs; all permutations of the triangle list; all meshes and settings",
 "A test run observes one schedule of the workers and one triangle order.",
 ["slicers/slice_by_vector.go", "primitives/utils.go", "primitives/mesh.go"],
 [("slicingWorker, ordered merge of layers", "slicers/slice_by_vector.go"), ("DoInParallel, DoInParallelAndWait", "primitives/utils.go"), ("CopyTriangles", "primitives/mesh.go")],
 over=("schedules", "inputs"), observe=["layers, G-code bytes, input mesh after the call, race detector"])

prop("C15", "Supports stand under overhangs and leave the model alone",
 "With supports on, every layer contains all contours it has with supports off, plus sections of vertical walls that join the border of the overhanging area, lowered by the support offset, to the plane of the lowest point wherever nothing is in between. Lines shared by two overhanging triangles raise no wall, and with no overhang nothing is added.",
 "all meshes with downward-facing areas of any shape, height, number and steepness; all threshold angles, offsets and layer heights",
 "Supports are never switched on in a test.",
 ["slicers/slice_by_vector.go", "helpers/supports_by_vector.go", "helpers/colorize_triangles.go"],
 [("support triangles in SliceByVector", "slicers/slice_by_vector.go"), ("MakeUndoubledLinesFromTriangles, MakeSupportLines, DeleteInternalLines, IntersectTriangles", "helpers/supports_by_vector.go")],
 over=("inputs", "configurations"), observe=["layer paths with supports on and off"])

prop("C16", "Inner walls run parallel to the contour at one line width each",
 "The offset of a closed contour by a distance d is a closed contour whose edges are the original edges moved by exactly d into the material (to the right of travel seen along the normal) and trimmed at their mutual intersections, at every corner including the one where the path starts. An edge which vanishes on the way is left out, its neighbours meet instead; a contour all of whose edges vanish has no offset. The k-th wall of a layer therefore lies k line widths from the outer contour: inside an outer border, and outside a hole.",
 "all simple contours of either orientation, in any plane, with any start vertex and any offset distance, however thin, whose corners stick out by at most 2 mm and which the offset does not tear into several pieces",
 "Offsetting has no test; the start corner is treated by different code than the others.",
 ["slicers/vip/offset_path.go", "slicers/vip/utils.go", "primitives/line.go"],
 [("MakeOffset", "slicers/vip/offset_path.go"), ("Line.IntersectLine2", "primitives/line.go"), ("PrepareLayers", "slicers/vip/utils.go")], observe=["offset paths"])

prop("C17", "Wall thickness and skirt settings decide how many loops are printed",
 "A layer prepared for printing has floor(wall thickness / line width) walls per contour, as many of them as fit into it: the contour itself, the innermost as inner wall and the others as middle walls from outside to inside, nothing but the contour for fewer than two; contours themselves are not altered. The skirt puts the requested number of loops around each contour of the first layer, farthest first, k line widths away in the air, before the unchanged contour, and none when zero are requested.",
 "all layers with contours of any size (also too small for some or all of the walls, unless the offset tears them apart), all wall thicknesses (exact multiples of the line width included), line widths and skirt counts",
 "Tests never inspect walls; exact multiples such as 1.2/0.4 are decided by floating-point rounding.",
 ["slicers/vip/utils.go", "slicers/vip/slice_by_planes.go"], [("PrepareLayers, offset, SkirtPathes", "slicers/vip/utils.go")], over=("inputs", "configurations"), observe=["Layer.Paths, MiddlePs, InnerPs"])

prop("C18", "Infill stays inside the walls and fills all of the interior",
 "Every infill line of a layer lies in the layer's plane, on one of the fill planes and inside the area bounded by the innermost walls (the contours when there are no inner walls), holes excluded. Conversely, wherever a fill plane crosses that area the whole crossing is covered by infill exactly once, including planes that pass exactly through corners.",
 "all layers of closed contours with holes and several islands, any orientation, with fill planes in any position relative to vertices",
 "Tests run the filling code but never look at a fill line; planes through vertices change the parity of crossings only for particular inputs.",
 ["slicers/fill_layer.go"], [("intersectByPlane, FillLayers, sortFillPathes", "slicers/fill_layer.go")], observe=["Layer.Fill"])

prop("C19", "Infill density, pattern and solid layers follow the settings",
 "The fill planes for a pattern are one, two or three families of parallel vertical planes (Lines; Squares; Triangles at 60 degrees), equally spaced within a family so that all families together give the requested density for the line width, and reaching over every point of the model. The first BottomLayers and last TopLayers layers are filled with lines one line width apart instead, and the order in which fill lines are printed changes only their order and direction.",
 "all meshes anywhere on or off the origin, densities 1..100, line widths, patterns and numbers of top and bottom layers, also more than there are layers",
 "Tests use one density and the default pattern and check nothing about the result; off-centre models and small densities are needed to see a gap.",
 ["slicers/fill_layer.go", "slicers/settings.go"], [("CalcFillPlanes and its families", "slicers/fill_layer.go"), ("FillLayers top/bottom choice", "slicers/fill_layer.go")], over=("inputs", "configurations"), observe=["fill planes", "Layer.Fill"])

prop("C20", "Cutting a mesh divides the solid exactly in two closed solids",
 "Cutting a closed mesh by a plane gives a part in front of the plane and a part behind it, each a closed, outward-oriented mesh, which together enclose exactly the original solid: every point is inside the part on its side exactly when it is inside the original, and the volumes add up. This holds for concave sections, sections with holes or several pieces, and planes through vertices, edges and faces; a plane that misses the mesh returns it whole on the correct side, and the input mesh is unchanged.",
 "all closed oriented meshes and all cutting planes (any normal length), including planes through vertices, along edges, coplanar with faces and missing the mesh",
 "Cutting has no test; concave sections, holes and vertex incidences are needed.",
 ["helpers/cut_mesh.go", "primitives/plane.go", "primitives/path.go"], [("CutMesh, splitOnThree, cap fans", "helpers/cut_mesh.go")], observe=["both result meshes"])

prop("C21", "Mesh simplification meets the target and keeps the solid closed",
 "Simplifying a mesh to n triangles returns at most n triangles, the very same mesh when it already has at most n, or an error; it never panics. The simplified closed mesh is still closed and outward-oriented, stays within the neighbourhood of the original bounds and, where the original is finely tessellated, keeps its volume.",
 "all closed meshes and all target counts, including zero, targets that cannot be reached and targets above the size",
 "Simplification has no test; it is randomised by map iteration, so each run is a different schedule of collapses.",
 ["helpers/simplify_mesh.go"], [("SimplifyMesh and mesh conversion", "helpers/simplify_mesh.go")], over=("inputs", "schedules"), observe=["result mesh, error"])

prop("C22", "Line simplification keeps ends and stays within epsilon",
 "Simplifying a polyline returns a subsequence of its points that starts and ends with its first and last point, in which every dropped point lies within epsilon of the line through its two kept neighbours, and no point further than epsilon from such a line is dropped. The input is unchanged, and a larger epsilon never keeps a shape worse than epsilon.",
 "all polylines of two or more points (repeated points and closed lines included) and all epsilon >= 0",
 "Line simplification has no test.",
 ["helpers/simplify_line.go", "primitives/point.go"], [("SimplifyLine", "helpers/simplify_line.go"), ("Point.DistanceToLine", "primitives/point.go")], observe=["returned points"])

prop("C23", "Overhang colouring marks exactly the faces steeper than the limit",
 "Colouring a mesh yields one flag per triangle in mesh order, true exactly for triangles whose outward normal deviates from straight-down (the reverse of the given vector) by less than 90 degrees minus the limit angle. Filtering returns exactly the marked triangles in order; triangle size and vector length do not matter, and scaling or jointly rotating mesh and vector changes no flag.",
 "all meshes with non-degenerate triangles, all limit angles and vectors, including faces exactly up or exactly down in general directions",
 "Colouring has no test; faces exactly opposite to the vector depend on rounding.",
 ["helpers/colorize_triangles.go", "primitives/vector.go"], [("ColorizeTriangles, FilterTrianglesByColor", "helpers/colorize_triangles.go"), ("Vector.Angle", "primitives/vector.go")], observe=["flags, triangles"])

prop("C24", "The nozzle follows every path of every layer, in order",
 "Interpreting the generated G-code as a printer would, the extruding moves trace exactly the paths given: per layer the outer, middle and inner walls and then the fill, each from its first to its last point, every vertex reached within 0.001 mm, with no extruding move anywhere else. Between paths the nozzle travels without extruding, first raised by 0.5 mm where it stands, and arrives from 0.5 mm above the start of the next path.",
 "all sequences of commands and layers with any number of paths and points, including steps far below 0.001 mm, one-point paths, empty layers, large and negative coordinates",
 "No test reads the G-code; drift from suppressed coordinates accumulates only over long paths with small steps.",
 ["gcode/cmds.go", "gcode/gcode.go", "primitives/point.go"], [("pathesToGCode", "gcode/cmds.go"), ("Point.StringGcode/StringDelta", "primitives/point.go"), ("Gcode.ToOutput", "gcode/gcode.go")],
 over=("inputs", "histories"), state=[("pos", "where the generator believes the nozzle is", "gcode/cmds.go:State")], observe=["G-code text"])

prop("C25", "Extruded material matches the length printed",
 "Along every printing move the extruder advances by 4*line width*layer height*length*flow/(pi*bar diameter^2), accumulated without drift over the whole program and across counter resets and bed rotations; the counter never runs backwards except where the program resets it. With retraction on, the nozzle travels with exactly the retraction distance pulled back, which is pushed again before printing, and nothing else changes.",
 "all histories of commands, layers and paths and all printing settings, including programs long enough to reset the counter several times",
 "No test reads extrusion values; counter resets need more than 4000 mm of filament.",
 ["gcode/cmds.go"], [("pathesToGCode, decreaseEOff, retractionToGCode", "gcode/cmds.go")],
 over=("histories", "configurations"), state=[("eOff", "extruder counter", "gcode/cmds.go:State")], observe=["G-code text"])

prop("C26", "Speeds, fan and layer numbers in the program follow the settings",
 "Layers are announced by LAYER comments numbered 0,1,2,... over the whole program, whose number equals the reported layer count. Every printing move runs at the speed configured for it (first layer, walls, or fill) whatever was executed before, and the fan is on for every printing move except on the first layer when it is to be off there, with no redundant fan switching.",
 "all histories of layer groups, bed rotations and retractions and all combinations of the three speeds, retraction and fan settings",
 "No test reads speeds; which speed is in force depends on the whole history of commands.",
 ["gcode/cmds.go", "gcode/gcode.go"], [("printSpeedToGCode, switchFanGCode, layer comments", "gcode/cmds.go"), ("LayerCount", "gcode/gcode.go")],
 over=("histories", "configurations"), state=[("feedrate", "speed believed to be in force", "gcode/cmds.go:State"), ("fan", "fan state", "gcode/cmds.go:State"), ("layerIndex", "next layer number", "gcode/cmds.go:State")], observe=["G-code text"])

prop("C27", "Bed rotations reach the commanded angle and printing resumes safely",
 "After any history of bed commands the physical turn and tilt of the bed equal the last commanded angles (tilt 60 or 0), each reached with the nozzle parked at the safe height and the print tool and its extrusion counter restored afterwards. The first travel after a bed movement starts from the parked position: the nozzle does not descend until it moves to the next path.",
 "all sequences of rotate, incline, incline-back and layer commands in any order and repetition",
 "No test reads the program; the rotation axes are relative counters whose value depends on the history.",
 ["gcode/cmds.go"], [("RotateZ, InclineX, InclineXBack, RotateXZ", "gcode/cmds.go")],
 over=("histories",), state=[("t1,t2", "bed axis counters", "gcode/cmds.go:State"), ("pos", "nozzle position", "gcode/cmds.go:State")], observe=["G-code text interpreted by a machine model"])

prop("C28", "A plane suggested by the analyser means the same plane to the slicer",
 "The text line the analyser writes for a cutting plane, read back by the slicer, denotes the same plane: same point to three decimals, same tilt flag, same normal direction up to the three decimals of its angle. Turning the bed by the plane's angle and tilting it brings that plane to horizontal, and reading a well-formed plane line yields its point, flag and angle, to the accuracy of a 32-bit number.",
 "all planes the analyser can suggest (overhangs facing any direction) and all well-formed plane lines",
 "Neither writing nor reading plane lines is tested; overhangs facing the negative Y side behave differently.",
 ["slicers/vip/analyze.go", "slicers/vip/slice_by_planes.go"], [("Analyze, AnalyzedPlane.String, ParsePlane", "slicers/vip/analyze.go")], observe=["planes returned by Analyze and ParsePlane"])

prop("C29", "Analysis terminates with planes at the lowest overhangs",
 "Analysing any mesh ends without a crash with at most six planes. A model without overhanging faces above the bed gets no plane; otherwise the first plane is tilted, faces the overhang and passes through the lowest point of the lowest overhanging face. Each further plane is chosen alike for the part in front of the last plane and along its normal, where faces on the bed and on the last cut do not count; tilted and level planes alternate, and analysis stops before six planes only when nothing overhangs any more.",
 "all meshes (closed solids standing on the bed, with overhangs in any number, direction and height) and all limit angles",
 "Analysis has no test; indexing after the first cut depends on how many triangles the cut produced.",
 ["slicers/vip/analyze.go", "helpers/colorize_triangles.go", "helpers/cut_mesh.go"], [("Analyze loop", "slicers/vip/analyze.go")], observe=["planes returned by Analyze"])

prop("C30", "Slicing by planes prints every part of the model, each in its orientation",
 "For any list of cutting planes the program prints the parts between consecutive planes in order, each preceded by the bed commands for its plane, and undoing the commanded bed rotation puts every printed outer contour back on the surface of the model or on one of the cutting planes, on the proper side of the planes. All parts together contain the whole model once, the walls, infill and solid layers of each part follow the settings wherever rotation moves it, and only the very first layer gets a skirt.",
 "all closed meshes, lists of zero to several tilted and level planes, rotation centres and settings",
 "The only test of this package has its body commented out.",
 ["slicers/vip/slice_by_planes.go", "slicers/vip/utils.go", "helpers/cut_mesh.go", "slicers/slice_by_vector.go"], [("SliceByPlanes, calcBedPlanes", "slicers/vip/slice_by_planes.go")],
 over=("inputs", "configurations"), observe=["G-code commands and their layers"])

prop("C31", "Every slicing mode completes on every sound model",
 "Each slicing mode (3axes, 5axes, 5axes_by_profile, vip with and without a plane file) ends with a program for every closed model standing on the bed, whatever its shape class (legs, solids of revolution, boxes, several bodies, overhangs or none), and for an empty model, without panicking or stopping the process. Together the layers a mode prints, with the bed movements undone, make up the model: nothing lies outside of it and, up to one layer for each part, its whole volume is printed. Where nothing overhangs, the five-axis and vip modes leave the bed alone and print the contours of plain slicing.",
 "all closed models of the shape classes the modes distinguish, standing anywhere on the bed, and usual settings",
 "Only plain slicing of five models is run; the other modes are never executed by a test.",
 ["slicers/vip/slice_main.go", "slicers/vip/slice_bridge.go", "slicers/vip/slice_rotation.go", "slicers/vip/slice_default.go", "slicers/slice_5axes.go", "slicers/slice_by_profile.go"],
 [("vip.Slice dispatch", "slicers/vip/slice_main.go"), ("SliceBridge/SliceRotation/SliceDefault2", "slicers/vip"), ("Slice5Axes", "slicers/slice_5axes.go"), ("SliceByProfile", "slicers/slice_by_profile.go")],
 over=("inputs", "configurations"), observe=["process outcome, layer counts"])

prop("C32", "Automatically chosen bed orientations make the print direction vertical",
 "When profile slicing turns the bed for a leaning section, the commanded turn and tilt bring the section's axis to vertical, for sections leaning in any compass direction. When five-axis slicing cuts a model at an overhang, the cutting plane leans the way the model overhangs there, and the commanded turn and tilt bring its normal to vertical; the same holds when bridge slicing cuts a leg that leans toward the other, which it does where the leg starts to lean. Columns, legs and walls that lean or widen by clearly more than 40 degrees are cut where they start to, those clearly below 40 are not cut. Solids of revolution, hollow ones too, that widen too steeply on their outside are printed upright up to there and in layers across their axis with the bed tilted from there on, and the bed is put back at the end. Models that are round only at the foot or the top, or stand on several round legs, are not taken for such solids. Cavities and other parts standing beside do not change where and in which direction an overhang is cut. What profile slicing prints for a section are the layers of that section as turned.",
 "all leaning prisms and overhanging models, leaning or overhanging toward every compass direction",
 "These modes have no test; directions with negative Y differ because an unsigned angle was used.",
 ["slicers/slice_by_profile.go", "slicers/slice_5axes.go", "slicers/vip/slice_default.go", "slicers/vip/slice_bridge.go", "slicers/vip/slice_rotation.go"], [("angleZ/angleX computation", "slicers/slice_by_profile.go"), ("CalculateFails", "slicers/slice_5axes.go")], observe=["RotateXZ/RotateZ commands"])

prop("C33", "The middle of directions on a circle lies amid them",
 "For sorted directions that fit in less than half a circle, possibly across the zero direction, the chosen middle is their mean along that arc rounded down to a whole unit, in the range [0, full circle), and turning all directions together turns the middle with them.",
 "all non-empty sorted lists of directions within half a ring, all ring sizes, including arcs that contain zero",
 "Tests evaluate four lists.",
 ["slicers/slice_5axes.go"], [("MiddleOnTheRing", "slicers/slice_5axes.go")], observe=["returned direction"])

prop("C37", "Walls, infill and solid layers follow the settings in the orientations the vip mode chooses",
 "Each run of layers that the vip mode prints between bed movements of its own choice (upright, tilted at an overhang, bridge legs, solids of revolution) has, in every layer, the walls the settings give that layer, infill lines of the set pattern covering the area inside of the innermost walls and nothing else, with the spacing in the plane of the layer that gives the set density, and one line width apart in the first BottomLayers and last TopLayers layers of the run.",
 "all models with columns, legs, overhangs or round shape, leaning toward any direction, and all settings of walls, pattern, density and solid layers",
 "No test runs these modes; tilting the fill planes with the model doubles the distance of the lines in the layers unnoticed.",
 ["slicers/vip/slice_default.go", "slicers/vip/slice_bridge.go", "slicers/vip/slice_rotation.go", "slicers/vip/utils.go", "slicers/fill_layer.go"], [("SliceDefault2/SliceBridge/SliceRotation fill planes", "slicers/vip"), ("PrepareLayers", "slicers/vip/utils.go")],
 over=("inputs", "configurations"), observe=["infill and walls of the layers in G-code commands"])

prop("C34", "The goosli command turns an STL and options into the complete program",
 "For every model and option set the command writes one file: header, program, footer, in which the program is the one the library generates for the shifted model with those options, the header carries the given temperatures, layer height, wall thickness, density and speed and the true number of layers. A missing or damaged input, unknown slicing type or unwritable output ends with a non-zero status and a message and not with a crash.",
 "all combinations of command-line options and models, and all faulty invocations",
 "The commands have no tests.",
 ["cmd/goosli/goosli.go", "slicers/settings.go", "primitives/utils.go", "data/header_template.txt", "data/footer_template.txt"], [("settings, CommandsWithTemplates", "cmd/goosli/goosli.go"), ("Settings.ToMap", "slicers/settings.go"), ("PrepareDataFile", "primitives/utils.go")],
 over=("configurations", "inputs"), observe=["output file, exit status"])

prop("C35", "The cutter, simplifier, colorizer and analyzer commands do what they say",
 "For every model and option set, the cutter writes the front and back part of the cut to its two outputs, the simplifier a mesh of at most the requested size, the colorizer one byte 0 or 1 per triangle equal to the library's colouring, and the analyzer one plane line per suggested plane of the shifted model. Missing or damaged inputs and failed writes end with a non-zero status and a message and not with a crash.",
 "all command-line options and models, and all faulty invocations including outputs that cannot take the data",
 "The commands have no tests.",
 ["cmd/goosli_cutter/goosli_cutter.go", "cmd/goosli_simplifier/goosli_simplifier.go", "cmd/goosli_colorizer/goosli_colorizer.go", "cmd/goosli_analyzer/goosli_analyzer.go"], [("main functions", "cmd")],
 over=("configurations", "inputs", "fault_sequences"), observe=["output files, exit status"])

prop("C36", "Debug output happens only when debugging is on, and then completely",
 "With debugging off in the configuration (or no configuration) slicing writes, creates and truncates no debug file. With debugging on, every drawn line, triangle, path and layer appears in the debug file in order, one line of text per segment or triangle with its colour and coordinates to three decimals.",
 "all sequences of debug drawing calls and slicing runs, with debugging on and off",
 "The debug package has no test.",
 ["debug/debug.go", "debug/config.go"], [("Config", "debug/config.go"), ("RecreateFile, Add*", "debug/debug.go")], over=("histories", "configurations"), observe=["debug file"])

for p in P: print(json.dumps(p))
