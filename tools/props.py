#!/usr/bin/env python3
"""Source of properties.jsonl: run it to regenerate the file."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files,
        mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)))

prop("C01", "STL files are loaded and saved without changing the mesh",
 "Loading an STL file, binary or ASCII, gives exactly the facets of the file in file order, each vertex equal to the number written in the file at float32 precision and each normal equal to the cross product of the facet's edges. "
 "Saving a mesh writes a well-formed binary STL: a correct count, 50 bytes per facet in mesh order, coordinates rounded to float32, normals in the direction of the facet's. "
 "Hence save followed by load gives back the same mesh, for any number of facets and any number of CPUs.",
 ["inputs", "configurations", "schedules"],
 "every facet count (0, 1, less and more than the number of CPUs, large), every float32 coordinate, any layout of an ASCII file (indents, CRLF, exponents, names), any number of CPUs",
 "No test compares a loaded or saved file with its bytes; slicer tests load five fixed binary models only to count layers.",
 ["primitives/stl.go", "primitives/triangle.go"],
 [("LoadSTL chooses binary/ASCII by file size, workers fill interleaved triangles", "primitives/stl.go:24-110"), ("SaveSTL", "primitives/stl.go:120")],
 ["Mesh.Triangles returned by LoadSTL", "bytes of the saved file", "files written by goosli_cutter and goosli_simplifier"])

prop("C02", "A file that is damaged or cannot be fully written is reported",
 "If a mesh or another result file cannot be written completely, wherever the write fails, the operation reports an error (a command ends with non-zero status); success means that the complete file is in place. "
 "A binary STL file that is cut at any byte or has bytes left over, and an ASCII file cut inside a facet or with one or two vertices missing, is refused on load with an error and is never returned as a smaller or an empty mesh.",
 ["fault_sequences", "inputs"],
 "every offset at which writing can fail (full device, file size limit, missing directory) and every length to which a binary file can be truncated or extended",
 "No test injects a write fault or loads a damaged file.",
 ["primitives/stl.go", "primitives/utils.go", "cmd/goosli_colorizer/goosli_colorizer.go", "cmd/goosli/goosli.go"],
 [("error of every buffered write and of the final flush is returned", "primitives/stl.go SaveSTL"), ("size check and facet count in LoadSTL", "primitives/stl.go")],
 ["error returned by SaveSTL/LoadSTL", "exit status of the commands"])

prop("C03", "Layers divide the height of the model into equal slabs in order",
 "Slicing a mesh of height H along any direction with layer height t gives the planes in the middle of ceil(H/t) equal slabs of the model, from the lowest to the highest, so the distance between neighbour layers never exceeds t. "
 "Every point of a layer lies in the plane of that layer, and the layer carries the unit slicing direction. "
 "Only an empty first or last layer may be left out.",
 ["inputs", "configurations"],
 "every mesh, every slicing direction (any length), every layer height, including meshes thinner than one layer and flat or empty ones",
 "slice_test counts layers of five models along Z with one layer height and never looks at their position or order.",
 ["slicers/slice_by_vector.go", "primitives/mesh.go"],
 [("n, sh and curP", "slicers/slice_by_vector.go"), ("layers collected from workers are sorted by Order", "slicers/slice_by_vector.go")],
 ["[]Layer returned by SliceByVector"])

prop("C04", "Contours of a layer are exactly the cross-section of the solid",
 "For every closed, consistently oriented mesh, the contours of every layer are closed loops and together they are the boundary of the cross-section of the solid by the layer's plane: no part of the section is missing, nothing is added, up to 0.002 units (loops shorter than 0.01 units and parts thinner than 0.001 may be dropped). "
 "The solid is always on the right of a contour looking against the slicing direction, so outer contours and holes turn in opposite directions and the enclosed area is the area of the section. "
 "It holds also when a layer plane passes exactly through vertices, edges or facets (the section just below the plane is taken), or by a fraction of a micrometre from them.",
 ["inputs"],
 "every watertight mesh (convex or not, with holes, several bodies, any facet order, any starting vertex in a facet), every slicing direction and layer height, planes in general position and planes through vertices, edges and faces",
 "No test compares contours with anything; layer counts do not depend on the contours being right, closed or oriented.",
 ["slicers/slice_by_vector.go", "primitives/plane.go", "primitives/path.go"],
 [("active set of triangles sorted by lowest point", "slicers/slice_by_vector.go"), ("IntersectTriangle orients a segment by the facet normal", "primitives/plane.go"), ("JoinPaths3AndMinimize", "primitives/path.go")],
 ["Layer.Paths returned by SliceByVector"])

prop("C05", "Parallel slicing is race free, deterministic and leaves its input alone",
 "The result of slicing, loading and copying a mesh does not depend on the number of CPUs, on the scheduling of worker goroutines or on other slicings of the same mesh running at the same time: equal inputs give equal layers and equal g-code. "
 "No execution has a data race. "
 "The mesh and the settings given to slicing, cutting, colorizing or rotating are not modified, and when a call has returned nothing of it goes on: workers do not pile up with the number of slicings.",
 ["schedules", "inputs", "configurations"],
 "every interleaving of the worker goroutines, every number of CPUs and GOMAXPROCS, concurrent calls on a shared mesh",
 "Tests run one slicing at a time without the race detector and do not compare two runs.",
 ["slicers/slice_by_vector.go", "primitives/utils.go", "primitives/mesh.go", "primitives/stl.go"],
 [("jobs and layers go through channels, each job has its own copy of active triangles", "slicers/slice_by_vector.go"), ("DoInParallel, DoInParallelAndWait", "primitives/utils.go")],
 ["race detector reports", "layers of repeated runs", "deep copy of the input", "goroutines with the label of the case"])

prop("C06", "Cutting a closed mesh by a plane partitions the solid",
 "Cutting a closed mesh by any plane gives an upper mesh that lies on the side of the normal and a lower mesh that lies on the other side (up to 1e-6). "
 "Both are closed (cut surfaces are covered on both parts), the sum of their volumes is the volume of the original, and each part encloses exactly the part of the solid on its side. "
 "It holds also for planes through vertices, edges or faces or very close to them, for planes that miss the mesh, and for sections with holes, several or concave contours.",
 ["inputs"],
 "every watertight mesh and every cutting plane (any length of the normal), in general position or through vertices, edges and faces",
 "There is no test of cutting.",
 ["helpers/cut_mesh.go", "primitives/plane.go", "cmd/goosli_cutter/goosli_cutter.go"],
 [("splitOnThree", "helpers/cut_mesh.go"), ("cap triangles from joined intersections", "helpers/cut_mesh.go")],
 ["meshes returned by CutMesh", "files written by goosli_cutter"])

prop("C07", "Infill strokes cover exactly the inside of the innermost contours",
 "In every layer printed in 3 axes, by planes or in the vip mode without planes (in any pose of the bed) the infill consists of the parts of the fill lines that lie inside the region bounded by the innermost contours of the layer (the outer contours if there are no inner ones): no stroke or part of a stroke is outside and no inside part of a fill line is missing. "
 "The first bottom_layers and the last top_layers layers are filled with parallel lines one line width apart; the others with one, two or three directions (Lines, Squares, Triangles) of equally spaced lines, together giving the requested density. "
 "Fill lines reach every part of the model wherever it is placed.",
 ["inputs", "configurations"],
 "every set of closed contours, position of the model, fill type, density, line width, numbers of top and bottom layers, including fill lines passing exactly through contour vertices",
 "No test looks at infill.",
 ["slicers/fill_layer.go", "slicers/vip/utils.go"],
 [("calcFillPlanesCommon", "slicers/fill_layer.go"), ("intersectByPlane pairs sorted intersections", "slicers/fill_layer.go"), ("FillLayers chooses full or sparse planes", "slicers/fill_layer.go")],
 ["Layer.Fill", "planes returned by CalcFillPlanes"])

prop("C08", "Replaying the g-code draws exactly the planned paths",
 "An interpreter of absolute positioning g-code that executes the output deposits plastic exactly along the planned paths: layers in order, in each layer the outer, middle, inner and fill paths in order, every path from its first to its last point through every point, each coordinate within 0.0006. "
 "Between paths the nozzle first rises by 0.5, moves to the point 0.5 above the start of the next path and goes down to it, without extruding. "
 "No number in the output is NaN or infinite.",
 ["inputs", "programs"],
 "every sequence of layers and bed commands, any coordinates (negative, large, points closer than the output precision), empty layers and empty groups of paths",
 "There is no test of the g-code writer.",
 ["gcode/cmds.go", "gcode/gcode.go", "primitives/point.go"],
 [("pathesToGCode", "gcode/cmds.go"), ("StringGcode writes changed coordinates only", "primitives/point.go"), ("state.pos", "gcode/cmds.go State")],
 ["text written by Gcode.ToOutput"])

prop("C09", "Extruded filament is conserved along the whole print",
 "Every printed segment of length L feeds flow*(4*line_width*layer_height*L)/(pi*bar_diameter^2) of filament (flow 1 if it is not set), within the output precision, so the total feed of a print is that of the total length of its paths. "
 "Counter resets and bed commands in between do not feed or pull filament. "
 "With retraction on, the filament is pulled back by exactly the retraction distance before every travel and is returned before printing goes on; with retraction off it is never pulled back.",
 ["inputs", "histories", "configurations"],
 "every sequence of layers, bed commands and counter resets (long prints with many resets), every filament, line width, layer height, flow and retraction setting",
 "There is no test of the g-code writer.",
 ["gcode/cmds.go"],
 [("state.eOff, decreaseEOff", "gcode/cmds.go"), ("retractionToGCode", "gcode/cmds.go"), ("G92 after T0", "gcode/cmds.go")],
 ["E words of the output replayed per tool with G92"])

prop("C10", "Every stroke runs at its configured speed with the configured fan state",
 "When a segment is being printed, the last feedrate set is the first-layer speed in layer 0, the wall speed for wall paths (outer, middle, inner) and the printing speed for infill in the other layers, also right after retractions and bed commands. "
 "The fan is off during layer 0 if the fan_off_layer1 setting is on; otherwise, and in all other layers, it is on. "
 "Layer 0 is the first layer of the whole print, not of every part.",
 ["histories", "configurations"],
 "every sequence of layers, path groups (also empty), bed commands and every combination of speeds (also equal ones), fan and retraction settings",
 "There is no test of the g-code writer.",
 ["gcode/cmds.go"],
 [("state.feedrate, printSpeedToGCode", "gcode/cmds.go"), ("state.fan, switchFanGCode", "gcode/cmds.go")],
 ["F, M106 and M107 words of the output"])

prop("C11", "Bed axes end exactly where the plan says and move only at a safe place",
 "After every bed command the physical bed rotation and inclination, tracked through tool changes and counter resets, equal the values requested by the plan, however often they were changed before. "
 "The bed tools (T1, T2) move only after the nozzle was sent to X0 Y0 Z200, and the next path is approached from that height. "
 "After a bed command the filament extruder is selected again and its counter continues, so no filament is fed or pulled by a bed movement.",
 ["histories"],
 "every sequence of bed rotations, inclinations and returns (repeated, in any order, any angles) mixed with printing",
 "There is no test of the g-code writer.",
 ["gcode/cmds.go"],
 [("state.t1, state.t2", "gcode/cmds.go"), ("RotateZ, InclineX, InclineXBack, RotateXZ", "gcode/cmds.go")],
 ["T, G92, E, G62 words of the output"])

prop("C12", "Layer markers and the file header describe the real print",
 "Layers in a g-code file are marked 0, 1, 2, ... without gaps or repetitions through all parts and bed orientations, and the layer count written in the header is their number. "
 "The header and footer templates get the values of this run (layer height, wall thickness, fill density, temperatures, speed, layer count) in every place they are used, and the command line options reach the toolpath: line width, layer height, walls, density, speeds, fan, retraction, model offset.",
 ["configurations", "inputs"],
 "every slicing type, model and combination of command line options",
 "No test runs the command or renders a template.",
 ["cmd/goosli/goosli.go", "slicers/settings.go", "gcode/gcode.go", "gcode/cmds.go", "primitives/utils.go"],
 [("CommandsWithTemplates, LayerCount", "cmd/goosli/goosli.go"), ("Settings.ToMap, PrepareDataFile", "slicers/settings.go, primitives/utils.go"), ("state.layerIndex", "gcode/cmds.go")],
 ["file written by the goosli command"])

prop("C13", "Moving and rotating a mesh is a rigid motion and is undone by its inverse",
 "Rotating a mesh around a point by an angle about X or Z, or shifting it, moves every vertex by that rigid motion (distances, orientation and volume are kept, the centre stays, facet normals are recomputed) and keeps facet order; the opposite rotation restores the mesh. "
 "Rotation of a plane agrees with rotation of its points, rotating a vector about an axis is right-handed by the given angle, and rotating the bed about Z or X turns the model clockwise seen from the positive end of the axis.",
 ["inputs"],
 "every mesh, centre, angle (negative, over 360, multiples of 90), axis and composition of motions",
 "Unit tests cover a few vectors with fixed angles and no meshes around other centres.",
 ["primitives/mesh.go", "primitives/rotation_matrix.go", "primitives/vector.go", "primitives/plane.go", "primitives/triangle.go"],
 [("Mesh.Rotate, Mesh.Shift", "primitives/mesh.go"), ("RotationAroundX/Z", "primitives/rotation_matrix.go"), ("RotateAbout", "primitives/vector.go")],
 ["vertices and normals of the result"])

prop("C14", "Slicing by planes prints each part of the model once in its own bed pose",
 "With a planes file, the model is divided by the planes (the last plane first) and every part is printed once, in file order, in the bed pose of its plane: rotated by the plane's angle and inclined if the plane is tilted, around the rotation centre, which turns its cut surface horizontal. "
 "The bed commands in the g-code are the same pose the part was rotated to, so printed contours mapped back from the pose are sections of the original solid, and the printed areas times layer spacing sum up to the model's volume. "
 "Each part has its own walls and infill; only the first layer of the first part gets the skirt.",
 ["inputs", "configurations"],
 "every watertight model, every list of planes (tilted and not, any number, any angles, missing the model), rotation centre and settings",
 "TestVip_Slice is commented out; nothing runs slicing by planes.",
 ["slicers/vip/slice_by_planes.go", "slicers/vip/utils.go", "slicers/vip/analyze.go", "helpers/cut_mesh.go"],
 [("parts cut in reverse order", "slicers/vip/slice_by_planes.go"), ("calcBedPlanes", "slicers/vip/slice_by_planes.go")],
 ["commands and layers of the returned Gcode"])

prop("C15", "Walls follow the contour inside the part, the skirt follows it outside",
 "With wall thickness of k line widths (k>=2) every contour gets k-1 further closed walls, the i-th exactly i line widths from the contour on the solid's side (outer contours shrink, holes grow), in order from the contour inwards, the innermost being the one infill is bounded by; with fewer than two line widths there are no additional walls. "
 "The skirt adds the requested number of closed lines, the i-th i line widths outside the contour, drawn from the farthest to the nearest. "
 "This holds for contours whose edges are long enough for no edge to disappear and whose corners are not sharper than 60 degrees, and for line widths up to 1; a regular contour too small for all walls gets those that fit.",
 ["inputs", "configurations"],
 "every such contour (convex, concave, holes), its starting point and plane, every line width, wall thickness and skirt count",
 "No test checks offsets.",
 ["slicers/vip/offset_path.go", "slicers/vip/utils.go", "primitives/line.go"],
 [("MakeOffset", "slicers/vip/offset_path.go"), ("PrepareLayers, SkirtPathes", "slicers/vip/utils.go"), ("IntersectLine2", "primitives/line.go")],
 ["Layer.MiddlePs, InnerPs, Paths"])

prop("C16", "Joining segments into paths neither loses, adds, repeats nor turns segments",
 "Joining directed segments into paths gives paths that pass exactly the given segments, each once and in its own direction. "
 "Where every joint has one incoming and one outgoing segment the result is complete: closed chains become one closed path each and open chains become one path each, whatever the order of the segments and even if equal ends differ by less than 1e-6. "
 "The section of a mesh by a plane is assembled from all its segments in the same way.",
 ["inputs"],
 "every set of chains, permutation of segments, split of chains into pieces and noise below the tolerance",
 "path_test joins a few hand-made paths (four of its cases fail upstream).",
 ["primitives/path.go", "primitives/plane.go"],
 [("JoinPaths3, tryJoin", "primitives/path.go"), ("JoinPaths2, IntersectMesh", "primitives/path.go, primitives/plane.go")],
 ["paths returned by JoinPaths3 and IntersectMesh"])

prop("C17", "Merging collinear lines does not change the shape of a path",
 "Merging collinear lines of a path that does not turn back on itself and has no lines shorter than 0.01 gives a path with a subset of its points in the same order, which keeps its ends (or stays closed), deviates from the original by no more than 0.002 and keeps every corner of a degree or more between straight runs. "
 "No point of a straight run is left inside it (up to rounding), so of straight runs exactly the corners remain, and applying it again changes nothing.",
 ["inputs"],
 "every open or closed path in any plane, with any number of collinear points on any edge, starting at a corner or in the middle of an edge",
 "path_test has a few fixed paths.",
 ["primitives/path.go", "primitives/line.go"],
 [("MinimizeLines", "primitives/path.go"), ("IsCollinear", "primitives/line.go")],
 ["path returned by MinimizeLines"])

prop("C18", "Line simplification stays within epsilon and keeps the ends",
 "Simplifying a polyline keeps its first and last points and returns a subset of its points in order, and every removed point is within epsilon of the line through the kept points around it. "
 "No kept interior point is superfluous at the moment it was chosen: it is the farthest point of its span and farther than epsilon; of a straight polyline only the ends remain. "
 "The input is not changed.",
 ["inputs"],
 "every polyline (one point, two points, repeated points, closed, zigzag, far from origin) and every epsilon including 0",
 "There is no test of simplification.",
 ["helpers/simplify_line.go", "primitives/point.go"],
 [("SimplifyLine", "helpers/simplify_line.go"), ("DistanceToLine", "primitives/point.go")],
 ["points returned by SimplifyLine"])

prop("C19", "Mesh simplification keeps a closed model closed and close to the original",
 "Simplifying a mesh to n facets returns the mesh itself if it has no more than n facets, otherwise a mesh of at most n facets (never more than asked), or an error if n cannot be reached. "
 "The result of a closed mesh is closed and consistently oriented with unit-free normals equal to the cross product of its edges, its volume and bounding box stay close to the original's, and the input is not modified.",
 ["inputs"],
 "every watertight mesh and every target from 4 up to above the facet count",
 "There is no test of simplification.",
 ["helpers/simplify_mesh.go", "cmd/goosli_simplifier/goosli_simplifier.go"],
 [("SimplifyMesh and conversions", "helpers/simplify_mesh.go")],
 ["mesh returned by SimplifyMesh", "file written by goosli_simplifier"])

prop("C20", "Overhang colouring marks exactly the facets that look down steeper than asked",
 "Colouring returns one flag per facet in mesh order, true exactly when the angle between the outward normal of the facet and the reversed build direction is less than 90 minus the given angle, independently of the facet's size, of the length of the direction, and of rounding (facets looking exactly up or down included). "
 "Filtering returns exactly the marked facets in order, and the colorizer command writes one byte per facet with the same flags.",
 ["inputs"],
 "every facet orientation and size, every build direction and threshold angle",
 "There is no test of colouring.",
 ["helpers/colorize_triangles.go", "primitives/vector.go", "cmd/goosli_colorizer/goosli_colorizer.go"],
 [("ColorizeTriangles, FilterTrianglesByColor", "helpers/colorize_triangles.go"), ("Vector.Angle", "primitives/vector.go")],
 ["returned flags and facets", "file written by goosli_colorizer"])

prop("C21", "Suggested planes survive the planes file and make overhangs printable",
 "A plane suggested by the analyzer, written to a planes file and read back, is the same plane: same point, tilt and angle to the written precision, and a normal equal to the one the analyzer cut with. "
 "Each suggestion is for the lowest overhanging facet of the part above the previous plane and passes through its lowest point; suggestions alternate tilted and horizontal, and tilted ones lean 60 degrees towards the side the facet looks to. "
 "They go on until no facet overhangs (at most six), so a model without overhangs gets none, and turning the model about Z turns the suggestions with it.",
 ["inputs"],
 "every model and threshold angle, overhangs looking in any direction",
 "There is no test of the analyzer.",
 ["slicers/vip/analyze.go", "slicers/vip/utils.go", "cmd/goosli_analyzer/goosli_analyzer.go"],
 [("Analyze", "slicers/vip/analyze.go"), ("AnalyzedPlane.String, ParsePlane", "slicers/vip/analyze.go")],
 ["planes returned by Analyze and ParsePlane", "file written by goosli_analyzer"])

prop("C22", "Every slicing mode terminates and prints the whole model once",
 "For every closed model each slicing mode (3 axes, 5 axes, 5 axes by profile, vip without planes) ends and gives finite g-code; models that are empty, flat or thinner than a layer do not crash it. "
 "The printed areas times layer spacing sum up to the volume of the model within one layer per part, so no part is lost or printed twice. "
 "A part printed in a changed bed pose was turned about the origin by exactly the pose announced in the g-code (the rotation centre of the settings is for printing by planes only): mapped back, its layers are sections of the original.",
 ["inputs", "configurations"],
 "every watertight model resting on the bed and every mode and setting",
 "slice_5axes_test and vip tests have their checks commented out or only count layers of fixed models.",
 ["slicers/slice_by_profile.go", "slicers/slice_5axes.go", "slicers/vip/slice_main.go", "slicers/vip/slice_default.go", "slicers/vip/slice_bridge.go", "slicers/vip/slice_rotation.go"],
 [("loops over layers with cutting and rotation", "slicers/*.go")],
 ["commands and layers of the returned Gcode", "g-code text"])

prop("C23", "Supports only add walls under overhangs and do not touch the model",
 "With supports on, every layer has the contours it has without supports, plus support strokes; without overhanging facets nothing is added. "
 "Support strokes stand vertically between the bed and an outline edge of the overhanging area lowered by the support offset: every stroke lies under such an edge and below it, and not in a wall which the model cuts over its whole width. "
 "An edge whose wall down to the bed does not meet the model is supported over its whole length in every layer below it.",
 ["inputs", "configurations"],
 "every model, threshold angle, support offset greater than zero and layer height",
 "There is no test of supports.",
 ["slicers/slice_by_vector.go", "helpers/supports_by_vector.go"],
 [("support triangles added to the slicing input", "slicers/slice_by_vector.go"), ("MakeUndoubledLinesFromTriangles, MakeSupportLines, IntersectTriangles", "helpers/supports_by_vector.go")],
 ["Layer.Paths with and without supports"])

prop("C24", "Point-in-contour, winding and centroid queries are exact for any plane",
 "For a simple closed contour in any plane, a point of that plane is reported inside exactly when it is (points closer than 1e-5 to the contour aside), and the centroid is the centroid of the enclosed area. "
 "For horizontal contours the winding and solid/hole answers follow the direction of traversal; reversing a path reverses them, and closing a path only adds its first point at the end of an open one.",
 ["inputs"],
 "every simple polygon, plane, starting vertex, direction and point",
 "point_test and path_test use a few polygons.",
 ["primitives/point.go", "primitives/path.go"],
 [("Point.Inside", "primitives/point.go"), ("FindCentroid, IsWindingCW, IsHole, Reverse, Close", "primitives/path.go")],
 ["returned values"])

prop("C25", "Geometric primitives agree with exact arithmetic",
 "Intersections of a plane with a segment and with a triangle exist exactly when they do geometrically, lie on both, and have the direction given by the facet normal; angles are within 0..180 degrees, symmetric and right for parallel and opposite vectors; "
 "projections on a vector, a line and a plane are orthogonal and idempotent; distances are the true ones; side-of-plane tests agree with the sign of the exact distance. "
 "Two facets intersect in exactly the segment they have in common; a point belongs to a facet if and only if it is in its plane and not outside of its sides. "
 "Results are right up to rounding for any finite moderate coordinates.",
 ["inputs"],
 "every plane, segment, triangle, vector and point with coordinates up to 1e4, including degenerate, parallel and touching ones",
 "Unit tests have a few fixed points per function.",
 ["primitives/plane.go", "primitives/vector.go", "primitives/point.go", "primitives/line.go", "primitives/triangle.go", "primitives/utils.go"],
 [("IntersectSegment, IntersectTriangle, PointInFront, ProectionPointToPlane", "primitives/plane.go"), ("Angle, ProjectOn, ProjectOnPlane", "primitives/vector.go"), ("ProjectOnLine, DistanceToLine", "primitives/point.go")],
 ["returned values"])

prop("C26", "The bed is inclined only for overhangs and towards the side they lean to",
 "In the 5 axes mode and in vip without planes a model whose walls are within 30 degrees of the vertical is printed without moving the bed, with the contours of a 3 axes slicing, and a column, two legs or a flaring body that lean by 50 to 65 degrees are not printed without inclining the bed. "
 "For a column (and legs) the bed is inclined by 60 degrees and turned so that the side it leans to goes up (within 30 degrees, if it leans from the bed on), and what is printed before lies below a plane through the first layer parallel to the inclined layers, also after every upright part: a column that leans, goes up and leans again is printed upright and inclined in turn, each time towards the side this part leans to. "
 "In the 5 axes by profile mode every part of a column is printed with the axis of the part vertical, so a straight column is one part and a bent one has a part for every straight piece (with an epsilon between the layer height and the bends).",
 ["inputs"],
 "every outline of an upright model (concave ones, rings, several bodies, vases), every azimuth and lean of a column, every sequence of leaning and upright parts, every axis of straight pieces, every layer height small enough for the shape",
 "Tests slice two models in these modes and do not look at the poses.",
 ["slicers/slice_5axes.go", "slicers/slice_by_profile.go", "slicers/vip/slice_default.go", "slicers/vip/slice_bridge.go", "slicers/vip/slice_rotation.go", "slicers/vip/slice_main.go"],
 [("CalculateFails, findPrevPath, MiddleOnTheRing", "slicers/slice_5axes.go"), ("SliceByProfile, calculateCenter", "slicers/slice_by_profile.go"), ("failExistBridge, failRotaion", "slicers/vip")],
 ["bed commands in the g-code", "layers printed in every pose"])

prop("C27", "The file that goosli writes prints the model that it was given",
 "When the g-code that the command goosli wrote (3 axes, by planes, with the planes of goosli_analyzer, vip without planes, 5 axes, by profile) is replayed and everything extruded is mapped back through the announced bed poses, it lies inside the model placed at the origin given, up to the rounding of the file; only the skirt of the first layer is outside. "
 "In 3 axes and by planes above the model there is plastic on the whole outline of every layer, layers follow each other a layer height apart from the bottom to the top, and in all modes with infill no point of the model is farther from plastic than the spacing of the infill (and, with changed poses, two layers). "
 "The same holds for the models that goosli_cutter and goosli_simplifier write: half of a cut model prints that half and nothing else.",
 ["inputs", "configurations"],
 "every solid, every combination of options, every chain of the commands (cutter or simplifier, analyzer, slicer), every number of processors",
 "Tests do not run the commands one after another and never replay their g-code.",
 ["cmd/goosli/goosli.go", "cmd/goosli_cutter/goosli_cutter.go", "cmd/goosli_simplifier/goosli_simplifier.go", "cmd/goosli_analyzer/goosli_analyzer.go", "gcode", "slicers", "slicers/vip", "helpers"],
 [("main", "cmd/goosli/goosli.go"), ("main", "cmd/goosli_cutter/goosli_cutter.go"), ("LayersMoving.ToGCode, pathesToGCode", "gcode/cmds.go"), ("SliceByVectorToGcode", "slicers/slice_by_vector.go"), ("SliceByPlanes", "slicers/vip/slice_by_planes.go"), ("Slice5Axes, SliceByProfile", "slicers")],
 ["g-code files", "exit codes"])

prop("C28", "Commands change only their outputs, which depend only on what they are given",
 "A command of goosli reads its model, planes, templates and configuration without changing them and makes no files but its outputs and the debug file of the configuration; an older output is replaced completely. "
 "The bytes of the outputs depend only on the contents of the inputs and on the options: they are the same whatever was in the directory before, whether files are named by relative or absolute paths, with debugging on, off or without a configuration, and on any number of processors (the random choice of edges by the simplifier, also in 5 axes for more than 2500 facets, and the date aside). "
 "With debugging on the debug file consists of well-formed lines and triangles only.",
 ["inputs", "configurations", "schedules"],
 "every command, option, input file, configuration and state of the directory it runs in",
 "Tests do not run the commands.",
 ["cmd", "debug/debug.go", "debug/config.go", "primitives/stl.go", "primitives/utils.go", "slicers"],
 [("main", "cmd/goosli/goosli.go"), ("SaveSTL", "primitives/stl.go"), ("Config", "debug/config.go"), ("RecreateFile, AddLine, AddLayer", "debug/debug.go"), ("AddToFile", "primitives/utils.go")],
 ["files in the working directory", "bytes of output files"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    import re
    for p in P:
        n = len(re.findall(r"[.;:]? ?(?<=[a-z0-9\)])\.(?: |$)", p["statement"]))
        if n > 3: print("sentences?", p["id"], n)
