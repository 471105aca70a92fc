claim("C08", "runtime monitor: g-code replayed by an independent interpreter and compared with the plan",
  "Random programs of layers, bed commands and settings plus programs of sliced solids; every executed move is aligned with the planned steps.")
claim("C09", "runtime monitor: filament conservation over replayed g-code",
  "Feed of every segment and of the whole print are compared with the formula; retraction state is tracked at every travel and stroke.")
claim("C10", "runtime monitor: feedrate and fan state at every stroke of replayed g-code",
  "Modal state of an interpreter is compared with the configured speed and fan at each stroke.")
claim("C11", "runtime monitor: physical bed axes tracked over replayed g-code",
  "Physical axis positions are tracked through tool changes and counter resets for random histories of bed commands.")
claim("C01", "runtime monitor: independent STL parser and writer around load, save and commands",
  "Random facet lists are passed through save, load and commands; every facet, coordinate and normal is compared.")
claim("C02", "fault injection (file size limits, truncations, failing outputs) with a monitor of reported success",
  "Every success that is reported is compared with the file that is really there.", "fault_enumeration")
claim("C03", "runtime monitor: height of every returned layer point against the slab grid computed from the mesh",
  "Number, position, direction and order of all layers of random slicings are compared with the definition.")
claim("C04", "runtime monitor: exact cross-section by an independent slicer, distance, area and direction of all contours",
  "Contours of every layer are compared with an independently computed section, both ways.")
claim("C16", "runtime monitor: multiset of directed segments in joined paths against the chains they were cut from",
  "Random chains are cut, shuffled and joined; every segment is accounted for.")
claim("C07", "runtime monitor: every fill line of every layer compared with even-odd intervals of the innermost contours",
  "Strokes of random slicings are matched to equidistant line families; coverage, excess and repetition of every line is measured.")
claim("C15", "runtime monitor: exact parallel curves of generated contours against walls and skirt",
  "Walls and skirt lines of random contours and sliced prisms are compared with exact offsets, in order.")
claim("C13", "runtime monitor: rigid motion computed independently against every vertex, normal and plane returned",
  "Random chains of rotations and shifts of solids and facet soups are compared vertex by vertex and then undone.")
claim("C17", "runtime monitor: corners of generated paths against merged paths",
  "Collinear points are put in paths with known corners; the merged path has to be exactly the corners; dense paths are measured.")
claim("C18", "runtime monitor: every split and removal of a simplified line re-derived from the definition",
  "The output is verified recursively against the definition of Douglas-Peucker with ties left open.")
claim("C20", "runtime monitor: flag of every facet against a robustly computed angle, API and command",
  "Facets of any size, orientation and direction length; flags, filter and bytes of the command are compared.")
claim("C24", "runtime monitor: even-odd rule in exact plane coordinates against the queries",
  "Polygons in any plane, points level with vertices; centroid and winding from plane coordinates.")
claim("C25", "runtime monitor: independently computed geometry against results of primitives",
  "Random and grid planes, facets, vectors and paths, results compared with their definition.")
claim("C06", "runtime monitor: exact clipped volumes, closedness, sides and winding numbers of random points on both parts",
  "Parts of random and grid-exact cuts, repeated up to three times, are compared with the clipped original; the command is compared with the function.")
claim("C05", "Go race detector and bitwise comparison of concurrent executions with sequential ones, with varied GOMAXPROCS, noise and CPU sets",
  "Operations on a shared mesh run alone and many at once under the race detector; results, mesh and settings are compared bit by bit; commands run on other CPU sets.")
claim("C12", "runtime monitor: markers, templates and effects of every command line option in the file written by the command, and the toolpath of the packages for the same settings",
  "The g-code of the command is taken apart: header, markers, speeds, fan, retraction, feed and heights are compared with the options.")
claim("C14", "runtime monitor: every printed layer mapped back from the bed pose replayed from the g-code, against exact sections of the clipped solid",
  "Layers of slicings by one to four planes are located in the original solid; areas, contours, heights, volume, walls, fill and skirt of every part are compared.")
claim("C22", "runtime monitor: printed volume of every part and contours mapped back through the bed poses replayed from the g-code, against the model; crash and output monitor on empty, flat and thin models",
  "Leaning, bent, flaring and bridge models are sliced in all modes; volumes and poses are compared, odd models must not crash, also in the command.")
claim("C21", "runtime monitor: every suggestion re-derived from facets of the model clipped exactly by the earlier suggestions, and its line in the planes file taken apart",
  "Point, height, side, tilt and order of all suggestions are compared with the overhanging facets; lines are written and read back; the command is compared with the function.")
claim('C23', 'differential monitor: layers sliced with supports compared with layers sliced without them and with walls under the outline edges computed by the harness',
      'contours kept with direction; plastic off the contours only on walls under outline edges lowered by the offset; walls away from the model (over 0.002) supported over the whole length', 'exploration')
claim('C19', 'runtime monitor on the mesh returned by SimplifyMesh and on the file of goosli_simplifier: chain closedness, count, normals, volume, bounds, distance of original vertices to the result',
      'meshes subdivided so that they can be simplified exactly are compared to 1e-5, curved ones to 10 %; every run of the (randomised) library is judged by its own result', 'exploration')
claim("C26", "runtime monitor: bed poses replayed from the g-code against the lean of columns, legs, flares and bent axes the harness built; contours of upright models against a 3 axes slicing",
  "Models with a known lean, azimuth and axis are sliced in the multi-axis modes; every layer is looked at in the pose it was printed in.")
claim("C27", "runtime monitor: g-code files of the real command (alone, and after the cutter, the simplifier or the analyzer) replayed; all plastic mapped back through the poses must lie in the solid the harness built, and sampled points of it must have plastic near",
  "Random solids, options, modes and chains of commands; ends of every extrusion against the exact solid, random points of sections, of the outline and of the inside against the nearest extrusion.")
claim("C28", "differential monitor: snapshots of the working directory before and after every command, and bytes of the outputs of repeated runs that differ in configuration, older files, naming of files and processors",
  "Every command with random options and models runs two or three times; all files that are not outputs must stay as they were, outputs must be the same bytes.")
