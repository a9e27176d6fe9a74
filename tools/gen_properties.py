"""Writes /verif/properties.jsonl.  Edit here, not there."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": list(observe), "hook_needed": None},
    })


LIB = "gdspy/library.py"
prop("C01", "A library binds names to cells consistently through any call history",
     "Through any sequence of creating, copying, adding, removing, renaming and extracting cells, every name in a library denotes exactly the cell last bound to it and every cell carries the name it is listed under. "
     "Adding a cell (or any iterable of cells) with dependencies also adds every cell reachable through its references; without overwriting, a name already bound to another cell is refused. "
     "A call that raises leaves the library, the cells and their references exactly as they were.",
     ["histories", "inputs"], "every history of library calls over any set of cells, names, references (by object or by name), several libraries sharing cells, and every form of argument (cell, name, list, set, generator)",
     "The tests run a handful of fixed three-call scripts on one library; collisions in the middle of a batch, shared cells between libraries, iterator arguments and error paths are reached only by histories.",
     [LIB], [("GdsLibrary.add/new_cell/remove/rename_cell/extract", LIB), ("Cell.__init__ registration, Cell.copy", LIB)],
     [("cells", "name -> Cell map of a library", LIB), ("Cell.name", "name carried by the cell", LIB)], ["GdsLibrary.cells", "Cell.name", "exceptions", "return values"])
prop("C02", "References follow renames, overwrites, replacements and removals",
     "After a rename, an overwriting addition, a replacement or a removal with reference updating, the references held by the library's cells that designated the old name designate the new cell (or are gone), all other references are untouched, and the number reported is the number of references affected. "
     "Without reference updating no reference changes. "
     "Top-level and (recursive) dependency queries always agree with the references actually present.",
     ["histories", "inputs"], "every history of library calls, for references bound to cell objects and references by name, single and array references, references shared between copies",
     "The tests check a few counts after single calls; rebinding interacts with earlier renames, name-only references, shared reference objects and several libraries.",
     [LIB], [("GdsLibrary.replace_references/rename_cell/add/remove", LIB), ("GdsLibrary.top_level, Cell.get_dependencies", LIB)],
     [("references", "reference list of each cell, each bound to a cell object or to a name", LIB)], ["Cell.references", "return values of rename_cell/replace_references/remove/top_level/get_dependencies"])
prop("C03", "Geometry seen through references is the composition of their transformations",
     "For any hierarchy, the polygons reported for a cell (plain, grouped or filtered by layer and datatype, as polygon sets, or as paths) are exactly its own elements plus, for every single or array reference, the referenced cell's polygons magnified, displaced by the array step, reflected, rotated and translated, recursively. "
     "Grouping and filtering by layer and datatype only partition that collection, and a depth limit replaces what lies below it by nothing (sets, paths, labels) or by the transformed bounding box of the referenced cell (polygons).",
     ["inputs", "programs"], "every acyclic hierarchy of cells with single and array references of any origin, rotation, magnification, reflection, spacing and repetition, every depth limit and every layer/datatype filter",
     "Tests exercise one or two references with one transformation at a time; nesting, combined reflection, rotation and magnification in arrays and the three query forms times depth are combinatorial.",
     [LIB], [("Cell/CellReference/CellArray.get_polygons, get_polygonsets, get_paths, _transform_polygons", LIB), ("FlexPath/RobustPath.transform", "gdspy/path.py")],
     [], ["results of get_polygons/get_polygonsets/get_paths"])
prop("C04", "Flattening preserves the layout and removes every reference",
     "Flattening a cell leaves it without references and with the same polygons, paths and labels, on the same layers, datatypes and texttypes, that it showed through its references before; if a layer, datatype or texttype is given, exactly that attribute is replaced everywhere. "
     "No other cell changes, and afterwards the flattened cell is independent of the cells it was built from.",
     ["inputs", "histories"], "every hierarchy and every combination of the override arguments, followed by any further edits",
     "Tests flatten small cells once and check counts or areas; the interplay of array references, paths, shared elements and overrides is not sampled.",
     [LIB], [("Cell.flatten", LIB), ("Cell.get_polygonsets/get_paths/get_labels", LIB)], [], ["contents of the flattened cell and of all other cells"])
prop("C05", "Copies of cells show the same layout, transformed as asked, and are independent",
     "A copy of a cell shows the geometry, labels and references of the original; a copy made with translation, rotation, scaling or reflection shows, for everything including what is seen through its single and array references, the image under that transformation applied in the documented order. "
     "Editing the elements of a deep or transformed copy never changes the original or the reverse, while a shallow copy shares the elements but not the lists that hold them.",
     ["inputs", "histories"], "every cell content (polygons, paths, labels, already reflected or magnified references and arrays), every combination of copy arguments, every later edit",
     "Tests copy cells holding one element kind with the default (unreflected) reference state.",
     [LIB], [("Cell.copy", LIB), ("FlexPath.transform, RobustPath.transform", "gdspy/path.py")], [], ["contents of both cells after the copy and after later edits"])
prop("C06", "The bounding box is always that of the current contents",
     "At every point of any history of edits and queries, the bounding box reported for a cell, reference or array is the smallest axis-aligned box around the geometry it currently shows, or none if there is none. "
     "In particular it does not depend on whether, when, or on which cells of the hierarchy a bounding box was asked for before.",
     ["histories", "inputs"], "every interleaving of adding, removing, filtering, flattening, renaming and rebinding, editing of elements and references anywhere in the hierarchy with bounding-box queries on any cell",
     "The value is cached per cell and revalidated across the hierarchy; tests query after at most one or two edits.",
     [LIB], [("Cell.get_bounding_box and its cache", LIB), ("CellReference/CellArray.get_bounding_box", LIB)],
     [("_bb_valid, _bounding_box", "per-cell cache", LIB)], ["get_bounding_box results"])
prop("C07", "Areas add up over elements, references and repetitions",
     "The area of a cell is the sum of the areas of its polygons and paths plus, for each reference, the referenced cell's area times the square of the magnification times the number of repetitions, at every depth. "
     "The per-layer-and-datatype breakdown has exactly the (layer, datatype) pairs present and its values add up to the total.",
     ["inputs"], "every hierarchy with any transformations and repetitions",
     "Tests compare one or two sums.",
     [LIB, "gdspy/polygon.py", "gdspy/path.py"], [("Cell.area, CellReference.area, CellArray.area", LIB), ("PolygonSet.area", "gdspy/polygon.py"), ("FlexPath.area, RobustPath.area", "gdspy/path.py")], [], ["area results"])
prop("C08", "Labels are reported where and how the references place them",
     "The labels reported for a cell are copies of its own plus, for every single or array reference down to the depth limit, those of the referenced cell moved to the place the reference's transformation gives. "
     "When label transformations are requested, the rotation, magnification and reflection of each reported label are the composition of its own with those of all references on the way; otherwise they are unchanged, and text, anchor, layer and texttype always are.",
     ["inputs"], "every hierarchy, label attribute and depth limit, with and without transformation of label attributes",
     "One test covers one reference with one rotation and the default reflection.",
     [LIB, "gdspy/label.py"], [("Cell/CellReference/CellArray.get_labels", LIB)], [], ["get_labels results"])
prop("C09", "Layer, datatype, texttype and style queries report exactly what is present",
     "The sets of layers, datatypes, texttypes and drawing classes reported for a cell are exactly those of the polygons, paths and labels it shows, including through references at any depth; references to names that are not resolved contribute nothing.",
     ["inputs", "histories"], "every hierarchy including unresolved references, after any edits",
     "No test calls the texttype query with references, or any of them with unresolved references.",
     [LIB], [("Cell.get_layers/get_datatypes/get_texttypes/get_svg_classes", LIB)], [], ["query results"])
prop("C10", "Filters remove exactly the matching polygons, paths and labels",
     "Removing polygons, paths or labels by a test removes from the cell exactly the items for which the test is true, each item being tested once with its own points, layer and datatype (or the path or label itself), keeps the order, attributes and usability of the rest, and changes no other cell.",
     ["inputs", "histories"], "every cell content including polygon sets with several polygons and elements shared between cells, every predicate, any later operation on what remains",
     "Tests filter a cell once with one predicate and count.",
     [LIB], [("Cell.remove_polygons/remove_paths/remove_labels", LIB)], [], ["cell contents after the call; later operations"])
prop("C11", "Queries do not change the layout and results are detached from it",
     "Asking any question of a layout (geometry, labels, areas, bounding boxes, dependencies, writing it out) leaves every later answer unchanged, and modifying what a geometry or label query returned does not alter the layout.",
     ["histories"], "every sequence of queries and of in-place modifications of returned objects, interleaved with edits",
     "Tests ask a question once and throw the answer away.",
     [LIB, "gdspy/path.py"], [("copies made in get_polygons/get_polygonsets/get_paths/get_labels/get_bounding_box", LIB), ("FlexPath.get_polygons, RobustPath.get_polygons", "gdspy/path.py")], [], ["layout projection before and after"])
prop("C12", "SVG output shows the same layout",
     "The SVG document written for a cell defines every cell it depends on exactly once and, following its groups, uses and transforms, shows exactly the polygons and labels the cell shows, each with the class of its layer and datatype (texttype), for which a style is given; its view box is the bounding box plus the padding.",
     ["inputs"], "every hierarchy with any transformations, repetitions, scaling, padding, and styles",
     "The tests only run the export on one example.",
     [LIB, "gdspy/polygon.py", "gdspy/label.py"], [("Cell.write_svg/to_svg, CellReference/CellArray.to_svg", LIB), ("PolygonSet.to_svg", "gdspy/polygon.py"), ("Label.to_svg", "gdspy/label.py")], [], ["bytes written"])

prop("G01", "Everything written is a well-formed GDSII stream that encodes the library",
     "Whatever is written (whole libraries, subsets, incrementally, with binary cells) is a well-formed GDSII stream: records of even length in the order the format's grammar prescribes, one structure per cell. "
     "Decoding it by the format's rules gives exactly the cells and elements of the layout with coordinates scaled to database units and rounded to the nearest integer, and all layers, types, transformations, repetitions, widths, path types, texts, anchors and properties.",
     ["inputs", "histories"], "every layout of supported elements (odd and even string lengths, multi-polygon sets, polygons longer than a record, arrays with any transformation), unit/precision pair, and order of writing calls",
     "Tests only write files and read them back with the same code, so errors that reading mirrors are invisible.",
     [LIB, "gdspy/polygon.py", "gdspy/path.py", "gdspy/label.py", "gdspy/gdsiiformat.py"],
     [("GdsLibrary.write_gds, GdsWriter, Cell.to_gds, CellReference.to_gds, CellArray.to_gds", LIB), ("PolygonSet.to_gds", "gdspy/polygon.py"), ("FlexPath.to_gds, RobustPath.to_gds", "gdspy/path.py"), ("Label.to_gds", "gdspy/label.py")], [], ["bytes written"])
prop("G02", "Writing a library and reading it back gives the same library",
     "For any library whose coordinates are on its grid, reading the file written for it yields a library of the same name with the same cell names, and cell by cell the same polygons, GDSII paths, labels, references, arrays and properties; only non-GDSII paths are turned into polygons and multi-element sets and paths into equivalent single elements. "
     "Writing what was read gives the same stream again, up to elements of a structure being grouped by kind.",
     ["inputs"], "every library of supported elements and every unit/precision pair",
     "Tests round-trip one fixed library.",
     [LIB, "gdspy/gdsiiformat.py"], [("GdsLibrary.write_gds/read_gds", LIB)], [], ["library read back", "bytes written again"])
prop("G03", "Any legal GDSII stream is read with the meaning the format gives it",
     "A stream produced by any legal writer (elements with optional records present or absent, boxes, split coordinate records, default widths, unsupported elements, forward and missing references) is read into the cells and elements it describes: nothing lost, nothing carried from one element into the next. "
     "The unit modes, the cell renaming map and template, and the layer, datatype and texttype maps affect exactly what they name.",
     ["inputs", "configurations"], "every stream of the supported grammar, every unit mode and mapping, into empty and non-empty libraries",
     "The tests only read files gdspy wrote itself plus one sample.",
     [LIB, "gdspy/gdsiiformat.py"], [("GdsLibrary.read_gds and its element constructors", LIB), ("_record_reader", "gdspy/gdsiiformat.py")], [], ["library contents after reading"])
prop("G04", "GDSII real numbers are converted without loss",
     "Every number representable as a GDSII 8-byte real is read as exactly that value (rounded to the nearest double), and every finite double within the format's range is written as a normalised real that reads back as the same double.",
     ["inputs"], "all doubles in range and all 8-byte patterns, notably powers of 16 and their neighbours, subnormal and extreme exponents, negative values",
     "Tests convert five numbers.",
     ["gdspy/gdsiiformat.py"], [("_eight_byte_real, _eight_byte_real_to_float", "gdspy/gdsiiformat.py")], [], ["bytes and floats"])
prop("G05", "Streams assembled from parts equal streams written at once",
     "Cells written one by one through the incremental writer and cells extracted in binary form from a file and written again through either writer, in any order and mixture, give well-formed streams with exactly those structures, the binary ones byte by byte as in the file they come from. "
     "The units queried from a file are those it was written with.",
     ["histories", "inputs"], "every order and mixture of writing calls and every file content",
     "Tests compare one file.",
     [LIB, "gdspy/gdsiiformat.py"], [("GdsWriter, get_binary_cells, get_gds_units", LIB), ("_raw_record_reader", "gdspy/gdsiiformat.py")], [], ["bytes written, dictionaries returned"])
prop("G06", "File hashes and timestamps concern exactly the timestamps",
     "Setting the timestamp of a file changes the library and structure timestamps to the given date and not one other byte. "
     "The hash of a file depends exactly on the contents of its structures: it is unchanged by timestamps, library name and units, padding and the order of the structures, and changes when any byte of a structure changes.",
     ["inputs"], "every stream, every date, every position of a change",
     "Tests check one file and one change.",
     ["gdspy/gdsiiformat.py"], [("gdsii_hash, set_gdsii_timestamp, _raw_record_reader", "gdspy/gdsiiformat.py")], [], ["bytes of the file, returned values"])

prop("B01", "Boolean operations compute the set operation on the plane",
     "The result of a boolean operation between two collections of polygons covers exactly the points that the union, intersection, difference or symmetric difference of the regions they cover contains (a collection covers the points with a non-zero total winding number, every polygon taken counter-clockwise), for any number of operands of any kind, including none, overlapping, nested, touching and self-intersecting ones. The operands are not changed. "
     "The resulting polygons do not overlap each other, respect the maximal number of points and carry the layer and datatype asked for.",
     ["inputs"], "every pair of finite collections of polygons (rings, holes, shared edges and corners, duplicates), references, arrays and paths as operands, precision and max_points",
     "Tests check a few overlapping squares.",
     ["gdspy/operation.py", "gdspy/clipper.cpp"], [("boolean, _gather_polys", "gdspy/operation.py"), ("clip, hole linking", "gdspy/clipper.cpp")], [], ["polygons returned"])
prop("B02", "Slicing partitions the geometry at the cutting lines",
     "Slicing at a set of positions returns one set per strip between consecutive cuts; each set covers every point of its strip exactly as many times as the polygons of the input do, and nothing else, whatever the order of the positions and wherever they lie, and carries the layer and datatype given for the strip.",
     ["inputs"], "every polygon collection, axis and list of positions (outside the geometry, through vertices and edges, repeated, unsorted)",
     "Tests slice a ring and a few shapes at fixed positions.",
     ["gdspy/operation.py", "gdspy/clipper.cpp"], [("slice", "gdspy/operation.py"), ("_chop", "gdspy/clipper.cpp")], [], ["polygons returned"])
prop("B03", "Point-inside tests agree with the region covered",
     "The inside test reports for every point whether it lies in the region covered by the polygons (in at least one of them by the even-odd rule, or on the boundary of one), and for groups of points whether any or all of them do, independently of the order and number of points, groups and polygons.",
     ["inputs"], "all point lists and groups, polygon collections and modes",
     "Tests use a few points in two squares.",
     ["gdspy/operation.py", "gdspy/clipper.cpp"], [("inside", "gdspy/operation.py"), ("_inside, bounding box sweep", "gdspy/clipper.cpp")], [], ["booleans returned"])
prop("B04", "Fracturing keeps the region and bounds the number of points",
     "Fracturing replaces polygons by polygons with at most the given number of points that cover every point exactly as many times, each on the layer and datatype of the polygon it comes from; polygons already within the limit are untouched.",
     ["inputs"], "every polygon set and limit of at least five points",
     "Tests fracture a few shapes and count points.",
     ["gdspy/polygon.py", "gdspy/clipper.cpp"], [("PolygonSet.fracture", "gdspy/polygon.py"), ("_chop", "gdspy/clipper.cpp")], [], ["polygons, layers, datatypes after the call"])
prop("B05", "Offsetting grows or shrinks the covered region by the distance",
     "With mitred corners, offsetting rectilinear geometry by a positive or negative distance covers exactly the points whose surrounding square of that half-width meets, or fits into, the region (each polygon on its own, or all joined first if asked); polygons that touch themselves, such as rings with a slit, are to be joined first. The result does not overlap itself, respects the maximal number of points and carries the layer and datatype asked for.",
     ["inputs"], "every rectilinear collection with holes, touching parts and narrow gaps, every distance, joined first or not",
     "Tests offset one or two shapes.",
     ["gdspy/operation.py", "gdspy/clipper.cpp"], [("offset", "gdspy/operation.py"), ("_offset", "gdspy/clipper.cpp")], [], ["polygons returned"])
prop("B06", "Transforming polygon sets moves every point and nothing else",
     "Translating, rotating, scaling and mirroring polygon sets (and shapes built on them) apply exactly the corresponding map to every vertex, in place, in any sequence; layers, datatypes, properties and the number and order of polygons and points do not change, and the reported area and bounding box are those of the moved points.",
     ["histories", "inputs"], "every polygon set and every sequence of transformations with any centre, factors and mirror line",
     "Tests apply single transformations to single shapes.",
     ["gdspy/polygon.py"], [("PolygonSet.translate/rotate/scale/mirror/area/get_bounding_box", "gdspy/polygon.py"), ("Path/L1Path overrides", "gdspy/polygon.py")], [], ["vertices, area, bounding box, Path/L1Path end position"])
prop("B07", "Rounded shapes and corners lie where their radii say",
     "Circles, ellipses, rings and their sections cover the region their centre, radii and angles describe: every vertex lies on one of the boundary curves (or is the centre of a section), chords stay within about the tolerance asked for, and the number of points and of points per polygon asked for is respected. Filleting replaces every corner of a polygon by an arc of the radius asked for (or the largest that fits) tangent to both edges, keeps everything else, and keeps layers, datatypes and properties.",
     ["inputs"], "every centre, radii, angles, tolerance and limit of points; every rectilinear polygon with any radius for any corner",
     "Tests compare a few shapes against stored polygons.",
     ["gdspy/polygon.py"], [("Round.__init__", "gdspy/polygon.py"), ("PolygonSet.fillet", "gdspy/polygon.py")], [], ["vertices, layers, datatypes"])

prop("P01", "The path builder's turtle state and outlines agree with the calls made",
     "After any sequence of straight segments, turns, curves (Bezier, parametric functions, smooth interpolations) and transformations the polygons of a path are the outlines swept by its parallel sections with their widths and distances (varying linearly or as the functions given), on the layers and datatypes given, and its end position, direction, width, distance and length are those reached.",
     ["histories", "inputs"], "every sequence of path-building calls with any number of parallel paths, width and distance tapers, layer lists, and transformations in between",
     "Tests build one path and compare a few points.",
     ["gdspy/polygon.py"], [("Path.segment/arc/turn/parametric/bezier/smooth/translate/rotate/scale/mirror", "gdspy/polygon.py")], [("x, y, w, n, direction, distance, length", "turtle state", "gdspy/polygon.py")], ["Path attributes and polygons"])
prop("P02", "Flexible paths keep spine, widths and outline consistent",
     "After any sequence of construction calls and transformations of a flexible path, its spine passes through the points asked for, each element has its width and offset at every spine point, and the outline, area and GDSII element derived from it always reflect the current spine, ends and corners, no matter what was queried before.",
     ["histories", "inputs"], "every sequence of construction, transformation and query calls, element counts, widths, offsets, corner and end types",
     "The outline is cached; tests build once and query once.",
     ["gdspy/path.py"], [("FlexPath construction, transform and to_polygonset cache", "gdspy/path.py")], [("points, widths, offsets, _polygon_dict", "spine and cached outline", "gdspy/path.py")], ["polygons, attributes, GDSII bytes"])
prop("P03", "Robust paths keep sections, widths and outline consistent",
     "After any sequence of construction calls and transformations of a robust path, its sections join end to end at the points asked for with the widths and offsets asked for, and the outline, area and GDSII element derived from it always reflect the current sections, no matter what was queried before.",
     ["histories", "inputs"], "every sequence of construction, transformation and query calls, element counts, width and offset tapers, and end types",
     "The outline is cached; tests build once and query once.",
     ["gdspy/path.py"], [("RobustPath construction, transform and to_polygonset cache", "gdspy/path.py")], [("x, paths, widths, offsets, _polygon_dict", "sections and cached outline", "gdspy/path.py")], ["polygons, attributes, GDSII bytes"])
prop("P04", "Curves pass through the points their commands designate",
     "For any sequence of curve commands, absolute or relative, the curve starts each section where the previous one ended and ends it at the designated point, with the control points of smooth commands being the reflection of the previous ones; straight sections contribute exactly their end points, and the vertices of Bezier, interpolated and arc sections lie, in order, on the curve that the arguments describe; the points handed out leave out the last one exactly when the curve is closed within its tolerance.",
     ["histories", "inputs"], "every sequence of curve commands with any arguments",
     "Tests run each command once.",
     ["gdspy/curve.py"], [("Curve.L/l/H/h/V/v/C/c/S/s/Q/q/T/t/B/b/I/i/arc", "gdspy/curve.py")], [("points, last_c", "pen position and last control point", "gdspy/curve.py")], ["Curve.get_points"])
prop("P05", "Text and rectilinear paths are laid out on their grid",
     "Text occupies for every character the glyph's polygons scaled to the size asked for at the position given by the preceding characters, tabs and line breaks in the writing direction; rectilinear paths follow their turns and lengths with constant width and report the end they reach.",
     ["inputs"], "every string of supported characters, size, position and direction; every sequence of turns and lengths",
     "Tests render one string.",
     ["gdspy/polygon.py"], [("Text, L1Path", "gdspy/polygon.py")], [], ["polygons"])
prop("N01", "Smooth curves are approximated within the requested tolerance",
     "The vertices that approximate circular and elliptical arcs, Bezier and parametric curves, interpolations (Hobby) and rounded corners lie on the ideal curve, in order, from its beginning to its end, and the curve stays within about the tolerance asked for (twice at most, at the middle of each step) of the chords between them; interpolations pass through the points given, smoothly, at the angles given.",
     ["inputs"], "every smooth shape, parameter and tolerance",
     "Tests compare a few shapes against stored polygons.",
     ["gdspy/curve.py", "gdspy/hobby.py", "gdspy/path.py", "gdspy/polygon.py"], [("number of points computed from the tolerance", "gdspy/curve.py")], [], ["vertices"])
prop("V01", "The interactive viewer shows the layout that is selected",
     "Whatever the user does, the viewer's canvas holds exactly the polygons and labels of the selected cell down to the selected depth (cells below it as named boxes), each at one and the same place of the layout under any zoom and pan, stacked as in the list of layers, with the colour and pattern of its layer, and hidden exactly when its layer is hidden; clicks on the list, filters, colour and pattern dialogs change the layers they name and nothing else, and not the lists the caller gave; Extents shows everything, zooming keeps the place it is centred on, a rectangle is zoomed to the window and centred in it, and the coordinates, distances and element information reported are those of the layout; a new viewer starts from its own arguments.",
     ["inputs", "histories"], "every layout, options of the viewer and sequence of user actions",
     "There are no viewer tests; it needs a display.",
     ["gdspy/viewer.py"], [("LayoutViewer._update_canvas, _update_data, _zoom, _change_visibility, _set_filter, _raise, _mouse_move, _properties", "gdspy/viewer.py")],
     [("current_cell, shown_depth, hidden_layers, l_canvas_info, scale, cell_bb", "what is shown", "gdspy/viewer.py")], ["canvas items", "layer list", "status text", "dialogs"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
