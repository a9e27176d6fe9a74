NOTE["C01"] = NOTE["C02"] = "Library.tla is explored exhaustively by TLC for 3 cells, 2 names, 2 references, call sequences up to 6 (quick) or 8 calls; TLC's behaviours and seeded random histories (up to 8 cells, 3 libraries) are executed on the real classes and every call's outcome, return value and complete resulting state are validated against the specification. Trusted: the projection in m_library.py. Cyclic hierarchies and overwriting additions whose outcome depends on set order are outside the specified domain."
_H = ("MCHier.tla explores Hier.tla exhaustively from a two-cell layout (all sequences of 2 (quick) or 3 changes out of ~200: references, flattening, copies, "
      "removals, sharing, rebinding, edits) for the design-level statements; TLC's histories and seeded random ones (up to 10 cells, ~140 elements, depth up to 9) are "
      "executed on the real classes with questions in between, and every answer and every resulting list is validated against Hier in exact arithmetic "
      "(coordinates in 1/1000, rotations by 90 degrees and by atan2(4,3), magnifications in 1/64). Trusted: the projection in m_hier.py and rounding to 1/1000. ")
NOTE["C03"] = _H + "Path outlines are limited to mitred paths along the axes; FlexPath offsets under reflection are a known finding."
NOTE["C04"] = _H + "The order of the flattened elements and the rotation of flattened labels (dropped by the code and documented so) are not judged."
NOTE["C05"] = _H + "Copies by scale and reflection of arrays and paths included; FlexPath offsets under reflection are a known finding."
NOTE["C06"] = _H + "Boxes are asked at random points of the histories; edits of elements in place after a query are a known finding."
NOTE["C07"] = _H + "Areas are exact multiples of 1/128."
NOTE["C08"] = _H
NOTE["C09"] = _H
NOTE["C10"] = _H + "The tests passed to the removals record what they were given."
NOTE["C11"] = _H + "Answers are spoiled in place after they were recorded; the layout is then compared again."
_G = ("Gdsii.tla parses streams byte by byte (records, grammar, elements, reals) and says what a layout must be written as and what a stream must be read as; "
      "MCGdsii.tla checks Decode(Encode) = id, prefixes, stamping and partition exhaustively for streams of up to 2 structures and 2 (thorough 3) elements out of ~400 variants. ")
NOTE["G01"] = _G + "Seeded random layouts are written through both writers and every byte written is judged by the specification. Robust paths with outer joints (documented as not ensured) and coordinates half way between database units or beyond 32 bits are outside the domain."
NOTE["G02"] = _G + "Seeded random layouts on the grid are written, read back and written again. The second stream is compared per structure and kind of element, since reading turns non-GDSII paths into polygons, which are written first."
NOTE["G03"] = _G + "TLC's streams and seeded random legal streams are read with every unit mode, renaming and map into new and used libraries. The anchor of a text without presentation is taken to be the default of labels, as the format is silent."
NOTE["G04"] = "Gdsii.tla defines encoding and correctly rounded decoding bit by bit; seeded doubles (around powers of two and of sixteen, decimal, extreme) and 8-byte patterns (normalised or not, ties) are sent through the element writers and the reader. Sampling, not exhaustive."
NOTE["G05"] = _G + "Files are taken apart with get_binary_cells and put together in random orders through write_gds and GdsWriter."
NOTE["G06"] = _G + "Single-byte changes, reorderings, padding, other library names and stamped files are hashed with several engines and compared pairwise."
_B = ("Geom.tla says exactly which region every operation must cover; MCGeom.tla enumerates all cases with two shapes of a 3 x 3 grid (quick: fewer second shapes), checks that the exact "
      "answer and nothing differing in one unit square is accepted, and its cases are run on the real code together with seeded random ones of up to 9 polygons of up to 120 vertices. "
      "Rectilinear cases are compared everywhere; others at lattice points farther than 12 units of precision from every edge. ")
NOTE["B01"] = _B + "General self-intersecting operands are not fractured further (see the known finding in the bundled Clipper)."
NOTE["B02"] = _B
NOTE["B03"] = _B + "Points on half-grid positions, on edges and vertices included, in exact arithmetic."
NOTE["B04"] = _B
NOTE["B05"] = _B + "Only mitred joins of rectilinear geometry are judged; bevelled and round joins are not."
NOTE["C12"] = _H + "Svg.tla evaluates the groups, uses and transforms of the document written (parsed as XML) and compares what it shows with what the cell shows; MCSvg.tla checks the way documents are composed for every layout of MCHier.tla. Cells without geometry write no document."

_S = "Shapes.tla computes, in fixed point (1/100000 of a unit), what constructing, transforming and extending shapes must give; MCShapes.tla checks the laws of those transitions exhaustively to a depth and its behaviours are replayed into the library; recorded random histories are validated step by step against Shapes.tla. "
NOTE["B06"] = _S + "Comparisons allow about 1e-4 units."
NOTE["B07"] = _S + "Vertices are checked against their circle or ellipse, chords against twice the tolerance, regions on a lattice of points away from the boundary; fillets of rectilinear polygons only."
NOTE["P01"] = _S + "For arcs and curves the driver supplies for every vertex its place along the angle or its parameter as a certificate that the specification checks. Widths in arcs stay below the radius; widths and distances given as functions are quadratic."
NOTE["P05"] = _S + "The glyph table is part of the specification (Glyphs.tla)."
NOTE["P04"] = "Curve.tla computes, in fixed point (1/100000 of a unit), the sections that every command designates from the state of the curve (points, last control point of a cubic or quadratic section); MCCurve.tla checks the laws of the commands for all sequences of 2 (thorough 3) out of 34 and TLC's sequences are replayed into the library with several tolerances; seeded random histories add interpolation, elliptical arcs and closing. Certificates from the driver: the parameter of every vertex (checked by de Casteljau evaluation in the specification), the control points of interpolations (checked against the points, directions and smoothness asked for, and against what was drawn), the direction of every vertex of an arc. Chords are compared with twice the tolerance in the middle of their parameters."
NOTE["P03"] = "RobustPath.tla keeps the sections of a path as curves with widths and offsets that are functions of the parameter, moved by every transformation, and evaluates centres, directions and boundaries; MCRobustPath.tla checks the laws of the specification (sections chained, boundaries half a width from the centre, directions are derivatives, arcs are circles, boundaries move with the path, the clauses accept the exact boundary and reject displaced or missing vertices) for all sequences of 2 (thorough 3) out of 22 sections and moves, and TLC's sequences of 3 are replayed into the library with different ends, vertex limits and interleaved questions; seeded random histories add parametric curves, interpolations, turns, lists and functions. Outlines and GDSII elements are judged by certificate (section and parameter of every vertex). Not judged: joins the library warns about, boundaries that turn back, the half step of the numerical derivatives at the ends of sections."
NOTE["P02"] = "FlexPath.tla keeps the spine, widths and offsets of a path and judges every construction call, transformation and question; MCFlexPath.tla checks the laws of the specification (outlines move with the path, area is width times length, sections start where the last ended, the clauses accept the outline and nothing beside it) for all sequences of 2 (thorough 4) out of 15 commands along the axes, and TLC's sequences are replayed into the library with different corners, ends, numbers of vertices and interleaved questions; seeded random histories add arcs, turns, Bezier, parametric and interpolated sections, tapers, circular bends, callables, GDSII path elements. Outlines are judged by certificate: the driver supplies directions, centre points and intersections of sides, which the specification verifies before building the outline from them, vertex by vertex (round joins and ends: vertices on the circle, chords within the tolerance; smooth ones: between their end points). Left out: corners sharper than about 160 degrees, sections consumed by their neighbours, bends longer than their sections when reversed. Reflection of offsets is a known finding."

NOTE["V01"] = "Viewer.tla specifies cell, depth, hidden layers, stacking order, colours, patterns, ruler and what the canvas, the layer list and the readouts must show (over the layout of Hier.tla); MCViewer.tla explores it and generates 59,000 sequences of user actions. The real LayoutViewer and the real tkinter run on a stand-in for the Tcl interpreter (harness/faketk.py: widgets, bindings, variables, canvas semantics, no display); events are delivered through the bindings, and canvas, list, status line and dialogs are validated after every one. Pixels, fonts and Tk itself are not covered."
TECH["V01"] = "TLA+ specification (TLC) with replay of generated user actions and trace validation of the viewer on a stand-in Tcl interpreter"

NOTE["N01"] = "The chord clauses of Curve.tla, Shapes.tla, FlexPath.tla and RobustPath.tla: every two consecutive vertices of an approximated section are compared, at mid-parameter or mid-angle, with the exact curve the specification evaluates, and at most twice the tolerance asked for is allowed (library estimates the number of points from second differences, so exactly the tolerance is not promised); for circles and ellipses also the number of points given explicitly. Tolerances from 0.001 to 0.1 (scaled with the shape) and seeded random curves, arcs, rounds, fillets, bends, turns, joins and ends. MCCurve.tla is run for the laws of the specification. Histories are shared with P01-P04 and B07, but only violations about approximation are reported here."
