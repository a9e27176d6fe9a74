FIXED = {
    "include dependencies when GdsLibrary.add gets an iterator": ("C01", "add(iterator) consumed the iterator before collecting dependencies, so none were added"),
    "leave the library unchanged when GdsLibrary.add raises": ("C01", "a refused addition of several cells left some of them added"),
    "compose reflections and scale array spacing in Cell.copy": ("C05", "transformed copies with reflected or array references showed the wrong layout"),
    "do not share attributes of references between deep copies of cells": ("C05", "deep copies shared origin arrays and properties of references"),
    "compose reflection and rotation in get_labels with set_transform": ("C08", "rotation of labels seen through reflected references was composed with the wrong sign"),
    "layer and type queries with nested and unresolved references": ("C09", "get_layers, get_datatypes, get_texttypes and get_svg_classes missed nested cells or raised for unresolved references"),
    "replace texttypes in Cell.flatten only if requested": ("C04", "flatten() without arguments set the texttype of labels to None"),
    "recalculate bounding boxes after removals, flattening and rebinding": ("C06", "stale bounding box after remove_*, flatten, replace_references or removal of a cell from a library"),
    "keep lists and do not change other cells in Cell.remove_polygons": ("C10", "remove_polygons turned the list of polygons into an array, and changed polygon sets shared with other cells"),
    "return a list for filtered queries of unresolved references": ("C03", "get_polygons((layer, datatype)) of an unresolved reference returned a dictionary"),
    "scale custom ends in FlexPath.transform": ("C03", "paths with custom ends kept their extension when seen magnified through get_paths"),
    "return copies of the cached polygons of paths": ("C11", "modifying what get_polygons of a path returned changed the layout"),
    "apply array_trans after scaling in RobustPath.transform": ("C03", "robust paths in magnified arrays were placed with magnified steps"),
    "scale custom ends of RobustPath": ("C03", "robust paths with custom ends kept their extension when magnified"),
    "write the absolute value of the width of reflected RobustPath": ("G01", "a reflected robust path was written with a negative width, which the format defines as absolute"),
    "round the coordinates in RobustPath.to_gds": ("G01", "coordinates of robust paths were truncated instead of rounded"),
    "transform elements repeated in a cell only once": ("C04", "an element held twice by a cell was transformed twice"),
    "leave the cell unchanged when Cell.add raises": ("C10", "Cell.add of a list with an invalid element added the elements before it"),
    "do not twist the ends of reflected RobustPath": ("C03", "the ends of reflected robust paths with extensions pointed inwards"),
    "recalculate polygons of paths moved to other layers by Cell.flatten": ("C04", "paths flattened onto another layer were still reported on the old one"),
    "keep positions of labels as arrays in Cell.copy": ("C05", "labels of transformed copies held tuples, so translating them failed"),
}
FIXED.update({
    "keep all bits of GDSII reals just below a power of 16": ("G04", "numbers whose log2 rounds up to a multiple of 4 were written with the mantissa of the next exponent, or not normalised"),
    "read empty GDSII strings as empty strings": ("G03", "empty strings and property values were read as None"),
    "ignore a short padding at the end of files in gdsii_hash": ("G06", "gdsii_hash raised struct.error for a file padded with 2 bytes"),
    "read GDSII paths without a WIDTH record": ("G03", "a path without the optional width record raised TypeError"),
    "read GDSII path type 4 without extensions as custom ends": ("G03", "path type 4 without extension records was read as half-width extended"),
    "drop the properties of unsupported elements when reading GDSII": ("G03", "properties of unsupported elements were given to the next element"),
})
FIXED.update({
    "accept FlexPath in lists of operands": ("B01", "a list with a FlexPath as operand raised TypeError"),
    "boolean operations with empty operands": ("B01", "an empty operand raised IndexError, or gave a non-empty intersection, or overlapping polygons"),
    "make sure that the cuts of fracture divide the polygon": ("B04", "fracture never ended for polygons with many vertices on their first edge"),
    "inside with no polygons or empty groups of points": ("B03", "inside with no polygons read beyond the list (segmentation fault)"),
    "shrink overlapping polygons one at a time in offset": ("B05", "corners removed from one shrunk polygon left holes in polygons overlapping it"),
})
FIXED.update({
    "leave out unresolved references in SVG output": ("C12", "a reference to a name that is not resolved showed the group with that id, even the one it is in"),
})
FIXED.update({
    "final section of L1Path in the -y direction": ("P05", "the end of a rectilinear path ending in -y used the last but one length (NameError without turns)"),
    "update the end of L1Path when translated, scaled or mirrored": ("P05", "x, y and direction of an L1Path stayed behind when it was translated, scaled or mirrored"),
    "scale distance and length of Path": ("P01", "sections added after scaling a path with parallel elements did not join the earlier ones; its length was not scaled"),
    "keep the side of parallel paths in arcs and parametric sections": ("P01", "parallel elements (and their layers) changed sides in clockwise arcs and in parametric sections"),
    "tolerance of arcs in paths with negative width or distance": ("P01", "arcs after scaling by a negative factor were too coarse"),
    "error message of fillet with the wrong number of radii": ("B07", "fillet with a wrong number of radii raised TypeError instead of the ValueError meant"),
    "elliptical Round with angles beyond pi": ("B07", "sections of ellipses ending at odd multiples of pi beyond pi were drawn with another turn"),
    "number of points in sections of elliptical Round": ("B07", "sections of eccentric ellipses had too few points for the tolerance"),
    "interpolation between two points without angles": ("P04", "interpolating a single section with free ends raised LinAlgError: the system for its directions is singular"),
})
FIXED.update({
    "rounded shapes and arcs smaller than the tolerance": ("B07", "circles, rounded rectangles and arcs of paths and curves with a radius below half the tolerance raised ValueError"),
    "number of rows of FlexPath starting from a single point": ("P02", "a FlexPath made from a single point had two rows of widths and offsets for one point: the first section had the wrong width, or its outline raised ValueError"),
    "round ends, joins and bends with radius near zero": ("P02", "round ends and joins of paths thinner than half the tolerance, and bends with a radius up to half the width, raised ValueError"),
    "scale the bend radii of FlexPath": ("P02", "scaled paths kept the bend radius they were made with"),
    "negative factors in FlexPath.scale": ("P02", "scaling by a negative factor put parallel elements on the other side and made widths negative"),
    "FlexPath with no sections": ("P02", "outline, area and GDSII output of a path with a single point raised IndexError or AttributeError"),
    "fracture of FlexPath and RobustPath never ended for some outlines": ("P02", "cutting some outlines into polygons with few vertices never ended"),
    "smooth corners of tapering FlexPath": ("P02", "smooth corners between tapering sections had loops many times larger than the path"),
    "tolerance of FlexPath arcs with negative offsets": ("P02", "arcs of paths with negative offsets had too few points for the tolerance"),
    "holes that touch a horizontal edge of their outline": ("B01", "boolean/fracture: a hole whose leftmost vertex lies on a horizontal edge of its outline was linked to the point (0, y), so that the result covered the wrong region"),
    "holes that poke out of their outline by rounding": ("B01", "boolean/fracture: a hole whose leftmost vertex lies a grid unit outside its outline was linked to the point (0, y) through the iterator past the end"),
    "RobustPath changed the lists of widths and offsets given": ("P03", "the lists given as widths and offsets of a RobustPath were kept and changed by its sections"),
    "RobustPath with no sections": ("P03", "outline, area and GDSII output of a RobustPath without sections raised IndexError"),
    "negative factors in RobustPath.scale": ("P03", "scaling by a negative factor made widths negative and exchanged the sides of parallel elements"),
    "direction of turns of RobustPath": ("P03", "turns of parallel paths took the mean of angles, which is wrong where they are on both sides of 180 degrees"),
    "Numpy scalars as widths and offsets of RobustPath": ("P03", "zero-dimensional arrays and numpy numbers as widths or offsets raised or were taken for functions"),
    "widths of sections added to reflected RobustPath": ("P03", "sections added after a reflection or a scaling that keeps widths had the wrong widths"),
    "keep the width of GDSII RobustPath that should not scale": ("P03", "GDSII elements of scaled paths with width_transform=False had scaled widths"),
})
FIXED.update({
    "viewers keep their own list of hidden layers": ("V01", "layers hidden in one viewer started hidden in the next (mutable default), the caller's list was changed, and a tuple raised AttributeError on the first click"),
    "In and Out buttons of the viewer when nothing is visible": ("V01", "the In and Out buttons raised TypeError when nothing is visible, after changing the scale"),
    "In and Out buttons of the viewer keep the centre of the view": ("V01", "the In and Out buttons moved the centre of the view, as fractions of the old scroll region were used in the new one"),
    "extents of the viewer after a change of depth": ("V01", "Extents used the bounding box of the depth at which the cell was first shown"),
})
