"""Texts of the properties (source of properties.jsonl and of MANIFEST.json)."""
SPECS = []
NOTE = ("Every path of the harnesses within the stated bounds is decided by the solver over all symbolic input values; counterexamples are replayed natively (ASan/UBSan) before being reported. "
        "Trusted: the engine's model of LLVM IR, of the C/C++ run-time (rt/), and of number formatting (a printed number reads back as the decimal the format denotes).")


def P(id, title, statement, over, q, why, files, mech, note="", na=None):
    SPECS.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, note=(NOTE + " " + note).strip(), na=na))


ENT = "src/entities/"
P("C01", "Curves and transforms survive writing and reading",
  "A model holding a line, arc, conic, composite curve, B-spline curve or transformation matrix that the library accepts can be written and read back, and every parameter of the entity (coordinates, coefficients, order of segments, knots, weights, flags, form) has the value it had, to within the file's stated minimum resolution. Entities that referred to each other still do.",
  ["inputs"], "all parameter values exactly representable with a fixed number of binary places up to 1e9, all forms, all small numbers of segments, control points and orders",
  "the tests write a handful of fixed models and never compare the values read back",
  [ENT + "entity100.cpp", ENT + "entity102.cpp", ENT + "entity104.cpp", ENT + "entity110.cpp", ENT + "entity124.cpp", ENT + "entity126.cpp", "src/iges/iges_io.cpp"],
  [("parameter data formatting", "IGES_ENTITY_*::format"), ("parameter data reading", "IGES_ENTITY_*::readPD"), ("number formatting", "FormatPDREal / ParseReal")])
P("C02", "Surfaces, solids and structure entities survive writing and reading",
  "A model holding surfaces (revolution, tabulated cylinder, B-spline, curve on surface, trimmed surface), solids (cylinder, extrusion, boolean tree, boundary representation with its shells, faces, loops, edges and vertices) or structure entities (colour, subfigure definition and instance, property) can be written and read back with every parameter (to within the file's stated minimum resolution; colour components to six significant digits) and every reference, in order, as it was.",
  ["inputs"], "all values of the numeric parameters on an exact grid, all flag combinations, all small numbers of children",
  "the tests only check that some generated files can be read at all",
  [ENT + "entity%d.cpp" % n for n in (120, 122, 128, 142, 144, 154, 164, 180, 186, 308, 314, 406, 408, 502, 504, 508, 510, 514)],
  [("parameter data formatting", "IGES_ENTITY_*::format"), ("parameter data reading", "IGES_ENTITY_*::readPD"), ("pointer resolution", "IGES_ENTITY_*::associate")])
P("C03", "Entity attributes survive writing and reading",
  "The common attributes an entity may carry (visibility, dependency, use, hierarchy, colour number or colour entity, line weight, line font, level, label, subscript number, form, and transform) are, after writing and reading the file, what the caller set, and setting one attribute never changes another. A value the attribute cannot hold is refused and not written.",
  ["inputs"], "every value of each attribute, valid or not, on entities of several types",
  "tests set few attributes, always valid, and do not read them back",
  [ENT + "iges_entity.cpp"], [("directory entry formatting and reading", "IGES_ENTITY::format / readDE"), ("attribute setters", "IGES_ENTITY::Set*")])
P("C04", "Global parameters survive writing and reading",
  "The product identifiers, native system, author, organisation, application note, drafting standard, line-weight settings, resolution, delimiters, valid creation date and a user-specified unit with its name are, after writing and reading the file, what they were when written, whatever characters the strings contain and however long they are. A file that leaves optional global parameters empty is read with defaults; a date that is not a date is recognised as such; a file that lacks a required global parameter is refused.",
  ["inputs"], "all strings up to the stated length (including delimiter characters), all values of the numeric fields, every optional field present or empty",
  "tests use default global data only", ["src/iges/iges.cpp"], [("global section", "IGES::writeGlobals / readGlobals")])
P("C05", "Start section and comments survive writing and reading",
  "The lines of free text placed in the start section and the comments attached to an entity are, after writing and reading the file, the same texts in the same order (a comment longer than 64 characters comes back as pieces of 64, a start line longer than 72 as pieces of 72). A text that cannot be stored (empty comment, line breaks inside a text) is refused rather than cut or lost.",
  ["inputs"], "all texts up to the stated length around the 72 and 64 column limits, all small numbers of lines",
  "no test uses comments or more than a fixed header", ["src/iges/iges.cpp", ENT + "iges_entity.cpp"], [("start section", "IGES::AddToHeader / GetHeaders / writeHeader"), ("entity comments", "IGES_ENTITY::AddComment / formatComments")])
P("C06", "Every written file is a well-formed IGES file",
  "Whatever valid model is written, the file consists of 80-column records in the section order S, G, D, P, T with sequence numbers counting from 1, two directory records per entity whose parameter pointers, line counts, type and form numbers agree with the parameter records, each of which points back to its directory entry, and one terminate record with the true record counts. Every pointer from one entity to another names the directory entry of an entity in the file.",
  ["inputs"], "models mixing every writable entity type with symbolic parameter values, texts of all lengths around record boundaries",
  "tests only read files back with the same library, which is lenient about layout", ["src/iges/iges.cpp", "src/iges/iges_io.cpp", ENT + "iges_entity.cpp"], [("file writing", "IGES::Write"), ("record splitting", "AddPDItem / AddSecItem / AddPDHStr")])
P("C07", "Reading any file is safe",
  "Reading a file, however malformed (truncated, wrong section order, bad numbers, counts that do not match, pointers to missing or wrong entities), never reads or writes outside its memory, throws, or fails to return: it returns success or failure, and afterwards the model can be queried, written or destroyed safely.",
  ["inputs"], "every byte value at symbolic positions of the records of files with each entity type, and every truncation point",
  "the tests read only well-formed files produced by the library", ["src/iges/iges.cpp", "src/iges/iges_io.cpp", ENT + "iges_entity.cpp"], [("section readers", "IGES::Read"), ("parameter readers", "IGES_ENTITY_*::readPD"), ("association", "IGES_ENTITY_*::associate")])
P("C08", "Field encoders and decoders are inverse to each other",
  "An integer, real number or string put into a directory, global or parameter field by the library's encoders is recovered unchanged by its decoders, also when the text is split over several records; what the decoders reject or the encoders refuse is reported. No field encoder or decoder reads or writes outside its buffers.",
  ["inputs"], "every 32-bit integer, every string up to the stated lengths, every short field content",
  "tests never call the field primitives", ["src/iges/iges_io.cpp"], [("directory fields", "DEItemToInt / DEItemToStr / FormatDEInt"), ("free-format fields", "ParseInt / ParseReal / ParseHString / AddSecHStr / AddPDHStr")])
P("C09", "References between entities stay consistent",
  "After any sequence of creating, linking, unlinking and deleting entities of one model, every reference from one entity to another (members, curves, surfaces, transform, colour, optional entities) is mirrored exactly once by the target's record of who refers to it, no reference is left to a deleted entity, and no entity is deleted twice. A link that the library refuses (wrong type, self reference, duplicate, NULL) leaves no trace of the refused entity.",
  ["histories"], "all sequences up to the stated length over a pool of entities of several types",
  "tests build fixed trees and delete the whole model at once", [ENT + "iges_entity.cpp", ENT + "entity102.cpp", ENT + "entity308.cpp", ENT + "entity144.cpp", "src/iges/iges.cpp"], [("back references", "IGES_ENTITY::addReference / delReference / unlink"), ("deletion", "IGES::DelEntity")])
P("C10", "API handles are valid exactly while their object exists",
  "A handle of the programming interface for an entity (each of its 15 entity types), a segment, an outline or a model is valid exactly while the object it refers to exists, whichever route deletes that object: any of the handles that refer to it, its model (deleting the entity, clearing, culling) or the destruction of the model. Every operation of an invalid handle reports failure and has no effect, other than those which create or attach an object. Deleting an entity through a handle or a model takes it out of its model. Destroying, detaching or re-attaching an entity or model handle deletes no entity; a segment or outline handle deletes what it created or holds unless detached, creating another detaches the previous one, and a segment accepted by an outline belongs to the outline. A handle attaches only to an entity of its type. Creating an entity through a handle, or through a model with or without handle, puts exactly one entity into the model, or none if it fails. An entity belongs to at most one model: adding it to one takes it out of the other, and one taken out remains. Handle objects themselves are not copied.",
  ["histories"], "all sequences of the life-cycle operations on two handles and their models up to the stated length, for every entity type",
  "tests create handles and use them once", ["src/dllapi/dll_iges.cpp", "src/dllapi/dll_iges_entity.cpp", "src/dllapi/dll_entity100.cpp", "src/dllapi/dll_mcad_segment.cpp", "src/dllapi/dll_mcad_outline.cpp", "src/iges/iges.cpp"], [("validity flag", "AttachValidFlag / DetachValidFlag"), ("handle life cycle", "DLL_IGES / DLL_IGES_ENTITY / DLL_MCAD_SEGMENT / DLL_MCAD_OUTLINE")])
P("C11", "Unit conversion scales every length and nothing else",
  "Reading a file in any supported unit and model scale into millimetres multiplies every length and coordinate of an entity, and the minimum resolution, by exactly that unit's size divided by the model scale, and leaves angles, directions, weights, knots, parameters, flags and counts unchanged, so that a point computed on a converted curve is the converted point; the unit recorded afterwards is millimetres (a user-specified unit stays what it is) and the scale one. Changing a model's unit or scale does the same with the ratio of the old to the new unit, or of the new to the old scale. The equation of a conic afterwards describes the scaled conic. The coordinates of a curve in the parameter space of a surface (a line, arc, conic, spline or composite curve used as parameter curve of a trimmed surface or loop) are no lengths. Geometry that is valid in one unit is valid, and closed if it was closed, in every unit. A scale which is not positive is refused.",
  ["inputs"], "every unit, a symbolic scale, symbolic coordinates of each entity type", "tests use millimetres with scale one only",
  ["src/iges/iges.cpp"] + [ENT + "entity%d.cpp" % n for n in (104, 124, 126, 128)], [("conversion", "IGES::Read / IGES_ENTITY_*::rescale")])
P("C12", "Transforms compose and apply as affine maps",
  "A transformation applied to a point gives rotation times point plus translation; composing two transformations and applying the result equals applying them one after the other; the sums, differences and products of matrices, points and numbers are the usual ones, in place or not; and the end points of a curve placed by a chain of transformation entities are placed by the product of the chain, before and after the file is written and read.",
  ["inputs"], "all matrix elements, translations and points on an exact grid; chains up to the stated length", "tests use a few fixed placements",
  ["src/geom/mcad_utils.cpp", "src/geom/mcad_elements.h", ENT + "entity124.cpp"], [("transform algebra", "MCAD_TRANSFORM, MCAD_MATRIX operators"), ("chain", "IGES_ENTITY_124::GetOverallTransform")])
P("C13", "Point and normal comparison respects the stated tolerance",
  "Two points that differ by no more than the given resolution in every coordinate compare equal, points that differ by more than twice the resolution in any coordinate do not, and the comparison is symmetric. The normal computed from three points is a unit vector, perpendicular to both edges and oriented by the right hand rule; points on one line give the direction of Z. Normalising a vector gives a unit vector of the same direction, and Z for a zero vector.",
  ["inputs"], "all coordinates on a grid up to 1e9, all resolutions", "tests never exercise boundary distances",
  ["src/geom/mcad_utils.cpp"], [("comparison", "PointMatches / CheckNormal")])
P("C14", "File path handling is consistent",
  "For every path, its file name is what follows the last separator, its base name and extension are what precedes and follows the last dot of the file name (a leading dot does not count), and directory, base name and extension together give the path back, a backslash counting as a separator; appending to a path or replacing its extension changes only that part, whatever was asked before; and no path, however odd (empty, no dot, trailing separators, dots in directories), makes path handling throw or read outside the string.",
  ["inputs"], "all paths up to the stated length over a small alphabet of separators, dots and letters", "tests never call path functions directly",
  ["src/geom/mcad_utils.cpp"], [("paths", "MCAD_FILEPATH")])
P("C15", "Writing never destroys a file unasked and reports every failure",
  "Writing a model reports success only if the complete file reached the disk; if opening, writing or closing fails at any point the failure is reported. An existing file is left untouched unless overwriting was requested.",
  ["fault_sequences", "inputs"], "every number of bytes after which the disk is full, existing or missing file, overwrite requested or not", "tests write to a good disk",
  ["src/iges/iges.cpp"], [("file writing", "IGES::Write")])
P("C16", "A failed or repeated read leaves a clean model",
  "After a read that fails at any point, the model is empty, holds no entity of the file, and can be used to read or build another model with the same result as a new object; the process locale and stream state are as before. A successful read into a used model leaves nothing of the previous content.",
  ["inputs", "histories"], "every truncation point and symbolic corruption of a file; sequences of read, clear, build", "tests read once per object",
  ["src/iges/iges.cpp"], [("clean up", "IGES::Clear / Read")])
P("C17", "Numbers are written with the promised accuracy",
  "A real number written to a parameter field and read back differs from the original by no more than the file's minimum resolution (or the number's own double precision), for small, large, negative and exponent-form numbers alike.",
  ["inputs"], "all decimal magnitudes from the resolution up to 1e12", "tests write few values",
  ["src/iges/iges_io.cpp"], [("number formatting", "FormatPDREal")])
P("C18", "Merging models keeps every part",
  "Exporting one model into another packages its top-level parts as a new subfigure of the destination: the subfigure instances to which nothing refers, or to which only a subfigure refers that itself is not referred to; if there are none the trimmed surfaces to which nothing refers, and otherwise the solids. Every entity of the source is afterwards in the destination exactly once with its references intact, the source is empty, the destination's earlier entities are unchanged and keep their places, its units and scale stay, and it can be written and read back. The subfigure lists the parts in their order and is named after the source's file name without the extension, or has a made-up name which is like no other made-up one. Lengths are scaled by the ratio of the two models' units and model scales; line weights by the ratio of their gradations, rounded down, to no less than one, while none stays none. A source without such parts keeps its entities, and no subfigure is reported. A missing destination or handle, the model itself, and a conversion between a user-specified unit and another are refused with nothing changed.",
  ["inputs"], "all compositions of a source from six kinds of parts, all pairs of units, scales and gradations on a grid, all types of entities with symbolic lengths", "one test merges four fixed files",
  ["src/iges/iges.cpp"], [("export", "IGES::Export")])
P("C19", "Culling removes exactly the unreferenced dependents",
  "Culling removes, whatever the order in which the entities were created, every entity that is marked dependent (a dependency other than independent) and to which nothing refers; every transformation, colour, vertex list, edge list, loop and face to which nothing refers; every entity left without what it consists of (a composite curve without segments, a subfigure without members, an instance without its subfigure, a surface without its generating curves, a trimmed surface or a curve on a surface without its surface, a shell without faces, a solid without a shell); and what comes to be so by the removal of others; and nothing else (a solid with a shell is always kept). The thorough form also removes every entity to which nothing refers, other than instances of subfigures. Culling again changes nothing, the entities that remain keep their order and their links, and reading a file culls what was read.",
  ["inputs"], "all dependency graphs over a small number of entities in every creation order", "tests never cull a graph with orphans",
  ["src/iges/iges.cpp"], [("culling", "IGES::Cull")])
P("C20", "Optional entity references are kept as given",
  "Name properties can be added to an entity of any type as optional references, listed and removed: each accepted one is listed exactly once, in the order in which it was added, and the entity knows of its target and the target of the entity; one already listed, a missing one and an entity which is no property or association are refused; the list survives writing and reading, and writing and reading again, with its order, together with the comments; and a reference is dropped when its target is deleted. In a file written by another program either list of references may be empty or omitted, a reference to an entity of a type that is not supported is ignored, and counts or numbers that do not fit what follows, or an entity listed twice, are reported as an error.",
  ["histories", "inputs"], "all sequences of add, remove and delete up to the stated length", "no test uses optional references",
  [ENT + "iges_entity.cpp"], [("optional references", "AddOptionalEntity / DelOptionalEntity / GetOptionalEntities")])
P("C21", "Reading board files is faithful and safe",
  "An IDF 2.0 or 3.0 board file and its library are read into what is written in them: header, thickness, outlines of all eight kinds (owner, layers, lines, arcs of a stated angle, circles, cut-outs), drilled holes, notes, placements (a component of several outlines having the position of the first, and the others placed relative to it), component outlines with their properties, and the comments of a section, with lengths converted from the unit stated, keywords in either case, words quoted or not, sections in any order and with blank lines, unknown sections' lines and a missing last end of line tolerated. A record that lacks a required field or holds something else where a number or a keyword must be, a quoted number or keyword, a loop that is not closed, of the wrong direction or out of order, a component on both sides, and a section without its end are reported, and then the board is left empty. No bytes in a file cause a memory error.",
  ["inputs"], "symbolic words and lines of up to 7 characters, numbers with up to three symbolic digits, outlines of one loop of four segments and a cut-out, every record of a file with all sections damaged in each field, and one or two arbitrary bytes at every place of such a file", "tests convert a dozen fixed boards",
  ["src/idf/idf_helpers.cpp", "src/idf/idf_common.cpp", "src/idf/idf_outlines.cpp", "src/idf/idf_parser.cpp"], [("token parsing", "IDF3 helpers"), ("sections", "IDF3_BOARD::ReadFile")])
P("C22", "Segment intersections are true intersections",
  "When two line, arc or circle segments are reported to intersect, each reported point lies on both segments; when they properly cross, an intersection is reported; and the result does not depend on the order or direction in which the segments are given.",
  ["inputs"], "all end points, centres and radii on a grid", "thirty fixed cases",
  ["src/geom/mcad_segment.cpp"], [("intersection", "MCAD_SEGMENT::GetIntersections")])
P("C23", "Outlines stay closed and ordered",
  "An outline accepts only segments that continue it, reports itself closed exactly when the last segment ends where the first begins, keeps its segments in order, and after adding or subtracting overlapping shapes is again a closed outline whose segments join end to end.",
  ["inputs", "histories"], "all sequences of segments on a grid up to the stated length", "a few fixed outlines",
  ["src/geom/mcad_outline.cpp"], [("outline", "MCAD_OUTLINE")])
P("C24", "Curves report their true end points",
  "For every line, arc, conic and composite curve, the reported start and end points are those of its geometry, placed by its transformation when that is asked for. A line is never closed, an arc is closed exactly when its end points agree within the model's resolution and its radius is not zero, a conic only if it is an ellipse whose end points are equal, and a composite curve of several segments exactly when its last end point meets its first start point. A composite curve lists its segments, each once, in the order in which they were added, refuses a missing segment, another composite curve and any segment once it is closed, and after one of its segments is deleted keeps only segments that are connected; a simple curve, spline curves included, has no constituents.",
  ["inputs"], "all coordinates and transforms on a grid", "tests do not check end points",
  [ENT + "entity100.cpp", ENT + "entity102.cpp", ENT + "entity110.cpp"], [("curve interface", "IGES_CURVE: GetStartPoint / GetEndPoint / IsClosed / GetCurve")])
P("C25", "Spline data is copied and validated",
  "Spline curve and surface data handed to the library is copied (even when it is the entity's own data) and is returned exactly as given. It is accepted exactly when it is complete, every order is at least two, there are at least as many coefficients as the order in each direction, and each parameter range lies within its knots and is not empty; refused data leaves the entity holding what it held before.",
  ["inputs"], "all small orders and sizes with symbolic knots, coefficients and ranges", "tests only hand in valid data once",
  [ENT + "entity126.cpp", ENT + "entity128.cpp"], [("data copy and validation", "SetNURBSData / GetNURBSData")])
P("C26", "Values set through the interface are what it returns",
  "A value set through a handle is what every handle of the same entity returns, what the entity holds, and it changes no other value. This is so of the parameters of arcs, conics, lines, surfaces of revolution, tabulated cylinders, transformations, colours and subfigure instances; of the names of subfigures, colours and properties; of the attributes every entity has (font, level, colour, line weight, which is limited to the model's gradations, label, which is cut to eight characters, subscript, visibility, dependency, use, form, and the entities used as colour and transformation), as far as the type of entity has them; of the lists of comments, header lines, subfigure members, cut-outs, optional entities and curve segments, which keep the order in which they were filled; of links between entities, which may be set, replaced, set again and removed; of the flags of curves on surfaces, of spline data, and of the texts and numbers of the file header. A value outside those allowed (a colour component outside 0 to 100, a number or a flag that is not defined) is refused and leaves the earlier one.",
  ["inputs", "histories"], "all values of each type, all sequences of set and remove up to the stated length", "tests set each value once, if at all, and read it back through the same handle",
  ["src/dllapi/dll_iges.cpp", "src/dllapi/dll_iges_entity.cpp", "src/dllapi/dll_entity110.cpp", "src/dllapi/dll_entity144.cpp", "src/dllapi/dll_entity308.cpp"], [("accessors", "the DLL_IGES_ENTITY classes")])

P("C27", "A board that is written can be read again",
  "An IDF board that is written is read again with the same contents: name, thickness, outlines of all eight kinds (owner, side or layers, height, identifier, lines, arcs and circles), drilled holes, notes, placed components with all their outlines on either side, the component outlines in use with their properties, and the comments of each section. Lengths agree to half of the last place written: 0.00001 mm (0.001 mm for diameters and for heights above the board) or 0.1 thou, and 0.001 degree. The file is in the unit asked for, whatever unit the board was read in, and component outlines too if that is asked for; the file versions count up; an outline is written counterclockwise and a cut-out clockwise, whichever way they were put together. Names, identifiers, designators, notes and properties may hold spaces. A file that cannot be written in full is reported.",
  ["inputs"], "boards with one to three items of each kind, every keyword of each field, values k/1000000 up to 9, outlines of three vertices on a grid and of four segments with arcs, texts of up to two (four) symbolic characters, and space for 0 to 400 bytes", "no test writes an IDF file",
  ["src/idf/idf_parser.cpp", "src/idf/idf_outlines.cpp", "src/idf/idf_common.cpp"], [("board writer", "IDF3_BOARD::WriteFile"), ("sections", "writeData / write / writeNote / writePlaceData")])
P("C28", "An outline becomes a closed surface",
  "The walls and planes that the geometry library makes from a closed outline bound a solid without gaps: every edge of every face is an edge of exactly one other face, with the same ends and, for an arc, bulging the same way. The boundary of each face is given both in the parameters of its surface and in space, with the same number of edges, each starting and ending at the same place on the surface in both, following one another and closed. There is one side for each line and one to three for each arc, from the top to the bottom; the top and the bottom have one inner boundary for each opening; normals point up at the top, down at the bottom, and out of the material at a side. A wall through four corners has those corners in that order. What is made can be written and read again with the same edges, and the placement of an arc is marked left-handed only if it is. Nothing is made from an outline that is not closed.",
  ["inputs"], "walls with corners within 4096 at integer places; arcs from and to eight directions either way, of any size to 500 and any place; pentagons and openings with up to two holes and a triangle, each corner anywhere within 3 (in steps of 1/16), added in either order; outlines and openings with one arc; round boards with a hole", "tests export fixed boards and look at no surface",
  ["src/geom/iges_geom_pcb.cpp", "src/geom/geom_wall.cpp", "src/geom/geom_cylinder.cpp", "src/geom/mcad_outline.cpp"], [("sides", "MCAD_OUTLINE / IGES_GEOM_PCB::GetVerticalSurface"), ("planes", "IGES_GEOM_PCB::GetTrimmedPlane")])
