#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or ["svgcleaner::cleaner::clean_doc (Document before / after)"],
                          "hook_needed": None}})

p("P01", "Path optimisation keeps the drawn outline",
  "Whatever path options are enabled (removing unused segments, converting segments to shorter ones, relative/absolute conversion), the path data that remains draws the same outline, sub-path by sub-path and in the same direction, as the original path data. Only segments that draw nothing may disappear (zero-length segments that leave no mark, a final line that a following closepath draws anyway, and a closed curve that repeats the one before it), and every curve, arc and line that is kept keeps its start point, control points, radii, flags and end point.",
  ["inputs", "configurations"],
  "every sequence of path segments (all commands, absolute and relative, any coordinates) and every combination of the path options",
  "The unit tests feed about 60 fixed path strings; whether a segment is redundant depends on arithmetic relations between coordinates (equal points, collinear or reflected control points) of neighbouring segments that no sample of strings covers.",
  ["src/task/paths/mod.rs", "src/task/paths/rm_unused.rs", "src/task/paths/conv_segments.rs", "src/task/utils.rs"],
  [("process_path / process_paths", "src/task/paths/mod.rs"), ("remove_unused_segments", "src/task/paths/rm_unused.rs"), ("convert_segments", "src/task/paths/conv_segments.rs"), ("resolve_xy", "src/task/utils.rs")])

p("P02", "Basic shapes become paths with the same outline",
  "With shape conversion enabled, a line, rect, polyline or polygon that is turned into a path draws exactly the outline, direction and closedness that the SVG rules give the original shape, and keeps every presentation attribute. A shape that cannot be converted exactly (rounded corners, lengths in units other than user units, missing or invalid geometry) is left as the shape it was and never drawn differently.",
  ["inputs"],
  "every line/rect/polyline/polygon with any combination of present and absent geometry attributes, units, coordinate values and point counts",
  "Tests cover a dozen fixed shapes; defaults for absent attributes, units, zero and negative sizes and point counts combine into many more cases.",
  ["src/task/conv_shapes.rs"],
  [("convert_shapes_to_paths", "src/task/conv_shapes.rs")])

p("P03", "Applying a transform to coordinates keeps the rendering",
  "When a transform attribute is folded into shape, path or gradient coordinates, every drawn element keeps its outline in canvas coordinates, its effective stroke width, dash pattern and dash offset, and gradients keep their effective geometry. A transform that cannot be folded exactly (skew, non-proportional scale, percent or non-user units, bounding-box paint, clipping, masking, filters, elements shared through links) is left in place.",
  ["inputs", "configurations"],
  "every shape, path and gradient with any transform matrix, coordinate values, units, stroke properties (own or inherited) and linked paint/clip/mask/filter",
  "Tests cover a handful of matrices per shape; the guard conditions combine the matrix class, units, links and inherited stroke properties.",
  ["src/task/apply_transforms/mod.rs", "src/task/apply_transforms/shapes.rs", "src/task/apply_transforms/preproc.rs", "src/task/apply_transforms/gradients.rs", "src/task/paths/apply_transform.rs", "src/task/paths/mod.rs", "src/task/utils.rs"],
  [("has_valid_transform / is_valid_transform / recalc_stroke", "src/task/utils.rs"), ("apply_transform_to_shapes", "src/task/apply_transforms/shapes.rs"), ("apply_transform_to_gradients", "src/task/apply_transforms/gradients.rs")])

p("P04", "Grouping and ungrouping keep every element's appearance",
  "After groups are removed, created or attributes are moved between elements and groups, every drawn element appears in the same paint order with the same accumulated transform, the same accumulated group opacity, clip path, mask and filter, and the same value of every inherited or own presentation property as before. Groups whose own attributes make a difference as a group (for example opacity over several children, clip path, mask, filter) are not dissolved.",
  ["inputs", "configurations"],
  "every tree of groups and shapes with any presentation attributes, transforms and non-inheritable attributes on any of them, and every combination of the ungrouping and grouping options",
  "Tests use fixed small trees; the interaction of inheritance, attribute override, sibling runs and transform placement is combinatorial.",
  ["src/task/ungroup_groups.rs", "src/task/group_by_style.rs", "src/task/group_defs.rs", "src/task/ungroup_defs.rs"],
  [("ungroup_groups", "src/task/ungroup_groups.rs"), ("group_by_style", "src/task/group_by_style.rs"), ("group_defs", "src/task/group_defs.rs"), ("ungroup_defs", "src/task/ungroup_defs.rs")])

p("P05", "Resolving use elements keeps what they draw",
  "With resolving of use elements enabled, everything that was drawn through a use element is still drawn at the same place in the paint order, with the same position (transform, x and y offset included), the same visibility and the same inherited and own presentation properties. A use element that cannot be replaced exactly is left working as it was.",
  ["inputs"],
  "every use element with any x/y/width/height/transform/style attributes and any referenced shape, group or symbol with its own attributes, referenced once or several times",
  "Tests cover about ten fixed documents.",
  ["src/task/resolve_use.rs"],
  [("resolve_use", "src/task/resolve_use.rs")])

p("P06", "Gradient cleanups keep every gradient's effective definition",
  "After resolving gradient inheritance and removing, merging, regrouping or simplifying gradients and their stops or attributes, every element painted with a gradient is still painted with a gradient (or solid paint) that has the same kind, units, spread method, transform, geometry and list of stop offsets, colours and opacities. This includes gradients that inherit through chains of references, invalid and duplicated stops, and gradients used by several elements.",
  ["inputs", "configurations"],
  "every set of linear/radial gradients with any attributes, reference chains and stop lists and every combination of the gradient options",
  "Tests use fixed documents with one or two gradients; equality of gradients depends on defaults, inheritance and numeric relations between attributes and stops.",
  ["src/task/resolve_gradients.rs", "src/task/merge_gradients.rs", "src/task/rm_dupl_defs/mod.rs", "src/task/rm_dupl_defs/linear_gradient.rs", "src/task/rm_dupl_defs/radial_gradient.rs", "src/task/regroup_gradient_stops.rs", "src/task/rm_invalid_stops.rs", "src/task/rm_gradient_attrs.rs", "src/task/fix_attrs.rs"],
  [("resolve_linear_gradient_attributes / resolve_radial_gradient_attributes / resolve_stop_attributes", "src/task/resolve_gradients.rs"), ("merge_gradients", "src/task/merge_gradients.rs"), ("remove_dupl_*", "src/task/rm_dupl_defs"), ("regroup_gradient_stops", "src/task/regroup_gradient_stops.rs"), ("remove_invalid_stops", "src/task/rm_invalid_stops.rs"), ("remove_gradient_attributes", "src/task/rm_gradient_attrs.rs")])

p("P07", "Invisible-element removal removes only what draws nothing",
  "With removal of invisible elements (and of unused or empty definitions) enabled, an element disappears only if it could not contribute to the rendering: everything that drew something before the cleanup is still drawn, in the same order and with the same effective fill, stroke, opacity, clip path, mask and filter. Elements that draw nothing themselves but are referenced by something drawn are not removed.",
  ["inputs", "configurations"],
  "every tree of shapes, groups, clip paths, masks, filters, gradients and use elements with any visibility, display, opacity, paint, geometry and link attributes",
  "Tests check a few fixed trees per rule; the rules interact through inheritance, links and nested definitions.",
  ["src/task/rm_invisible_elems.rs", "src/task/rm_unused_defs.rs", "src/task/final_fixes.rs"],
  [("remove_invisible_elements", "src/task/rm_invisible_elems.rs"), ("remove_unused_defs", "src/task/rm_unused_defs.rs")])

p("P08", "Attribute removal never changes a computed value",
  "Removing default-valued, unused, text-only, needless or unit/coordinate attributes (each under its own option) never changes the computed value of any property or geometry attribute of an element that is rendered: an attribute is dropped only if the value it takes without it (inherited or initial) is the same, or if it has no effect on that element or its descendants.",
  ["inputs", "configurations"],
  "every tree with any presentation or geometry attribute, default or not, on any ancestor and element, and every attribute-removal option",
  "Tests check one tree per attribute family; whether a default value matters depends on all ancestors and on which descendants consume it.",
  ["src/task/rm_default_attrs.rs", "src/task/rm_needless_attrs.rs", "src/task/rm_text_attrs.rs", "src/task/rm_unused_coords.rs", "src/task/rm_default_transform.rs", "src/task/rm_version.rs"],
  [("remove_default_attributes", "src/task/rm_default_attrs.rs"), ("remove_needless_attributes", "src/task/rm_needless_attrs.rs"), ("remove_text_attributes", "src/task/rm_text_attrs.rs"), ("remove_unused_coordinates", "src/task/rm_unused_coords.rs")])

p("P09", "References and IDs stay consistent",
  "After cleaning, every reference from one element to another still leads to an element of the output document that is equivalent to the one it led to before, ids in the output are unique and non-empty, and an id is removed only if nothing in the document refers to it. Shortening ids gives every element that had an id a fresh distinct id without changing what any reference resolves to.",
  ["inputs", "configurations"],
  "every document with any number of ids and any pattern of references between its elements, and every combination of the id, unused-definition and duplicate-definition options",
  "Tests use documents with at most a few ids; the id generator's sequence (letters, digits, carry) and the reference graph are unbounded.",
  ["src/task/trim_ids.rs", "src/task/rm_unref_ids.rs", "src/task/rm_unused_defs.rs", "src/task/rm_dupl_defs/mod.rs", "src/cleaner.rs"],
  [("trim_ids", "src/task/trim_ids.rs"), ("remove_unreferenced_ids", "src/task/rm_unref_ids.rs"), ("remove_unused_defs", "src/task/rm_unused_defs.rs")])

p("P10", "Unsupported documents are refused and left untouched",
  "A document that contains a script, an animation element, a conditional-processing attribute (systemLanguage, requiredFeatures), an event-handler attribute or a reference to an external file in a place the cleaner cannot handle is rejected with the documented error, wherever the construct occurs in the tree, and the document is not modified. A document without such a construct is never rejected by these checks.",
  ["inputs", "configurations"],
  "every element kind, attribute kind, link value and position in the tree",
  "Tests try one example per error; the rejection must hold for every element kind, attribute and nesting position and under every option set.",
  ["src/task/preclean_checks.rs", "src/cleaner.rs"],
  [("preclean_checks", "src/task/preclean_checks.rs")])

p("P11", "inherit, currentColor and repaired attributes keep their meaning",
  "The mandatory normalisation replaces every inherit and currentColor keyword by the value SVG gives it (the value of the parent element), or the document is refused with the documented error when no ancestor provides a value, so the computed value of each property of each element is unchanged, and repairs missing or invalid attributes (opacity out of range, missing or out-of-order stop offsets, negative or missing sizes) only to the value the SVG rules prescribe or removes an element that SVG does not render.",
  ["inputs"],
  "every tree with any attribute set to inherit or currentColor at any depth, and every invalid value of the repaired attributes",
  "Tests contain a few fixed trees for a few attributes; the rule has to hold for every presentation attribute, depth and combination.",
  ["src/task/resolve_inherit.rs", "src/task/fix_attrs.rs", "src/cleaner.rs"],
  [("resolve_inherit", "src/task/resolve_inherit.rs"), ("fix_invalid_attributes", "src/task/fix_attrs.rs")])

p("P12", "Cleaning never crashes or hangs",
  "For every well-formed document and every combination of cleaning options, cleaning terminates and returns either success or one of the documented errors: it never panics, aborts, recurses without bound or loops forever, whatever the element tree, attribute types, reference graph (including self references and cycles) and numeric values.",
  ["inputs", "configurations"],
  "every document tree, attribute value type, reference graph and option set",
  "A crash needs an unusual combination (an unexpected element inside a gradient, a link of an unexpected type, a cyclic reference); tests contain only sane documents.",
  ["src/cleaner.rs", "src/task/mod.rs", "src/task/resolve_gradients.rs", "src/task/fix_attrs.rs", "src/task/regroup_gradient_stops.rs", "src/task/paths/conv_segments.rs"],
  [("clean_doc", "src/cleaner.rs")])

p("P13", "Content removal options remove exactly what they name",
  "Each content-removal option (title, desc, metadata, version, the xlink namespace declaration, and on the command line comments, declarations, non-SVG elements and non-SVG attributes) removes every node or attribute of the kind it names and nothing else (a namespace declaration only when nothing uses it); with the option off nothing of that kind is removed, and all remaining nodes keep their order, nesting, text and attributes.",
  ["inputs", "configurations"],
  "every tree that mixes the kinds of nodes and attributes at any position, and every on/off combination of the content-removal options",
  "Each test enables one option on one fixed tree; nesting and option combinations are not covered.",
  ["src/task/rm_elems.rs", "src/task/rm_version.rs", "src/task/final_fixes.rs", "src/cleaner.rs"],
  [("remove_element / remove_comments / remove_nonsvg_* ", "src/task/rm_elems.rs"), ("clean_doc", "src/cleaner.rs")])

p("P14", "Command-line options control exactly the documented setting",
  "Every command-line option sets exactly the cleaning, parsing or writing setting it is documented to set, on or off, and leaves every other setting at its documented default (or off when defaults are disabled). Invalid values and inconsistent combinations (an option that requires another one which is off) are reported as an error and never silently accepted.",
  ["configurations"],
  "every assignment of on/off/absent to every option and every value of the enumerated and numeric options",
  "There are more than 2^50 combinations; tests check none of the mapping.",
  ["src/cli.rs", "src/main.rs", "src/options.rs"],
  [("gen_cleaning_options / gen_write_options / gen_parse_options / check_values", "src/cli.rs")],
  ["svgcleaner::cli (parsed arguments -> CleaningOptions / WriteOptions / ParseOptions)"])

p("P15", "Numbers are rounded to the nearest value at the set precision",
  "Every coordinate, transform, property and path number in the cleaned document is the original number rounded to the nearest representable one with the configured number of decimals for its class (coordinates, transforms, properties, paths), so it differs from the exact value by at most half a unit in the last kept decimal. Numbers of one class are never rounded with the precision of another and nothing else about the attribute changes.",
  ["inputs", "configurations"],
  "every numeric value within the stated range, every attribute class and every precision setting",
  "Tests check a few literals at the default precision.",
  ["src/task/round_numbers.rs"],
  [("round_numbers", "src/task/round_numbers.rs")])

p("P16", "The command-line tool never damages or loses a file",
  "The tool writes the output only after the whole cleaning succeeded: when reading, parsing or cleaning fails, or the result would be larger than the original, the output path is not created or altered (or, with copy-on-error, receives a byte-exact copy of the input), and the input file is never modified unless it is also the output. When it reports success the output file holds the complete cleaned document.",
  ["inputs", "configurations", "fault_sequences"],
  "every outcome of parsing, cleaning and each file operation, every relevant command-line switch, and sizes of the result relative to the input",
  "No test runs the executable; failure paths need faults at particular file operations.",
  ["src/main.rs", "src/cleaner.rs"],
  [("main / clean / copy on error", "src/main.rs"), ("save_file / write_buffer", "src/cleaner.rs")],
  ["files and exit status of the svgcleaner executable"])

p("P17", "Style attribute joining keeps every property",
  "When presentation attributes are joined into a style attribute, the style attribute lists exactly the properties the element had, each with the same value (only a text value with a quote, a reference or a semicolon, which a style attribute cannot hold, stays an attribute), and all other attributes stay; when joining is off, or the mode's condition is not met, attributes stay separate. The written document parses back to a document with the same attribute values.",
  ["inputs", "configurations"],
  "every set of presentation and other attributes on any element and every joining mode",
  "Tests check a few fixed sets.",
  ["src/task/join_style_attrs.rs", "src/cleaner.rs"],
  [("join_style_attributes", "src/task/join_style_attrs.rs")])

p("P18", "The default clean-up as a whole keeps the rendering",
  "Cleaning a document with the default options used by the command-line tool, or with any combination of options, yields a document that renders like the original: the same elements are drawn in the same order with the same outline, position, paint, opacity, clip path, mask and filter. This also holds for every further cleaning pass over an already cleaned document.",
  ["inputs", "configurations", "histories"],
  "every supported document, every option combination, and any number of successive passes",
  "Tests exercise one task at a time; defects that need two cooperating tasks (one task establishing what the next one relies on) are outside any of them.",
  ["src/cleaner.rs", "src/main.rs", "src/task/mod.rs"],
  [("clean_doc: order and pairing of tasks", "src/cleaner.rs"), ("multipass", "src/main.rs")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
