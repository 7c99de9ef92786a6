#!/usr/bin/env python3
# Writes /verif/properties.jsonl.  Kept as a script only because JSON lines are tedious to edit by hand.
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe, state=None, hook=None):
    anchors = {"files": files,
               "mechanism": [{"name": n, "where": w} for n, w in mech],
               "observe_at": observe, "hook_needed": hook}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": quant}, why_tests_cant=why, anchors=anchors))

p("C01", "GRIB2 section order is enforced and submessages are assembled correctly",
  "A sequence of sections is accepted exactly when it is a concatenation of messages of the form 0 1 (submessage)+ 8, where a submessage is an optional 2, an optional 3, then 4 5 6 7, a 2 must be followed by a 3, and the first submessage of each message must bring its own 3. Every accepted submessage is reported once, in file order, with the right (message, submessage) index and with exactly its own sections, Sections 0 and 1 of its message and the latest Sections 2 and 3 of the same message (nothing is inherited across messages). The first departure from the order ends the reading with the error that describes it (wrong order, missing grid definition, premature end, or the underlying error) and its section position, and nothing after it is reported.",
  ["histories", "inputs"],
  "every sequence of section numbers (including unknown numbers, errors from the section source, and premature end) up to a depth, any number of messages and submessages within it",
  "The tests feed about a dozen hand-picked section sequences; the language of valid files is infinite and the inheritance of Sections 2/3 depends on the whole history of the message.",
  ["src/parser.rs", "src/context.rs"],
  [("Grib2SubmessageValidator state machine", "src/parser.rs"), ("section cache / clear_message_cache", "src/parser.rs")],
  ["grib::Grib2SubmessageStream", "grib::from_slice(..).iter()"],
  [("state / has_sect3 / counters", "position in the grammar", "src/parser.rs: Grib2SubmessageValidator"), ("sect0..sect3", "sections inherited by later submessages", "src/parser.rs")])

p("C02", "The reported section map is exactly the layout of the file",
  "For a stream holding GRIB2 messages, possibly preceded, separated or followed by unrelated bytes, every section is reported once, in order, with its true number, absolute byte offset, byte size and content. Unrelated bytes of any length between messages never shift, hide or duplicate a section, and a file without any GRIB2 message yields an empty collection. Reading a submessage's sections through its reported offsets and sizes yields the very bytes of that section in the file.",
  ["inputs"],
  "every arrangement of messages, section sizes and gap lengths (including gaps around the 4096-byte search window and partial magic strings in the gap), and a reader that starts at a non-zero position",
  "Tests use a few sample files, with gaps of a handful of lengths; offset arithmetic over all gap lengths and message layouts is not sampled by them.",
  ["src/reader.rs", "src/context.rs"],
  [("read_sect0 sliding search window", "src/reader.rs"), ("whole_size/rest_size accounting", "src/reader.rs")],
  ["grib::Grib2SectionStream", "grib::Grib2::sections", "grib::from_reader"],
  [("whole_size, rest_size", "absolute end of the current message and bytes left in it", "src/reader.rs")])

p("C03", "Results do not depend on how the reader delivers its bytes",
  "Parsing and decoding give the same sections, submessages, values and coordinates, or the same error, whether the underlying reader returns all requested bytes at once, returns fewer bytes than requested at any call, or reports an interrupted call that must be retried.",
  ["schedules", "inputs"],
  "every placement of up to a bounded number of short reads (every length) and interruptions among all read calls of a parse-and-decode history",
  "The tests only read from files and slices that always fill the buffer; the environment's choices at each read call are never varied.",
  ["src/reader.rs", "src/decoder.rs"],
  [("SeekableGrib2Reader read loops", "src/reader.rs"), ("check_size!", "src/reader.rs")],
  ["grib::from_reader", "grib::Grib2SubmessageDecoder"])

p("C04", "An I/O failure is reported and never turns into silently different data",
  "If the underlying reader fails at any read or seek call, the operation that needed it returns an error; it never returns a shorter list of messages, different metadata or different values as if nothing had happened, and it never panics. A failure while decoding one submessage leaves the opened file usable: later operations on it behave as if the failed one had not been attempted.",
  ["fault_sequences"],
  "every single and every pair of read/seek calls of open, iterate and decode histories as the failing ones, for every failure kind",
  "No test injects an I/O failure at all.",
  ["src/reader.rs", "src/context.rs", "src/decoder.rs"],
  [("ParseError::ReadError conversion", "src/error.rs"), ("absolute seek before payload reads", "src/reader.rs read_sect_payload_as_slice")],
  ["grib::from_reader", "grib::Grib2SubmessageDecoder::from"])

p("C05", "A file cut short anywhere is never mistaken for a different file",
  "For every prefix of a valid file, opening it either fails with an error or reports exactly the complete messages in the prefix when what remains after them is too short to be the start of a message or contains none. No prefix ever yields a submessage that the whole file does not contain, nor a decoded value that differs from the whole file's.",
  ["crash_points", "inputs"],
  "every cut position of every generated file (single and multi-message, multi-submessage, gaps, all packings, with and without bitmap)",
  "Tests cut no file; one section-order test models one missing section.",
  ["src/reader.rs", "src/parser.rs", "src/decoder.rs"],
  [("UnexpectedEndOfData", "src/parser.rs"), ("read_exact / check_size!", "src/reader.rs")],
  ["grib::from_slice", "grib::Grib2SubmessageDecoder"])

p("C06", "Damaged input yields an error or a value, never a panic, hang or memory blow-up",
  "For every byte string, opening it, listing sections, submessages and templates, describing submessages, querying every accessor, computing grid indices and coordinates, and decoding values all terminate with a result or an error. None of them panics, loops for ever, or allocates memory out of proportion to the input and to the number of points it declares.",
  ["inputs"],
  "every single-byte change (all 255 other values at every position), every single-section resize, and bounded multi-field damage, of a family of valid files covering all templates",
  "Tests read only well-formed files; there is no corruption test.",
  ["src/reader.rs", "src/datatypes/sections.rs", "src/decoder.rs", "src/decoder/complex.rs", "src/decoder/run_length.rs", "src/grid.rs", "src/grid/latlon.rs"],
  [("size checks in from_payload constructors", "src/datatypes/sections.rs"), ("decoder parameter checks", "src/decoder/*.rs")],
  ["every public entry point of the grib crate"])

p("C07", "Submessage, value and coordinate iterators obey the iterator protocol",
  "For the iterators over submessages, decoded values, grid indices and coordinates, any interleaving of next, nth, size_hint and (where offered) clone behaves as on the full list of items: nth(k) skips k items from the current position, an exhausted iterator keeps returning nothing, size_hint brackets (and, when it states an exact count, equals) the number of items left (for decoded values: of well-formed data), and a clone continues independently from the same position.",
  ["histories"],
  "every sequence of iterator operations up to a depth on collections of several sizes",
  "Tests call each iterator once from the start; operation sequences are not exercised.",
  ["src/context.rs", "src/decoder.rs", "src/decoder/bitmap.rs", "src/grid.rs", "src/grid/helpers.rs"],
  [("SubmessageIterator::{next,nth,size_hint}", "src/context.rs"), ("BitmapDecodeIterator", "src/decoder/bitmap.rs"), ("GridPointIndexIterator", "src/grid.rs")],
  ["grib::SubmessageIterator", "grib::Grib2DecodedValues", "grib::GridPointIndexIterator", "grib::GridPointIterator"],
  [("pos / offset / major_pos, minor_pos", "iteration position", "src/context.rs, src/decoder/bitmap.rs, src/grid.rs")])

p("C08", "Decoding a submessage does not depend on what was done before",
  "For one opened file, the metadata, coordinates and decoded values of every submessage are the same whatever other submessages were listed, described or decoded before, in whatever order and however often, and whether or not a previous decoding was abandoned halfway or failed.",
  ["histories"],
  "every sequence of list/describe/decode/abandon operations over the submessages of one file up to a depth",
  "Each test decodes one submessage of a freshly opened file; the shared reader's position and the iterator state across operations are never exercised.",
  ["src/context.rs", "src/reader.rs", "src/decoder.rs"],
  [("RefCell-shared reader with absolute seeks", "src/context.rs, src/reader.rs")],
  ["grib::Grib2::iter", "grib::Grib2SubmessageDecoder"],
  [("reader position", "shared mutable state between submessages", "src/context.rs: Grib2.reader")])

p("C09", "Decoding yields one value per grid point, with gaps where the bitmap says",
  "For every submessage that decodes without error from well-formed data, the number of decoded values equals the number of grid points declared in the grid section. When a bitmap is present, the k-th value is NaN if and only if the k-th bitmap bit is 0, and the values at the 1 bits are the packed values in order; without a bitmap the values are the packed values in order. A bitmap with fewer bits than the grid has points is an error.",
  ["inputs"],
  "every bitmap of every number of points up to a bound, over every packing, plus boundary point counts",
  "The bitmap tests use one 24-point bitmap (and discard the comparison's result); point counts that are not multiples of 8 with a partial last byte are never compared.",
  ["src/decoder/bitmap.rs", "src/decoder.rs"],
  [("BitmapDecodeIterator", "src/decoder/bitmap.rs"), ("create_bitmap_for_nonnullable_data", "src/decoder/bitmap.rs")],
  ["grib::Grib2SubmessageDecoder::dispatch"],
  [("offset / bitmap cursor", "which point comes next", "src/decoder/bitmap.rs")])

p("C10", "Simple packing decodes to (R + X * 2^E) / 10^D for every field width",
  "For simple packing, value k equals (R + X_k * 2^E) * 10^-D within single-precision rounding, where X_k is the k-th big-endian bit field of the declared width (any width up to 32 bits, fields crossing octets freely) and E, D are sign-and-magnitude numbers. A width of 0 yields the constant R * 10^-D at every encoded point; fields of more than 32 bits are an error or decode to the same formula.",
  ["inputs"],
  "every width 0..32 with every alignment, exhaustive small field values and boundary values of R, E, D",
  "One two-value 16-bit case and a few sample files; widths, alignments and scale signs are not enumerated.",
  ["src/decoder/simple.rs", "src/decoder/stream.rs", "src/decoder/param.rs"],
  [("NBitwiseIterator bit cursor", "src/decoder/stream.rs"), ("SimplePackingDecodeIterator", "src/decoder/simple.rs")],
  ["grib::Grib2SubmessageDecoder::dispatch (template 5.0)"])

p("C11", "Complex packing recovers the packed integers for every group layout",
  "For complex packing, every field that a conforming encoder can produce decodes to its original values: for any split into groups, with any reference, width and length of each group (constant groups, zero-bit descriptors and the separately stored last group length included) and any octet alignment. Points marked by the primary or secondary missing-value code (as enabled by the missing-value management) decode to NaN, and no other point does. A group splitting method or missing-value management that is not known is an error, and so are descriptors wider than the library can hold; neither decodes to other values.",
  ["inputs"],
  "every small field and every way to split it into groups, all descriptor widths and reference/increment parameters within bounds, all three missing-value managements",
  "Only two real files are decoded; group layouts and missing-value codes are whatever those files contain.",
  ["src/decoder/complex.rs", "src/decoder/complex/missing.rs", "src/decoder/stream.rs", "src/decoder/param.rs"],
  [("ComplexPackingValueDecodeIterator", "src/decoder/complex.rs"), ("DecodedValue", "src/decoder/complex/missing.rs")],
  ["grib::Grib2SubmessageDecoder::dispatch (template 5.2)"],
  [("pos, start_offset_bits", "bit cursor across groups", "src/decoder/complex.rs")])

p("C12", "Spatial differencing of order 1 and 2 is inverted exactly",
  "For complex packing with first- or second-order spatial differencing, the decoded values are the original field for every field a conforming encoder can produce whose integers fit in 32 signed bits: any number of octets (1 to 4) for the extra descriptors, any signs of the first values and of the overall minimum, and missing points anywhere, which neither consume nor disturb the differencing state. Another order is an error, and another number of octets never decodes to other values.",
  ["inputs"],
  "every small integer field with every missing pattern, both orders, all descriptor octet counts, all group splits within bounds",
  "The unit tests exercise the differencing iterators with a few sequences; sign-and-magnitude descriptors with every octet count through the full decoder are not covered.",
  ["src/decoder/complex.rs", "src/decoder/complex/diff.rs", "src/helpers.rs"],
  [("First/SecondOrderSpatialDifferencingDecodeIterator", "src/decoder/complex/diff.rs"), ("SpatialDifferencingExtraDescriptors", "src/decoder/complex/diff.rs")],
  ["grib::Grib2SubmessageDecoder::dispatch (template 5.3)"],
  [("count, prev1, prev2", "differencing history", "src/decoder/complex/diff.rs")])

p("C13", "Run-length packing expands every level and run correctly",
  "For run-length packing, every sequence of levels encoded with its runs decodes to the level table's values repeated the right number of times: runs may need any number of base-(2^n - 1 - maxv) digits, level 0 is NaN, level k is the k-th table entry scaled by the decimal factor (positive or negative), and widths of 1 to 16 bits are supported. A stream that starts with a run digit, names a level above the table, or expands to a different number of points than declared is an error. Fewer than eight zero bits at the end are padding, not data.",
  ["inputs"],
  "every code sequence up to a length for every small width and maximum level, and boundary widths",
  "Two hand-made byte-aligned cases and one sample file.",
  ["src/decoder/run_length.rs"],
  [("rleunpack", "src/decoder/run_length.rs"), ("level_map", "src/decoder/run_length.rs")],
  ["grib::Grib2SubmessageDecoder::dispatch (template 5.200)"],
  [("cached, exp", "current level and digit weight", "src/decoder/run_length.rs")])

p("C14", "PNG-packed fields decode to the packed values",
  "For PNG packing, the samples of the embedded image, read row by row as unsigned integers of the declared width, become (R + X * 2^E) * 10^-D in order, for 1-, 2-, 4-, 8-, 16-, 24- and 32-bit fields (grey, RGB, RGBA; rows padded to whole octets) and images of any shape; a field of width 0 is constant and needs no image. A broken image, or one of another size or depth than declared, is an error; samples of 48 or 64 bits are an error or decode like the others.",
  ["inputs"],
  "every image shape within bounds, all supported depths, boundary sample values, all row filters",
  "One 16-bit sample file is decoded.",
  ["src/decoder/png.rs", "src/decoder/simple.rs"],
  [("read_image_buffer + NBitwiseIterator", "src/decoder/png.rs")],
  ["grib::Grib2SubmessageDecoder::dispatch (template 5.41)"])

p("C15", "JPEG 2000-packed fields decode to the packed values",
  "For JPEG 2000 packing, the samples of the losslessly coded grey image, row by row, become (R + X * 2^E) * 10^-D in order, for every image shape and every sample depth the decoder accepts. A code stream that is cut short or has no valid main header, an image of another size than declared, or one with more than one component is an error.",
  ["inputs"],
  "every image shape within bounds, depths 1..16 and above, boundary samples, every truncation",
  "One sample file is decoded.",
  ["src/decoder/jpeg2000.rs", "src/decoder/jpeg2000/ext.rs", "src/decoder/simple.rs"],
  [("decode_jp2", "src/decoder/jpeg2000.rs"), ("value_for_discard_level", "src/decoder/jpeg2000/ext.rs")],
  ["grib::Grib2SubmessageDecoder::dispatch (template 5.40)"])

p("C16", "Grid indices are visited in the order the scanning mode prescribes",
  "For a grid of ni by nj points, the (i, j) sequence visits every pair exactly once, with i varying fastest when adjacent points are consecutive in i and j varying fastest otherwise, and with every second row (or column) reversed when the scanning mode says that rows alternate. Scanning modes with offset or reserved flags are rejected, and a declared number of points that differs from ni*nj is reported as an error, for indices and coordinates alike.",
  ["inputs", "configurations"],
  "all ni, nj up to a bound and all 256 scanning modes, for every supported grid template",
  "A 3 by 2 grid with 4 of the 256 scanning modes is tested.",
  ["src/grid.rs", "src/context.rs"],
  [("GridPointIndexIterator", "src/grid.rs"), ("num_points check", "src/context.rs: SubMessage::ij/latlons")],
  ["grib::SubMessage::ij", "grib::SubMessage::grid_shape", "grib::SubMessage::latlons"],
  [("increments, major_pos, minor_pos", "scan state", "src/grid.rs")])

p("C17", "Regular latitude/longitude grids get the right coordinates",
  "For a regular latitude/longitude grid, point (i, j) has latitude first + j*(last-first)/(nj-1) and longitude first + i*(last-first)/(ni-1) along the scanning direction, to microdegree-level single precision and modulo 360 degrees; grids crossing the 0/360 meridian in either direction are evenly spaced in the scanning direction, and rows or columns of a single point sit at the first point. (A row of several points whose first and last longitudes agree is ambiguous and left open.) The k-th coordinate belongs to the k-th grid index, and latitudes that contradict the scanning direction are rejected. Angles are taken in the unit that the definition gives: its basic angle divided by its subdivisions, or microdegrees where the basic angle is zero or missing.",
  ["inputs", "configurations"],
  "all combinations of shapes (1 included), all supported scanning modes, first/last corners from a lattice incl. signs, meridian crossings and poles",
  "Four large grids, first and last three points.",
  ["src/grid/latlon.rs", "src/grid/helpers.rs", "src/grid.rs"],
  [("evenly_spaced_longitudes", "src/grid/helpers.rs"), ("is_consistent_for_j", "src/grid/latlon.rs"), ("RegularGridIterator", "src/grid/helpers.rs")],
  ["grib::SubMessage::latlons", "grib::LatLonGridDefinition::latlons"])

p("C18", "Gaussian latitudes are the zeros of the Legendre polynomial, for every size",
  "For every number of latitudes n from 1 up to at least a few thousand, the computed Gaussian latitudes are exactly n values, strictly decreasing from north to south, symmetric about the equator, and each is a zero of the Legendre polynomial of degree n to double-precision accuracy. Regular Gaussian grids use them from north to south or reversed according to the scanning mode, with longitudes as on a regular grid; a grid that has some of the 2N parallels only has the latitudes of those, which its first and last points tell.",
  ["inputs"],
  "every n in 1..N, every index; and grid shapes times scanning modes",
  "n = 2, 5, 160 and 1536 only (in part).",
  ["src/grid/gaussian.rs", "src/utils.rs"],
  [("legendre_roots_iterator / find_root", "src/grid/gaussian.rs")],
  ["grib::utils::compute_gaussian_latitudes", "grib::SubMessage::latlons"])

p("C19", "Projected grids place every point on the projection plane correctly",
  "For Lambert conformal and polar stereographic grids, grid point (i, j) is the inverse projection of the first point's projected position displaced by i*Dx and j*Dy along the scanning directions, using the grid's own Earth radii, standard parallels, origin latitude, orientation longitude and projection centre. The first point maps back to its given latitude and longitude, and unsupported Earth shapes and scanning modes are errors. (Bipolar projections are left open.)",
  ["inputs", "configurations"],
  "a lattice of projection parameters (both hemispheres, secant and tangent cones), all supported scanning modes, small shapes, all earth shapes and centre flags",
  "One grid per projection with four points, and only when built with the optional feature.",
  ["src/grid/lambert.rs", "src/grid/polar_stereographic.rs", "src/grid/helpers.rs"],
  [("proj definition strings", "src/grid/lambert.rs, src/grid/polar_stereographic.rs"), ("latlons_from_projection_definition_and_first_point", "src/grid/helpers.rs")],
  ["grib::SubMessage::latlons", "grib::LambertGridDefinition::latlons", "grib::PolarStereographicGridDefinition::latlons"])

p("C20", "Earth radii follow the shape-of-the-Earth code and its scale factors",
  "The Earth radii reported for a grid are those of its shape code: the fixed values for the predefined shapes, and for producer-defined shapes the scaled value times 10 to the minus scale factor, in metres (kilometres converted where the code says so). Unknown shape codes yield no radii.",
  ["inputs"],
  "all 256 shape codes times scale factors and scaled values from boundary sets",
  "Five fixed shapes from sample files; producer-defined radii are never tested.",
  ["src/grid/earth.rs"],
  [("EarthShapeDefinition::radii", "src/grid/earth.rs")],
  ["grib::EarthShapeDefinition::radii"])

p("C21", "Product attributes are taken from the octets their template defines",
  "For every product definition template, the parameter category, parameter number, generating process, forecast time (unit and value) and both fixed surfaces are read from the octets which that template assigns to them, and are absent where the template does not define them, is not supported, or the section is too short to hold them. No other octet of the section influences an attribute.",
  ["inputs", "configurations"],
  "all 65536 template numbers and every payload length and octet position",
  "One template-0 payload is tested.",
  ["src/datatypes/sections.rs", "src/codetables/old.rs"],
  [("per-template index tables", "src/datatypes/sections.rs: ProdDefinition"), ("SUPPORTED_PROD_DEF_TEMPLATE_NUMBERS", "src/codetables/old.rs")],
  ["grib::ProdDefinition", "grib::SubMessage::prod_def"])

p("C22", "Message identification and parameters are read exactly",
  "Discipline, total length, centre, sub-centre, table versions, reference-time significance, reference time, production status and data type are those encoded in the message, and so are the numbers of points and template numbers of the grid and representation sections. The reference time is an error exactly when the encoded date or time does not exist, and a product's parameter combines the discipline of its message with the category and number of its own product section and compares equal to a named parameter code exactly when all three agree.",
  ["inputs"],
  "every calendar field value around every validity boundary, every octet position of Sections 0, 1, 3, 4, 5, all triples of discipline/category/number from boundary sets",
  "A few fields of sample files and three dates.",
  ["src/datatypes/sections.rs", "src/datatypes/product_attributes.rs", "src/codetables/external.rs", "src/context.rs"],
  [("Identification accessors", "src/datatypes/sections.rs"), ("create_date_time", "src/datatypes/sections.rs"), ("Parameter::as_u32", "src/datatypes/product_attributes.rs")],
  ["grib::Identification", "grib::Indicator", "grib::Parameter", "grib::SubMessage::parameter"])

p("C23", "Signed numbers, missing markers and units are interpreted as GRIB2 defines them",
  "Signed GRIB2 numbers are sign-and-magnitude (the top bit is the sign, so negative zero is zero) at every width used: fixed-surface scale factors and values, binary and decimal scale factors, coordinates and differencing descriptors. A surface value is scaled value times 10^-scale factor, or NaN with text \"Missing\" when all its bits are set, and forecast times are shown with the unit their unit code denotes (or its number when the code has none).",
  ["inputs"],
  "all 2^8 and 2^16 encodings, boundary sets of 2^24 and 2^32 encodings, all unit codes and surface types",
  "About a dozen encodings are tested.",
  ["src/helpers.rs", "src/datatypes/product_attributes.rs", "src/codetables/grib2.rs"],
  [("GribInt::as_grib_int", "src/helpers.rs"), ("FixedSurface", "src/datatypes/product_attributes.rs"), ("Table4_4", "src/codetables/grib2.rs")],
  ["grib::FixedSurface", "grib::ForecastTime", "grib::ProdDefinition"])

p("C24", "Code lookups return the published meaning of exactly that code",
  "Looking up a code in any supplied code table returns the description which the table's source file gives for that code, and for codes without an entry (unknown, beyond the table, or in an unsupported discipline or category) it says that the code is not implemented, or returns an empty description for a reserved gap; it never returns another code's or another table's description. Template names, submessage descriptions and parameter descriptions use the table of the right section, discipline and category.",
  ["inputs", "configurations"],
  "all tables times all disciplines, categories and codes 0..65535",
  "Two lookups are tested.",
  ["src/codetables/old.rs", "src/context.rs", "src/datatypes/product_attributes.rs", "build.rs"],
  [("ArrayLookup", "src/codetables/old.rs"), ("TemplateInfo::describe", "src/context.rs")],
  ["grib::codetables::*", "grib::TemplateInfo::describe", "grib::SubMessage::describe"])

p("C25", "A generated code table maps every code to its own row's description",
  "For every code table source, the generated array has, at index c, the description of the row whose code or code range contains c; indices before the last described code that are covered only by reserved, missing or local-use rows are empty strings, and nothing is generated after the last described code. Rows without a numeric code are ignored, and a table whose described rows leave codes uncovered, repeat them or go backwards yields an empty array, never an entry at the index of another code.",
  ["inputs"],
  "every sequence of table rows up to a length over an alphabet of single codes, ranges, gaps, overlaps, reserved and non-numeric rows and all reserved spellings",
  "Six small fixed tables are tested.",
  ["gen/src/lib.rs", "gen/src/cct_csv.rs", "gen/src/grib2_codeflag_csv.rs"],
  [("CodeTable::to_vec / export", "gen/src/lib.rs"), ("CodeRange", "gen/src/lib.rs")],
  ["grib_build::cct_csv::CodeDB", "grib_build::grib2_codeflag_csv::CodeDB", "grib_build::CodeRange"],
  [("count, empty_count", "next array index and pending empty entries", "gen/src/lib.rs: to_vec")])

p("C26", "Every source row lands in the one generated table it belongs to",
  "Loading code-table files puts each row, in file order, into the table named by the file's section and number and by the discipline and category of the row's subtitle, and into no other; different files and subtitles never mix or overwrite each other, files of other kinds are ignored, a file loaded again replaces its tables, and malformed files or subtitles are errors. The text generated for all tables is the concatenation, in ascending order, of each table's own text, declares each table exactly once under its own name, documented by its own title, and reproduces every description as a valid string literal.",
  ["inputs", "histories"],
  "every sequence of file loads and of row subtitles up to a length over small alphabets of file names, disciplines, categories and subtitle spellings",
  "Four fixed files are tested.",
  ["gen/src/grib2_codeflag_csv.rs", "gen/src/cct_csv.rs"],
  [("CodeDB::load / parse_file grouping", "gen/src/grib2_codeflag_csv.rs"), ("OptArg::from_str", "gen/src/grib2_codeflag_csv.rs")],
  ["grib_build::grib2_codeflag_csv::CodeDB", "grib_build::cct_csv::CodeDB", "grib_build::grib2_codeflag_csv::OptArg"],
  [("data", "tables by (section, number, category)", "gen/src/grib2_codeflag_csv.rs: CodeDB")])

p("C27", "The parameter-code macro maps every table row's code to its name",
  "For every parameter table accepted by the macro, converting discipline*65536 + category*256 + number of any row yields the variant named after that row's abbreviation, and converting any other number is an error. There is exactly one variant per distinct abbreviation (hyphens read as underscores), its discriminant is the code of the first row with that abbreviation, and the attributes and visibility written on the enum are preserved.",
  ["inputs"],
  "every table up to a number of rows over an alphabet of names and codes (repeated names, boundary octets, hyphens, leading digits), and every queried code from the rows' neighbourhoods",
  "One table of about ten rows is tested.",
  ["codegen/src/lib.rs", "codegen/src/param_codes.rs"],
  [("Wgrib2Table::enum_variants / remapper", "codegen/src/param_codes.rs"), ("Wgrib2TableEntry::id", "codegen/src/param_codes.rs")],
  ["#[grib_codegen::parameter_codes]"],
  [("remapper", "codes whose name already has a variant", "codegen/src/param_codes.rs")])

p("C28", "The parameter-code macro rejects bad input and documents every row",
  "The macro fails compilation with its own error when the table file is missing or any line of it is malformed (missing fields, non-numeric or out-of-range numbers, stray lines), when the enum is not empty, or when its argument is not a path string; it never silently drops or alters a row. Each generated variant's documentation lists exactly the rows merged into it, in table order, with their discipline, category, number, description, unit and abbreviation.",
  ["inputs"],
  "every single-field damage of every field of a table line, all argument and item shapes, and every table up to a number of rows for the documentation",
  "One missing file and one non-empty enum are tested; documentation is not.",
  ["codegen/src/lib.rs", "codegen/src/param_codes.rs"],
  [("Wgrib2TableEntry::from_str_impl", "codegen/src/param_codes.rs"), ("DocTableEntries", "codegen/src/param_codes.rs"), ("compile errors", "codegen/src/lib.rs")],
  ["#[grib_codegen::parameter_codes]"])

p("C29", "The command-line views show exactly what the file contains",
  "The list, inspect and info commands print one entry per submessage, section, template or message of the file, in file order, with the same indices, offsets, sizes, template numbers, descriptions, times, surfaces and point counts as the library reports; views selected by options show just those parts. They exit with status 0 on readable files (info only if the reference times exist), and with a non-zero status and a message on stderr, printing no view, on files that are missing, empty of GRIB2 data or malformed.",
  ["inputs", "configurations"],
  "every generated file of a family times every combination of view options",
  "The CLI tests compare output for a handful of sample files.",
  ["cli/src/commands/list.rs", "cli/src/commands/inspect.rs", "cli/src/commands/info.rs", "cli/src/cli.rs"],
  [("InspectView / ListView / InfoView", "cli/src/commands/*.rs")],
  ["gribber list|inspect|info: stdout, stderr, exit status"])

p("C30", "The decode command outputs exactly the library's values and coordinates",
  "For every submessage index N.M of a file, the decode command's flat binary outputs are exactly the decoded values as big- or little-endian 32-bit floats, one per grid point in order, and its text output has one line per grid point with the coordinates and value the library reports (NaN coordinates when the library does not support the grid). A malformed or absent index, an undecodable submessage or a damaged file gives a non-zero exit status with a message and no success.",
  ["inputs", "configurations"],
  "every submessage and output format of a family of files, and every index string up to a length over a small alphabet",
  "The CLI tests decode a few submessages of sample files.",
  ["cli/src/commands/decode.rs", "cli/src/cli.rs"],
  [("write_output", "cli/src/commands/decode.rs"), ("CliMessageIndex", "cli/src/cli.rs"), ("DecodeTextDisplay", "cli/src/commands/decode.rs")],
  ["gribber decode: stdout, output file, exit status"])

p("C31", "The commands never report success for an incomplete output",
  "If writing the output file fails at any byte, the decode command exits with a non-zero status and an error message; whenever it exits with status 0 the output file holds every value. An existing output file is replaced, never mixed with new data. Likewise every command that prints to the standard output (list, info, inspect, decode, completions) exits with a non-zero status if not all of its text could be written there, because a file is full, a device refuses or nobody reads the pipe.",
  ["fault_sequences", "inputs"],
  "every byte position at which the output file can stop accepting data, for outputs below, at and above the internal buffer size, and both byte orders; the same for the standard output of every view",
  "No test injects a write failure.",
  ["cli/src/commands/decode.rs", "cli/src/cli.rs"],
  [("display_in_pager", "cli/src/cli.rs"), ("write_output through BufWriter", "cli/src/commands/decode.rs")],
  ["gribber decode -b/-l: exit status and output file under a file-size limit", "gribber: exit status and standard output"])

p("C32", "Reading gives back all the memory and the reader it takes",
  "Whatever is done with a file - opening it, listing, describing, locating and decoding its submessages, completely, partly or not at all - and however it ends (results, a rejected or damaged file, an undecodable submessage, a failing reader), dropping everything obtained gives back all memory that was taken for it, in Rust or in the JPEG 2000 library, and drops the reader. While a file is open, repeating the same operations does not make the memory held for it grow.",
  ["inputs", "histories", "fault_sequences"],
  "every sequence of operations up to a length on files of every packing, every octet of the samples damaged, every prefix, every section length, a failure at every call of the reader, and code streams that fit or differ from their definition",
  "No test looks at what is held after use.",
  ["src/decoder/jpeg2000/ext.rs", "src/decoder/jpeg2000.rs", "src/context.rs", "src/reader.rs", "src/decoder.rs"],
  [("Drop for Stream / Codec / Image", "src/decoder/jpeg2000/ext.rs"), ("Grib2", "src/context.rs"), ("Grib2SubmessageDecoder", "src/decoder.rs")],
  ["grib::from_reader", "Grib2", "SubMessage", "Grib2SubmessageDecoder"],
  [("reader", "shared by the submessages of an open file", "src/context.rs: Grib2")])

p("C33", "What the library does not implement is an error, never something else",
  "A grid definition, data representation or product definition template that the library does not implement, a bitmap indicator other than 'here' or 'none' that it cannot resolve, and a list of numbers of points per row (quasi-regular grids) make the operations that depend on them fail or give nothing, and never come out as something else: no shape, index or coordinate of such a grid, no value of such a packing, no parameter of such a product. A message of another edition than 2 is an error. Everything that does not depend on them - the values on an unknown grid, the grid and coordinates of an unknown packing, the other submessages - is the same as without.",
  ["inputs"],
  "all 65,536 numbers of each of the three kinds of template on every kind of submessage, all 256 bitmap indicators with and without a bitmap before, lists of every element size, all editions, each alone and among others",
  "The tests decode supported files; hardly any number that is not supported is ever tried.",
  ["src/decoder.rs", "src/datatypes/sections.rs", "src/context.rs"],
  [("Grib2SubmessageDecoder::from / dispatch", "src/decoder.rs"), ("TryFrom<&GridDefinition> for GridDefinitionTemplateValues", "src/datatypes/sections.rs")],
  ["grib::SubMessage::{grid_shape, ij, latlons, parameter}", "grib::Grib2SubmessageDecoder"])

p("C34", "Grid definitions are read from the octets their template defines",
  "For every supported grid definition template, the definition given out is of that template's kind and short name, and each of its fields - numbers of points along both directions, first and last points, increments, number of parallels, latitudes and longitude of reference, standard parallels, projection centre, scanning mode, shape of the Earth with its scale factors and values - is the number in the octets which the template assigns to it, signed where it can be negative, angles in microdegrees. No other octet of the section has an influence on it or on the points' coordinates, and a section too short to hold it is an error. The properties of a scanning mode and of a projection centre are those of their bits.",
  ["inputs"],
  "every value of every octet of all four templates over several fillings, limits at every position, every section length, all octets of flags",
  "One definition per template is decoded from a sample file.",
  ["src/datatypes/sections.rs", "src/grid/latlon.rs", "src/grid/gaussian.rs", "src/grid/lambert.rs", "src/grid/polar_stereographic.rs", "src/grid/earth.rs", "src/grid.rs"],
  [("*GridDefinition::from_buf", "src/grid/*.rs"), ("TryFrom<&GridDefinition> for GridDefinitionTemplateValues", "src/datatypes/sections.rs")],
  ["grib::GridDefinitionTemplateValues", "grib::ScanningMode", "grib::ProjectionCentreFlag"])

p("C35", "All ways to the contents of a file agree with each other and with its octets",
  "Whatever way a file is opened in - from a slice, from any seekable reader, through an explicitly built GRIB2 reader - the same sections, submessages, templates, texts, grids and values or the same kind of error come out. The stream of sections and the stream of submessages give the sections and submessages of the opened file; iterators, counts, list of templates, accessors and descriptions of a submessage agree with the sections it is made of; and every section's number, size and held octets are those at its place in the file.",
  ["inputs"],
  "every sample, every cut, single changed octets over a value alphabet, and sections repeated, left out or exchanged, times six ways of opening, two streams and all accessors",
  "The tests open each file in one way and look at some of its parts.",
  ["src/context.rs", "src/reader.rs", "src/parser.rs", "src/datatypes/sections.rs"],
  [("from_reader, from_slice, Grib2::read, Grib2::read_with_seekable", "src/context.rs"), ("Grib2SectionStream", "src/reader.rs"), ("Grib2SubmessageStream", "src/parser.rs")],
  ["grib::from_slice", "grib::from_reader", "grib::Grib2", "grib::SubMessage", "grib::Grib2SectionStream", "grib::Grib2SubmessageStream"])

p("C36", "Things obtained from a file may be held together and used in any order",
  "Submessages, decoders, and iterators over submessages, values and coordinates that were obtained from one opened file or from several may exist at the same time in any number and may be used, left unfinished and dropped in any order: none makes another fail, panic, or give anything else than it gives when it is the only one. In particular the standard adaptors (collect, last, peekable, zip, max_by_key, ...) work on the iterator of submessages of a file of several submessages, and a submessage taken before another one can still be decoded after it.",
  ["histories", "schedules"],
  "every order of taking from two iterators, looking at, dropping, decoding, stepping and finishing up to a depth, on files with up to four submessages; 22 adaptors; backwards use",
  "The tests handle one submessage at a time.",
  ["src/context.rs", "src/decoder.rs"],
  [("SubmessageIterator, SubMessage", "src/context.rs"), ("Grib2SubmessageDecoder::from", "src/decoder.rs")],
  ["grib::Grib2::iter", "grib::SubMessage", "grib::Grib2SubmessageDecoder", "grib::GridPointIterator"])
p("C37", "Build profile and optional features do not change what is read",
  "A build with optimisation and without overflow checks and debug assertions, and a build without the optional projection feature, read every file as a checked build with all features does: the same sections, submessages, texts, indices, values and coordinates or the same kind of error. Only the coordinates of projected grids depend on the feature: without it they are reported as unsupported, never as other coordinates.",
  ["configurations", "inputs"],
  "every sample, cut, changed octet over a value alphabet, window of extremes, sequence of messages and field width, in both builds",
  "The tests run in one build.",
  ["src/grid.rs", "src/context.rs", "src/decoder.rs", "src/lib.rs"],
  [("GridDefinitionTemplateValues::latlons", "src/grid.rs"), ("conditional compilation", "src/lib.rs")],
  ["grib::Grib2", "grib::SubMessage::latlons", "cargo feature gridpoints-proj"])
p("C38", "32-bit platforms and browsers read the same as 64-bit ones",
  "Compiled for a platform whose addresses and sizes are of 32 bits (WebAssembly in a browser, as in the repository's demo), the library reads every file as it does on a 64-bit platform: the same sections, submessages, texts, indices, values and coordinates, or an error where there is an error on a 64-bit platform. Sizes, lengths and numbers of points that do not fit in 32 bits are errors there, never taken for smaller ones. JPEG 2000, which is not available in WebAssembly, is reported as unsupported there, as are projected coordinates.",
  ["configurations", "inputs"],
  "every sample, cut, changed octet over a value alphabet, window of extremes, sequence of messages, field width, grid size and message length, in both builds",
  "The tests run on a 64-bit platform.",
  ["src/reader.rs", "src/decoder.rs", "src/grid.rs", "src/context.rs"],
  [("Grib2ValueIterator", "src/decoder.rs"), ("whole_size/rest_size accounting", "src/reader.rs")],
  ["grib::from_slice", "grib::Grib2", "grib::Grib2SubmessageDecoder", "target wasm32-unknown-unknown"])
p("C39", "Threads reading at the same time do not disturb one another",
  "Any number of threads may read files at once: whatever the order in which they proceed, each sees the sections, texts, indices, coordinates, values and errors it would see alone. An opened file, its decoders and its streams of coordinates may be moved from thread to thread between any two operations, and decoders may be used by several threads at once, with the same results as in one thread.",
  ["schedules", "histories"],
  "every schedule of two threads with one preemption at any allocation or two at any reader call, item or operation, over pairs of files of every packing and grid; every assignment of the operations on two files to two threads; a decoder in two threads",
  "The tests read in one thread, and a race shows only in some schedules.",
  ["src/context.rs", "src/decoder.rs", "src/grid.rs", "src/reader.rs"],
  [("Grib2::iter, SubMessage", "src/context.rs"), ("Grib2SubmessageDecoder::dispatch", "src/decoder.rs"), ("GridDefinitionTemplateValues::latlons", "src/grid.rs")],
  ["grib::Grib2", "grib::Grib2SubmessageDecoder", "grib::GridPointIterator"])


os.makedirs("/verif", exist_ok=True)
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
