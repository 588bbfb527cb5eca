#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to keep wording in step)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": ["pdfsyntax/" + f for f in files],
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "Any legal layout of a PDF object parses to the same value",
  "Parsing the bytes of a PDF object (booleans, integers, reals, names, literal and hexadecimal strings, arrays, dictionaries, indirect references with their generation, nested to any shape) yields the value those bytes denote, whatever legal white space, line endings and comments separate the tokens and wherever the object starts in the buffer. Delimiter characters inside strings and comments (brackets, angle brackets, balanced or escaped parentheses, escaped backslashes, percent signs) never end or open anything outside that string or comment. Strings and names keep their exact bytes, as they are written.",
  ["inputs"], "every sequence of tokens and separators up to the enumerated length, at every nesting context",
  "The unit tests parse about twenty fixed literals; lexical state bugs need particular neighbours (escaped backslash before a parenthesis, comment inside an array, delimiter inside a string inside a dictionary).",
  ["objects.py"], [("next_token", "objects.py"), ("parse_obj", "objects.py"), ("replace_ref", "objects.py")], ["parse_obj(bytes)", "get_object on a loaded file"])
p("C02", "Serialising then parsing an object gives the same object back",
  "For every PDF value (nested dictionaries and lists, names, numbers, booleans, strings, references with any generation, streams), the bytes produced by serialisation are legal PDF syntax and parse back to an equal value. Numbers are never written in a notation PDF does not have (exponents), and no two adjacent tokens run together.",
  ["inputs"], "every value tree up to the enumerated depth and width over a boundary-value leaf alphabet",
  "Two serialisation tests on two flat values.",
  ["objects.py"], [("serialize", "objects.py"), ("to_str", "objects.py"), ("parse_obj", "objects.py")], ["serialize(value)", "parse_obj(bytes)"])
p("C03", "Stream payloads survive parsing, writing and reloading byte for byte",
  "A stream's payload is exactly the bytes of its declared length (declared directly or through a reference), even when those bytes end in line-ending characters, are empty, or contain the words endstream or endobj. A stream built from content and written to a file is read back, by this library or any conforming reader, with the same dictionary and the same decoded content.",
  ["inputs"], "every payload over a framing-sensitive alphabet up to the enumerated length, times filter choices, times end-of-line conventions around the stream keywords, times direct and indirect lengths",
  "Tests cover one payload with two line-ending conventions; framing bugs depend on the last payload byte or on payload contents.",
  ["objects.py", "filestruct.py", "docstruct.py"], [("parse_obj STREAM branch", "objects.py"), ("serialize", "objects.py"), ("forge_stream / update_internal_stream_length", "objects.py")], ["get_object on a loaded file", "writefile bytes"])
p("C04", "Filter decoding and encoding are exact inverses and follow the PDF definitions",
  "For the supported filters (Flate, ASCIIHex, ASCII85) and any chain of them, decoding data encoded as the PDF specification prescribes returns the original bytes, and encoding content then decoding it returns the same content, whether the filter entry is a single name or an array, including when Flate parameters select no predictor or the PNG Up predictor. Encoded data that cannot be decoded, or a filter that is not supported, yields an explicit error marker and never wrong data or an exception.",
  ["inputs"], "every content over a small byte alphabet up to the enumerated length, times every filter chain up to length 3, times legal encodings (white space, case, end markers), times predictor widths",
  "No test touches filters, chains, predictors or error paths.",
  ["filters.py"], [("decode_stream", "filters.py"), ("encode_stream", "filters.py"), ("decode_predictor", "filters.py")], ["decode_stream", "encode_stream", "Stream.stream of a parsed object"])
p("C05", "Every object resolves to its newest definition in any file organisation",
  "After loading a file made of any number of revisions that add, replace, delete and re-create objects, each object number resolves to the definition in the newest revision that mentions it, deleted or never defined numbers resolve to nothing, and the trailer is the newest one. This holds for classic tables with any subsections, cross-reference streams with any field widths, object streams, hybrid files, linearised files, free-list entries, numbering gaps and non-zero generations, and for any mixture of them.",
  ["histories", "inputs"], "every revision history up to the enumerated depth over a three-object universe, in every mix of cross-reference encodings",
  "Tests load four sample files with at most two revisions and only classic tables; no test has a cross-reference stream, object stream, deletion, hybrid or linearised file.",
  ["filestruct.py", "docstruct.py", "api.py", "objects.py"], [("build_xref_sequence", "filestruct.py"), ("build_index_from_xref_sequence", "filestruct.py"), ("parse_xref_table / parse_xref_stream", "filestruct.py"), ("memoize_obj_in_cache", "docstruct.py")], ["loads/readfile then get_object, in_use, trailer"],
  [("Doc.index", "per-revision object locations", "docstruct.py")])
p("C06", "What a lookup returns never depends on earlier lookups",
  "Reading objects, pages or the trailer in any order, any number of times, always returns the same values, and values obtained from a document, or given to it earlier, can be modified freely by the caller without affecting later reads. A lookup never replaces a newer or caller-modified object by an older definition.",
  ["histories"], "every order of lookups, repeated lookups, caller mutations of results, and edits, up to the enumerated depth, on documents whose objects share containers across revisions",
  "Tests read each object at most once from a fresh document; cache faults need a specific order of reads across revisions.",
  ["docstruct.py"], [("memoize_obj_in_cache", "docstruct.py"), ("get_object", "docstruct.py")], ["get_object", "Doc.obj", "pages", "trailer"],
  [("Doc.cache", "memoised parsed objects", "docstruct.py")])
p("C07", "Saving only appends, and cutting the appended part restores the earlier file",
  "A file written after modifications starts with the exact bytes of the original file up to its final end-of-file line, whatever the modifications and however many revisions were appended. Truncating the written file at the end of any earlier revision gives a loadable file whose content is exactly that revision; writing an unmodified document reproduces the original bytes.",
  ["histories", "crash_points"], "every edit/commit/write sequence up to the enumerated depth over every file organisation, and every revision boundary of the result",
  "No test writes a file.",
  ["api.py", "docstruct.py", "filestruct.py"], [("writefile", "api.py"), ("commit", "docstruct.py"), ("eof_cut", "filestruct.py"), ("revision_index", "docstruct.py")], ["bytes produced by writefile"])
p("C08", "Reloading a written document gives back the document that was written",
  "After any sequence of edits (adding, replacing and deleting objects, rotating, annotating, removing or concatenating pages, committing, rewinding), writing the document and loading the result yields the same set of live objects with the same values, the same catalog, pages and number of revisions as the document in memory. Deleted objects stay deleted.",
  ["histories"], "every operation sequence up to the enumerated depth from every seed file organisation",
  "No test writes or reloads a file; two tests only inspect the index length after load.",
  ["api.py", "docstruct.py", "filestruct.py"], [("writefile", "api.py"), ("commit", "docstruct.py"), ("build_revision_byte_stream", "filestruct.py"), ("doc_constructor", "api.py")], ["readfile(writefile(doc)) compared with doc"])
p("C09", "Written files satisfy an independent strict PDF reader",
  "In every file the library writes, a strict reader that knows only the PDF specification finds: a start pointer leading to a cross-reference section with exact fixed-width entries or a well-formed cross-reference stream, every in-use entry pointing at the object with that number and generation, consistent object streams, a correct size and previous-section chain, exact stream lengths, and freed entries for deleted objects. That reader obtains the same live objects as the library.",
  ["histories"], "every operation sequence up to the enumerated depth from every seed file organisation, including new, squashed and compressed documents and offsets crossing field-width boundaries",
  "The test suite never produces a file, so nothing about its output format is checked.",
  ["filestruct.py", "docstruct.py", "objects.py"], [("format_xref_table", "filestruct.py"), ("format_xref_stream", "filestruct.py"), ("build_revision_byte_stream", "filestruct.py"), ("finalize_stream", "filestruct.py")], ["bytes produced by writefile"])
p("C10", "Operations never modify the document they are given",
  "Every operation on a document (rotate, add/replace/delete objects, annotate, remove or keep pages, slice, concatenate, commit, rewind, squash, compress, change filters, change version, force a cross-reference stream, write) leaves the input document observably unchanged: same objects, same trailer, same change list, same revision count, same bytes when written. This also holds for every document the inputs were themselves derived from.",
  ["histories"], "every sequence of operations up to the enumerated depth, observing every document alive after every step",
  "Tests never compare a document before and after an operation.",
  ["docstruct.py", "api.py", "filestruct.py"], [("copy_doc", "docstruct.py"), ("update_object / add_object", "docstruct.py"), ("deepcopy in get_object", "docstruct.py")], ["get_object, changes, trailer, repr, writefile of input documents"])
p("C11", "Commit closes a revision and rewind restores the previous one exactly",
  "Committing with pending changes increases the revision number by one, keeps every object value and leaves no pending change; committing without changes does nothing. Rewinding discards the open revision and reopens the previous one, with exactly the objects, values and trailer the document had in that revision, down to revision 0, and editing, committing and writing afterwards behaves as if the discarded revisions had never existed.",
  ["histories"], "every sequence of edit, commit, rewind and reload up to the enumerated depth, over every file organisation",
  "No test calls commit or rewind directly.",
  ["docstruct.py"], [("commit", "docstruct.py"), ("rewind", "docstruct.py"), ("merge_fdata", "docstruct.py"), ("revision_index", "docstruct.py")], ["updates, changes, get_object, writefile"])
p("C12", "The change list reports exactly the pending additions, updates and deletions",
  "At any moment the reported pending changes of a document are exactly the objects added, replaced or deleted since the current revision was opened, each once, with the right kind and reference; the list of objects in use is exactly the live ones; and the printed summary shows the right revision number and number of modified objects.",
  ["histories"], "every edit sequence up to the enumerated depth, on fresh, loaded, committed and rewound documents",
  "Tests only look at the length of the index.",
  ["docstruct.py"], [("changes", "docstruct.py"), ("in_use", "docstruct.py"), ("Doc.__repr__", "docstruct.py")], ["changes(doc)", "in_use(doc)", "repr(doc)"])
p("C13", "Squashing keeps the document and collapses its history",
  "Squashing a document with any history gives a single-revision document at revision 0 with no deleted objects and one object for each live object of the original (except those that only organise its file: object streams, cross-reference streams and the linearisation dictionary), whose content reached from the catalog and the document information (with every reference followed, including inside stream dictionaries) is the same as before up to renumbering. References to deleted or undefined objects never start pointing at a live object, and the squashed document can be written and reloaded.",
  ["histories"], "every document of the seed family (all organisations and histories) followed by every short edit sequence, compared as graphs",
  "No test calls squash.",
  ["docstruct.py", "objects.py"], [("squash", "docstruct.py"), ("defragment_map", "docstruct.py"), ("deep_ref_retarget", "objects.py")], ["squash(doc), writefile, reload"])
p("C14", "Compression is lossless",
  "Compressing a document keeps its pages, catalog, metadata and every reachable object's value and every stream's decoded content (streams under filters the library cannot decode keep their raw bytes and filter), for files of any organisation including already compressed ones. The result keeps no obsolete object, stores every object that is not a stream in object streams and every decodable stream under Flate, can be written, is read identically by this library and by a strict independent reader, and declares version 1.5 or later.",
  ["histories", "inputs"], "every document of the seed family, with every filter kind on its streams, followed by compression (and repeated compression), compared as graphs",
  "No test calls compress.",
  ["api.py", "docstruct.py", "filestruct.py"], [("compress", "api.py"), ("apply_filter", "api.py"), ("group_obj_into_stream", "docstruct.py"), ("append_to_stream_fragment / finalize_stream", "filestruct.py")], ["compress(doc), writefile, reload"])
p("C15", "Page listing gives document order and correct inherited attributes",
  "For every page tree, the page list contains each leaf page once in depth-first order with, for each inheritable attribute it does not define itself, the value of its nearest ancestor that defines it, and nothing else added. The number of pages and the length agree with it, asking for only the first pages returns a prefix of the full list, and the result never depends on other documents or earlier calls.",
  ["inputs", "histories"], "every tree shape up to the enumerated size with every placement of inheritable attributes, and every interleaving of listings of different documents",
  "One test lists the single page of one sample, with nothing inherited.",
  ["docstruct.py", "api.py"], [("flat_page_tree", "docstruct.py"), ("pages", "docstruct.py"), ("page_layouts", "api.py"), ("number_pages", "docstruct.py")], ["flat_page_tree, pages, page_layouts, number_pages, len"])
p("C16", "Rotation is relative, per page, and touches nothing else",
  "Rotating by an angle changes the effective orientation (own or inherited) of exactly the selected pages, or of all pages when none is selected, by that angle modulo 360, keeps it in the range 0 to 359, and changes no other page attribute and no other object. Successive rotations add up.",
  ["inputs", "histories"], "every combination of page-tree shape, existing own/inherited angle, page selection and angle, and every sequence of rotations up to the enumerated depth",
  "No test calls rotate.",
  ["api.py"], [("rotate", "api.py"), ("page_layouts", "api.py")], ["page_layouts, pages, changes after rotate"])
p("C17", "Removing, keeping and slicing pages selects exactly those pages, intact",
  "After removing or keeping a set of pages, or indexing, slicing or iterating over a document, the document's pages are exactly the selected ones in the original order, the page counts along the tree are right, and each remaining page has the same effective attributes and the same content reachable from it as before. Nothing still used by a remaining page, by the attributes it inherits or by the catalog is deleted, including when objects are shared or refer to each other cyclically.",
  ["inputs", "histories"], "every page subset, index and slice on every tree shape up to the enumerated size with every pattern of shared, inherited, stream-held and cyclic resources, and sequences of such operations",
  "No test removes pages; four tests list dependencies of one page.",
  ["docstruct.py"], [("remove_pages", "docstruct.py"), ("keep_pages", "docstruct.py"), ("dependencies", "docstruct.py"), ("Doc.__getitem__ / __iter__", "docstruct.py")], ["pages, number_pages, get_object closure"])
p("C18", "Concatenation appends the other document's pages unchanged",
  "Concatenating two documents gives a document whose page list is the left pages followed by the right pages, each with the same effective attributes and the same content reachable from it as in its own document, whichever of the two receives the update. The result supports all further operations (removing pages, rotating, concatenating again, squashing, writing and reloading) with correct page counts.",
  ["inputs", "histories"], "every ordered pair of seed documents (tree shapes, inherited attributes, organisations, deleted objects), both target sides, followed by every short sequence of page operations",
  "No test concatenates documents.",
  ["docstruct.py"], [("concat", "docstruct.py"), ("deep_ref_retarget", "objects.py")], ["pages and closures of concat(a, b)"])
p("C19", "Adding a text annotation adds exactly that annotation",
  "Adding a text annotation to a page appends one annotation with the given text (any characters), rectangle and open state to that page's annotations, keeping those already there in order, whether the page had none, a direct array or an indirect array. Every other page and object is unchanged, and the annotation reads back identically after writing and reloading.",
  ["inputs", "histories"], "every text over an escaping-sensitive alphabet up to the enumerated length, every existing-annotations form, every page, and sequences of annotations",
  "No test adds an annotation.",
  ["api.py"], [("add_text_annotation", "api.py")], ["page /Annots and annotation objects before and after reload"])
p("C20", "Text strings and document metadata decode to the right Unicode text",
  "Decoding a PDF text string (literal with any escapes, octal codes of one to three digits and line continuations; hexadecimal with any case, spacing and odd digit count; PDFDocEncoding or UTF-16BE with byte-order mark) yields the Unicode text the specification defines. Document metadata returns the decoded value of each present entry, direct or indirect, in the newest revision, and nothing for absent ones.",
  ["inputs"], "every string over the escape alphabet up to the enumerated length in both notations and encodings, every byte value, and every placement of metadata entries",
  "Eight tests decode eight fixed strings.",
  ["text.py", "api.py"], [("text_string", "text.py"), ("unescape_literal_string", "text.py"), ("decode_pdfdoc", "text.py"), ("metadata", "api.py")], ["text_string(bytes)", "metadata(doc)"])
p("C21", "Shown character codes map to the Unicode text and widths the font defines",
  "For a string shown with a font, each character code is translated to the Unicode text given by the font's ToUnicode map (single mappings, ranges with consecutive or listed targets, one- or two-byte codes) or otherwise by its named encoding, whether the string is literal or hexadecimal. Its advance width is the one the font's width table, CID width array or default width gives for that code.",
  ["inputs"], "every code sequence up to the enumerated length under every map built from the enumerated mapping entries, string notations, encodings and width-array forms",
  "No test covers ToUnicode, encodings or widths.",
  ["text.py", "docstruct.py"], [("apply_tounicode", "text.py"), ("apply_encoding", "text.py"), ("prepare_w / prepare_widths / prepare_font", "docstruct.py")], ["font decoding and width functions of get_page_fonts"])
p("C22", "Content streams follow the graphics and text state machine",
  "A content stream is split into its commands with their operands in order, and applying the graphics-state, transformation and text-positioning operators in any sequence gives the transformation and text matrices, font, size and spacing the PDF specification defines, with saved states restored exactly. Applying an operator never alters a saved state or any other page's state.",
  ["histories", "inputs"], "every operator sequence up to the enumerated depth over a small operand alphabet, compared with a reference interpreter after every operator",
  "One test splits one three-operator stream; no operator is ever executed.",
  ["graphics.py", "objects.py"], [("parse_stream_content", "graphics.py"), ("apply_command", "graphics.py"), ("multiply_matrices", "graphics.py"), ("trm", "graphics.py")], ["parse_stream_content", "apply_command + trm"])
p("C23", "Page text extraction returns every shown string at its place",
  "Extracting a page's text returns every non-blank string shown on the page exactly once, with strings on one line ordered left to right and lines ordered top to bottom, whatever the split of the content into streams, the way fonts and resources are attached (own, inherited, direct or indirect) and the positioning operators used. Pages with no content, no font or only single characters give their (possibly empty) text, never an error.",
  ["inputs", "histories"], "every arrangement of up to the enumerated number of shown strings on a coordinate grid, times the ways of attaching content and fonts",
  "No test extracts text.",
  ["api.py", "layout.py", "docstruct.py"], [("extract_page_text / build_text_fragments / get_page_contents", "api.py"), ("basic_spatial_layout", "layout.py"), ("get_page_fonts", "docstruct.py")], ["extract_page_text(doc, n)"])
p("C24", "The sequential file map covers the whole file and finds every object",
  "Scanning a well-formed file in sequence yields regions that are contiguous and non-overlapping from the first byte to the last, and lists every indirect object, every object held in object streams, every cross-reference entry, every start pointer and comment, each with its true position, number, generation, value and type.",
  ["inputs", "histories"], "every file organisation, revision history and separator layout up to the enumerated bounds",
  "No test scans a file.",
  ["filestruct.py", "objects.py", "cli.py"], [("file_object_map", "filestruct.py"), ("parse_region / parse_indirect_obj / parse_object_stream / parse_xref_table_raw", "objects.py"), ("dump_disasm", "cli.py")], ["file_object_map(provider)", "disasm output"])
p("C25", "Index diagnostics flag exactly the wrong entries and the unindexed objects",
  "For a file whose cross-reference entries may be wrong, the index check reports exactly the entries that do not lead to the start of the object with that number and generation (or to that slot of that object stream), and the objects that no entry leads to are reported exactly. The disassembly marks exactly those lines as not OK.",
  ["inputs", "fault_sequences"], "every corruption (shifted offset, wrong number, wrong generation, missing entry, swapped entries) of up to two entries in every file organisation",
  "The one sample with a wrong index is not used by any test.",
  ["filestruct.py", "cli.py"], [("check_index_targets", "filestruct.py"), ("check_not_indexed_objects", "filestruct.py"), ("dump_disasm", "cli.py")], ["check_index_targets, check_not_indexed_objects, disasm output"])
p("C26", "Byte access is the same however the file is provided, and hex dumps are exact",
  "Loading from bytes, from an opened file in one read or from a file read on demand gives the same document, and any read request (position counted from the start or the end, any length) designates the same bytes of the file in every mode. The hex dump shows every byte of the requested range once, at its right offset, with the matching printable column.",
  ["inputs", "configurations"], "every (position, length) request on files up to the enumerated size, every access mode, every dump range, and every seed document in every mode",
  "Seven tests read a few ranges; none loads a document in on-demand mode.",
  ["filestruct.py", "api.py"], [("bdata_provider", "filestruct.py"), ("hexdump", "filestruct.py"), ("load / loads / readfile", "api.py")], ["provider(start, length)", "load in each mode", "hexdump"])
p("C27", "The browsable view never lets file content become markup, and its links resolve",
  "For every well-formed file the HTML view is produced, contains one entry per object, and every internal link leads to an element present in the page. Nothing taken from the file or its name (names, strings, comments, numbers, stream content, dictionary keys, version, page count) is ever interpreted as HTML markup or as an attribute.",
  ["inputs"], "every injection position in the file times every markup-significant payload, and every file organisation and history of the seed family",
  "No test renders a page.",
  ["display.py", "cli.py", "api.py", "graphics.py"], [("build_html / follow_obj / add_comment / build_header / build_nav_*", "display.py"), ("cross_map_index", "api.py"), ("printable_stream_content", "graphics.py")], ["browse output"])
p("C28", "Structure facts reported for a file are true",
  "The reported version is the newer of the header's and the catalog's, and upgrading the version never lowers it; the page count, number of revisions, paper size of the first page, and the encrypted, hybrid and linearised flags are those of the file, for every organisation and history.",
  ["inputs", "histories"], "every combination of header and catalog versions, every file organisation and history, every paper size",
  "No test calls the structure or version functions.",
  ["docstruct.py", "api.py", "filestruct.py"], [("version / update_version / updates / encrypted / hybrid", "docstruct.py"), ("structure / paper", "api.py"), ("linearized", "filestruct.py")], ["structure(doc)", "version(doc)"])
p("C29", "Font listing reports each font once with the right attributes and pages",
  "The font listing contains each font used through a page's resources (own or inherited, direct or indirect) exactly once per font object, with its name, type, encoding and exactly the pages whose resources name it.",
  ["inputs"], "every assignment of up to three fonts to up to three pages through every way of attaching resources",
  "No test lists fonts.",
  ["api.py", "docstruct.py"], [("fonts", "api.py"), ("get_page_fonts / prepare_font", "docstruct.py")], ["fonts(doc)"])
p("C30", "Work on one document never affects another",
  "For any interleaving of operations on two documents, each document ends up exactly as if its operations had been run alone, in any order relative to the other, including listings, rotations, text extraction, squashing and writing.",
  ["schedules", "histories"], "every interleaving of two operation sequences up to the enumerated length on two documents",
  "Every test class uses a single document.",
  ["docstruct.py", "api.py", "graphics.py"], [("module-level and default-argument state", "docstruct.py"), ("flat_page_tree default argument", "docstruct.py")], ["observations of both documents"])
p("C31", "Commands report what the library computes and leave their input alone",
  "For every well-formed file, each command (overview, disasm, text, fonts, browse, hexdump, compress) succeeds, prints what the corresponding library functions return for that file, never modifies the input file, and compress writes its result only to the requested output.",
  ["inputs", "configurations"], "every command on every seed document, with and without an output file",
  "No test runs the command line.",
  ["cli.py", "__main__.py"], [("main and one function per command", "cli.py")], ["standard output, output file, input file after each command"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
