"""Per-property notes that tools/gen_design.py turns into the table of DESIGN.md.
Each entry: (oracle, what is left out and why)."""
NOTES = {
'C01': ("Values are built together with their spelling, so the expected value is known by construction; `refpdf.py` parses the same bytes independently.",
        "Numbers are compared by value. Malformed input is out of scope (no property says what a syntax error yields)."),
'C02': ("The strict parser of `refpdf.py` reads the serialised bytes (legal syntax, no run-together tokens, no exponents) and `parse_obj` reads them back.",
        "Strings are kept in the spelling the caller gave; the library represents them as their source bytes."),
'C03': ("Payload known by construction; strict reader on the written file.", "Only filters the library supports are decoded; others keep their bytes."),
'C04': ("Reference encoders/decoders written from ISO 32000 (zlib from the standard library), including all five PNG row types.",
        "Incomplete last predictor rows are included. TIFF predictor and LZW are unsupported filters: an error marker is expected."),
'C05': ("`refpdf.write` lays out a known history; the expected objects and trailer of each revision are known.",
        "A reference is looked up by number; files are well formed (damaged tables belong to C25)."),
'C06': ("The value of each object/page/trailer is fixed beforehand; the caller mutates each result it gets.", "—"),
'C07': ("Byte comparison with the original file, and each truncation is reloaded and compared with the model of that revision.",
        "Original files end with an end-of-file marker followed by at most white space."),
'C08': ("The document in memory (objects by number, catalog, pages, revisions) against the model and against the reloaded file.",
        "A reopened (rewound) revision in which only the trailer changed is not written again: there is no pending change."),
'C09': ("`refpdf.strict_read`: 20-byte entries, entry types, generations, free list of the newest section, /Size, /Prev chain, object streams, exact /Length.",
        "The free list is checked in the newest section that has one."),
'C10': ("A deep snapshot (objects, trailer, changes, revision count, written bytes) of the input and all its ancestors before and after each operation.",
        "The lookup cache may be filled: it is not observable (C06)."),
'C11': ("Stack of model revisions.", "See C08 for reopened revisions that only change the trailer."),
'C12': ("Set difference between the model of the open revision and the model of the previous one.", "The cross-reference stream object of the file itself is not reported as a change."),
'C13': ("Graph isomorphism (`graph.py`) from the trailer, before/after, following every reference.", "File structure objects (object and cross-reference streams, linearization dictionary) are not content."),
'C14': ("Graph comparison as C13, decoded stream contents, strict reader, version.", "—"),
'C15': ("Recursive reference listing on the generated tree (`trees.py`).", "Trees are acyclic and /Count is right."),
'C16': ("Reference listing, effective /Rotate by nearest definition.", "/Rotate values are integers (multiples of 90 for the file, any angle for the call)."),
'C17': ("Reference tree; graph of what each remaining page and the catalog reach.", "Indexes are in range; negative numbers only through `doc[...]`. A page appears once in the tree."),
'C18': ("Reference page lists of both sides, graph comparison per page, then further operations.", "—"),
'C19': ("Model of the annotation list; text decoded by the reference decoder.", "—"),
'C20': ("Decoder written from the tables of ISO 32000 (`strings.py`).", "An entry whose value is the empty string may read as the empty text or as nothing."),
'C21': ("Font built with its map: expected text and widths by construction; encodings from Python's `mac_roman`/`cp1252` tables corrected by the PDF annex.",
        "/Differences, StandardEncoding, undefined codes and codes absent from the ToUnicode map are excluded: the library documents no answer for them."),
'C22': ("Reference interpreter of the graphics/text operators.", "Legal sequences only (operators inside the object they belong to)."),
'C23': ("Each string placed at known coordinates; expected lines computed by the reference interpreter.", "Strings shown by the page's own content streams (form XObjects are not text of the page for this library). Overlapping strings excluded."),
'C24': ("Writer records the true position of each region.", "`xref ` followed by a space on its line and an indirect object that is only a reference are excluded."),
'C25': ("Faults are injected one by one, so the wrong entries and the lost objects are known.", "Object stream numbers are not reused across revisions."),
'C26': ("Python slices of the bytes; reference hex dump.", "—"),
'C27': ("`html.parser` builds the DOM; the text of each element must equal the text of the file; each internal href must name an id.", "`</html>` may be omitted. Links of superseded objects are compared by object number; links of the current objects, pages and 'used in' lists must lead to the definition in force."),
'C28': ("Facts known by construction.", "“Linearised” = the first object of the file is a linearization dictionary. Landscape pages need no paper name."),
'C29': ("Expected listing by construction.", "A direct font dictionary is not shared: one entry per page. The encoding of a font other than Type1 without /Encoding is not compared."),
'C30': ("Each operation sequence run alone in its own forked process gives the expected observation.", "—"),
'C31': ("The library functions called directly; checksum and directory listing of the inputs.", "Printed layout is parsed by field, not by column width."),
}
