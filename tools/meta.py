"""The list of properties: the single source of properties.jsonl and MANIFEST.json."""
D = "docx-core/src/"
P = []


def at(f):
    return f if f.startswith("docx-") else D + f


def prop(id, title, statement, over, quantifier, why, files, mechanism, level_note, technique="model-based property testing"):
    P.append(
        dict(
            id=id,
            title=title,
            statement=" ".join(statement.split()),
            over=over,
            quantifier=" ".join(quantifier.split()),
            why=" ".join(why.split()),
            files=[at(f) for f in files],
            mechanism=[dict(name=n, where=at(w)) for n, w in mechanism],
            level_note=" ".join(level_note.split()),
            technique=technique,
        )
    )


prop(
    "C01",
    "Written paragraphs and runs say exactly what the builder calls asked for",
    """For every sequence of calls that builds paragraphs and runs (text, tabs, breaks, symbols, fields,
    bookmarks, content controls, and any order of formatting calls with later calls overriding earlier ones),
    the written main document contains exactly that content in that order with exactly that formatting and
    nothing else. Formatting switched off is written as off, formatting never asked for is not written.""",
    ["inputs", "histories"],
    """All histories of paragraph, run and inline-content calls, with repeated and conflicting settings, prepared
    property objects, and arbitrary text.""",
    """The tests fix one or two calls per setting and compare with a recorded string; interactions of settings,
    overriding order and unusual values are a product space of dozens of setters.""",
    ["documents/elements/run.rs", "documents/elements/run_property.rs", "documents/elements/paragraph.rs", "documents/elements/paragraph_property.rs", "xml_builder/elements.rs"],
    [("run property serialisation", "documents/elements/run_property.rs"), ("paragraph property serialisation", "documents/elements/paragraph_property.rs"), ("element names and attributes", "xml_builder/elements.rs")],
    """Random histories of all setters against an independent model of the markup; the output is compared as a
    parsed and normalised tree with a parser of our own.""",
)
prop(
    "C02",
    "Written tables keep every table, row and cell setting and their content",
    """For every sequence of calls that builds tables (nested tables, rows, cells, grid, widths, borders, margins,
    spans, merges, heights, positions, shading, in any order and with overriding calls), the written document
    contains exactly those tables with exactly those settings. Every cell holds its content in order and ends in a
    paragraph, as a cell must.""",
    ["inputs", "histories"],
    "All histories of table, row and cell calls up to three levels of nesting, with content of every kind in cells.",
    """Border and margin setters interact (a single side set after, before or instead of the whole, cleared sides,
    default borders), which example tests cover for a handful of orders only.""",
    ["documents/elements/table.rs", "documents/elements/table_property.rs", "documents/elements/table_row.rs", "documents/elements/table_cell.rs", "documents/elements/table_cell_property.rs", "documents/elements/table_borders.rs", "documents/elements/table_cell_borders.rs"],
    [("table properties", "documents/elements/table_property.rs"), ("cell borders", "documents/elements/table_cell_borders.rs"), ("row properties", "documents/elements/table_row_property.rs")],
    "Random nested tables against an independent model; comparison of normalised trees.",
)
prop(
    "C03",
    "Tracked changes are written with their kind, author, date and content",
    """For every document with tracked insertions, deletions, moves, paragraph-mark revisions, row revisions and
    formatting changes, nested and combined with hyperlinks, comments and tables, the written document marks exactly
    the given content as changed, with the given kind, author and date. Deleted text is written as deleted text,
    and content outside of a change stays unmarked.""",
    ["inputs", "histories"],
    "All placements of tracked changes in generated documents, nested in hyperlinks, cells and content controls.",
    """A tracked change changes how its whole subtree has to be written, so that every kind of content has to be
    combined with every kind of change; the tests have one example of each.""",
    ["documents/elements/insert.rs", "documents/elements/delete.rs", "documents/elements/move_from.rs", "documents/elements/move_to.rs", "documents/elements/paragraph_property_change.rs", "documents/elements/table_row_property.rs"],
    [("insertions", "documents/elements/insert.rs"), ("deletions", "documents/elements/delete.rs"), ("formatting changes", "documents/elements/paragraph_property_change.rs")],
    "Random documents biased to tracked changes against an independent model; comparison of normalised trees.",
)
prop(
    "C04",
    "Reading a written document gives back its content and formatting",
    """For every document the library can write and represent when reading, reading the written bytes yields the
    same body: the same blocks in the same order with the same text, formatting, tables, links, images, tracked
    changes and comments, each comment attached to its range with author, date, text and reply parent. The
    structural view of the read document shows no more and no less than was put in.""",
    ["inputs", "histories"],
    "All generated documents within what the reader represents.",
    """Writer and reader are tested separately on fixed strings, so a disagreement between them (a name, a unit, an
    off value, an order) is invisible unless the same value passes through both.""",
    ["reader/mod.rs", "reader/paragraph.rs", "reader/run.rs", "reader/run_property.rs", "reader/paragraph_property.rs", "reader/table.rs", "reader/table_cell.rs", "reader/comments.rs", "reader/hyperlink.rs"],
    [("paragraph reading", "reader/paragraph.rs"), ("run reading", "reader/run.rs"), ("table reading", "reader/table.rs"), ("comment attachment", "documents/mod.rs")],
    """Random documents, written, read and compared through the JSON view with a model computed from the calls, not
    from the written bytes.""",
)
prop(
    "C07",
    "Every written package is a consistent package",
    """For every document the library writes, every part is well-formed, has one name and the content type of its
    kind, every relationship has a unique id and leads to an existing part of the right kind, and every part that
    is in use can be reached from the package root. Every reference in the content, by relationship or by number,
    resolves to an existing target of the right kind.""",
    ["inputs", "histories", "configurations"],
    """All sequences of package-level calls: content, sections, headers, footers, comments, footnotes, images, links,
    numbering, styles, settings, properties, custom XML, web extensions.""",
    """Parts, content types and relationships are produced by separate code that has to agree for every
    combination of features; tests look at single parts.""",
    ["documents/mod.rs", "documents/content_types.rs", "documents/rels.rs", "documents/document_rels.rs", "documents/header_rels.rs", "documents/footer_rels.rs", "documents/xml_docx.rs", "zipper/mod.rs", "documents/image_collector.rs"],
    [("content types", "documents/content_types.rs"), ("document relationships", "documents/document_rels.rs"), ("archive", "zipper/mod.rs"), ("build", "documents/mod.rs")],
    "Random call sequences over the whole package API; an independent package validator decides.",
)
prop(
    "C08",
    "Each section carries its own page setup, headers and footers",
    """For every sequence of calls that adds sections, sets page size, margins, orientation, columns, grid, text
    direction and numbering, and sets default, first-page and even-page headers and footers for the document and for
    sections in any order, each section of the written document has exactly its own page setup. Following each
    header or footer reference leads to exactly the content given for that section and page kind, and the
    title-page and even-page switches are on exactly when needed.""",
    ["histories", "inputs"],
    "All orders of section, page setup, header and footer calls, with repeated calls replacing earlier ones.",
    """The reference goes through an id, a relationship and a part name, numbered by different code; only documents
    with several sections and several kinds in unusual orders show a mix-up.""",
    ["documents/mod.rs", "documents/document.rs", "documents/elements/section.rs", "documents/elements/section_property.rs", "documents/document_rels.rs", "documents/header.rs", "documents/footer.rs"],
    [("header and footer order", "documents/document.rs"), ("section properties", "documents/elements/section_property.rs"), ("relationships of headers", "documents/document_rels.rs")],
    "Random call histories; every reference is followed through the package and the content compared with a model.",
)
prop(
    "C09",
    "Comments keep their range, author, date, content and thread",
    """For every document with comments anywhere comments may start (paragraphs, cells, tracked changes, content
    controls, sections, body level), each comment is written once with its id, author, date and content, around
    exactly its range. Each reply is threaded under exactly its parent, identified the way word processors do it.""",
    ["inputs", "histories"],
    "All placements, contents and reply relations of comments in generated documents.",
    """Comments have to be found by traversing every kind of container; tests place them in plain paragraphs.""",
    ["documents/mod.rs", "documents/document_tree.rs", "documents/comments.rs", "documents/comments_extended.rs", "documents/elements/comment.rs", "documents/elements/comment_extended.rs", "documents/elements/comment_range_start.rs", "documents/elements/comment_range_end.rs"],
    [("traversal", "documents/document_tree.rs"), ("collection and threading", "documents/mod.rs"), ("threads part", "documents/comments_extended.rs")],
    "Random documents biased to comments; the comments and thread parts are compared with a model.",
)
prop(
    "C10",
    "Hyperlinks lead to the given targets wherever they stand",
    """For every document with hyperlinks in paragraphs, cells, content controls, tracked changes, sections, headers
    and footers, each link shows its given content and leads to exactly its given external address or bookmark.
    The written package registers exactly the addresses in use, each as external, in the part that contains the
    link.""",
    ["inputs", "histories"],
    "All placements of external and internal links with addresses containing markup characters, in generated documents.",
    """A link needs a relationship of the part it stands in; the traversal of containers and parts decides, and the
    address passes through escaping twice.""",
    ["documents/elements/hyperlink.rs", "documents/mod.rs", "documents/document_tree.rs", "documents/document_rels.rs", "documents/header_rels.rs", "documents/footer_rels.rs"],
    [("link relationships", "documents/mod.rs"), ("links of headers", "documents/header_rels.rs")],
    "Random documents biased to links; relationship ids are resolved before comparison with the model.",
)
prop(
    "C13",
    "Numbering definitions and their use are written as given",
    """For every set of numbering definitions (levels with start, format, text, alignment, indent, run formatting,
    suffix, restart, legal style, linked styles; instances with overridden levels and starts), the written package
    defines exactly these, plus the preset one unless it is redefined. Every numbered paragraph refers to exactly
    its instance and level, and the definitions are related to the document whenever anything refers to them.""",
    ["inputs", "histories"],
    "All generated numbering definitions, instances, overrides and numbered paragraphs in all containers.",
    "Level overrides, restarts and style links are optional and mostly untested in combination.",
    ["documents/numberings.rs", "documents/elements/abstract_numbering.rs", "documents/elements/numbering.rs", "documents/elements/level.rs", "documents/elements/level_override.rs", "documents/elements/numbering_property.rs", "documents/mod.rs"],
    [("levels", "documents/elements/level.rs"), ("overrides", "documents/elements/level_override.rs"), ("preset definition", "documents/numberings.rs")],
    "Random numbering definitions against an independent model; comparison of normalised trees.",
)
prop(
    "C14",
    "Footnotes are written once each with their content and reference",
    """For every document with footnotes in paragraphs, cells, content controls, tracked changes, links and sections,
    every footnote is written exactly once with its content, under an id of its own. Each reference in the text
    stands at its place and leads to exactly its footnote.""",
    ["inputs", "histories"],
    "All placements and contents of footnotes in generated documents.",
    "Footnotes have to be found by traversing every kind of container; tests place one in a plain paragraph.",
    ["documents/footnotes.rs", "documents/elements/footnote.rs", "documents/elements/footnote_reference.rs", "documents/document_tree.rs", "documents/image_collector.rs", "documents/mod.rs"],
    [("collection", "documents/image_collector.rs"), ("footnotes part", "documents/footnotes.rs")],
    "Random documents biased to footnotes; the footnotes part is compared with a model.",
)
prop(
    "C20",
    "Styles and document defaults are written as given",
    """For every set of style definitions (paragraph, character, table and numbering styles with names, base, next
    and linked styles, run, paragraph, table and cell formatting in any order, visibility and priority) and document
    defaults, the written style part defines exactly these, and the preset normal style unless it is redefined.""",
    ["inputs", "histories"],
    "All generated style definitions and defaults, with repeated and conflicting settings.",
    "A style delegates some forty settings to four property objects; tests check single settings.",
    ["documents/styles.rs", "documents/elements/style.rs", "documents/elements/style_ext.rs", "documents/elements/doc_defaults.rs"],
    [("style serialisation", "documents/elements/style.rs"), ("defaults", "documents/elements/doc_defaults.rs")],
    "Random style definitions against an independent model; comparison of normalised trees.",
)
prop(
    "C21",
    "Settings, document properties, custom XML and extensions are kept",
    """For every sequence of calls that sets document settings (id, tab stop, variables, compatibility), creation and
    modification dates, custom properties, custom XML items and web extensions, the written package holds exactly
    these values, the last one winning where a value is single. Each custom XML item is stored unchanged in meaning
    with its own identifier, whatever characters names and values contain.""",
    ["inputs", "histories"],
    "All sequences of setting, property, custom XML and extension calls with arbitrary text.",
    "These parts are small and written by hand-made code with escaping of its own; tests use plain ASCII values.",
    ["documents/settings.rs", "documents/doc_props/core.rs", "documents/doc_props/custom.rs", "documents/custom_item.rs", "documents/custom_item_property.rs", "documents/custom_item_rels.rs", "documents/webextension.rs", "documents/taskpanes.rs", "xml_json/mod.rs"],
    [("custom XML conversion", "xml_json/mod.rs"), ("settings part", "documents/settings.rs"), ("properties", "documents/doc_props/custom.rs")],
    "Random call histories; each part is parsed and its values compared with a model.",
)
prop(
    "C05",
    "Reading does not depend on how the same XML is spelled",
    """For every package whose parts are respelled without changing their meaning (attribute order and quotes, blanks
    inside tags, character references, character data sections, comments and processing instructions, empty-element
    form, other namespace prefixes and local declarations, equivalent on and off values, defaults left out or spelled, order of properties, unknown markup to be
    ignored, text split into pieces), reading gives the same document.""",
    ["inputs"],
    "All generated packages with any combination of the meaning-preserving respellings.",
    "Every reader walks raw events by hand; tests only read text as Word and the library spell it.",
    ["reader/document.rs", "reader/paragraph.rs", "reader/run.rs", "reader/run_property.rs", "reader/paragraph_property.rs", "reader/table.rs", "reader/table_cell.rs", "reader/attributes/bool_value.rs", "reader/xml_parser.rs", "reader/xml_element.rs", "reader/ignore.rs"],
    [("event stream", "reader/xml_parser.rs"), ("on/off values", "reader/attributes/bool_value.rs"), ("run reader", "reader/run.rs")],
    "Random packages are respelled; the JSON of both readings is compared (metamorphic).",
)
prop(
    "C06",
    "Documents made elsewhere are read as their markup says",
    """For every document in markup the reader supports (formatted runs, paragraphs, tables, lists, links, bookmarks,
    comments, tracked changes, content controls, drawings, text boxes, shapes, fields), made without this library, the document read has
    exactly the content, nesting, order and property values the markup states.""",
    ["inputs"],
    "All documents of a generator over the supported markup, serialised independently of the library.",
    "A mistake made alike by writer and reader is invisible in a round trip; tests read single elements.",
    ["reader/document.rs", "reader/paragraph.rs", "reader/run.rs", "reader/run_property.rs", "reader/paragraph_property.rs", "reader/table.rs", "reader/table_row.rs", "reader/table_cell.rs", "reader/table_property.rs", "reader/table_cell_property.rs", "reader/insert.rs", "reader/delete.rs", "reader/hyperlink.rs", "reader/comments.rs", "reader/structured_data_tag.rs"],
    [("paragraph reader", "reader/paragraph.rs"), ("table readers", "reader/table.rs"), ("run reader", "reader/run.rs")],
    "Random markup with an independent model of what it says; comparison with the JSON of the document read.",
)
prop(
    "C17",
    "Reading hostile input ends with a document or an error",
    """For every byte string, archive or flat package, including damaged archives, false sizes, missing, duplicated or
    mistyped parts, arbitrary markup nested up to a stated depth and arbitrary attribute values, reading returns a
    document or an error. It never panics, hangs or uses memory out of proportion to the input.""",
    ["inputs"],
    "All mutations of archives, parts, markup, attribute values and images, up to a nesting of sixty elements.",
    "Readers parse untrusted files; tests only read well-formed ones.",
    ["reader/mod.rs", "reader/read_zip.rs", "reader/read_xml.rs", "reader/xml_element.rs", "reader/xml_parser.rs", "reader/attributes/mod.rs", "documents/content_types.rs", "reader/rels.rs", "documents/mod.rs", "types/mod.rs"],
    [("package reader", "reader/mod.rs"), ("archive reader", "reader/read_zip.rs"), ("attribute values", "reader/attributes/mod.rs")],
    "Grammar-based and mutation fuzzing of bytes, archives, parts, markup and values; the oracle is termination without panic.",
)
prop(
    "C18",
    "A flat XML package reads as the same parts in an archive do",
    """For every document package, putting its parts into one flat XML file (binary parts as base64, parts in any
    order, names with or without leading slash, any layout) and reading that gives the same document as reading the
    archive: body, styles, numbering, comments, settings, properties, headers, footers, links and the images of the
    body.  Written again, both give the same parts, related alike.""",
    ["inputs"],
    "All generated packages in all layouts of the flat form; images of headers and footers are documented as unsupported.",
    "The flat reader resolves parts with code of its own; its tests only check that reading succeeds.",
    ["reader/read_xml.rs", "reader/mod.rs", "reader/rels.rs", "reader/document_rels.rs"],
    [("flat reader", "reader/read_xml.rs")],
    "Random packages read in both forms; the JSON of both readings, links and images are compared (differential).",
)
prop(
    "C25",
    "Reading a document and writing it again keeps it",
    """For every document, made by this library or elsewhere, reading it and writing what was read gives a consistent
    package that says the same: body with revisions, links and images, comments, sections, headers and footers, styles,
    numbering, settings and custom properties.  Content added with the library before writing comes out beside what was
    read, whatever relationship ids the document used.""",
    ["inputs"],
    "All generated documents of this library and packages made without it, with any relationship ids; excepted is what"
    " the reader does not represent (properties of content controls, visibility of styles, column distance, footnotes, unsupported drawings); text boxes and shapes are known findings.",
    "No test writes a document that was read; links, images and headers are matched by ids two modules choose apart.",
    ["documents/mod.rs", "documents/image_collector.rs", "documents/document_rels.rs", "reader/mod.rs"],
    [("relationships", "documents/image_collector.rs"), ("reader", "reader/mod.rs")],
    "Random documents are written, read and written again; every part of both packages is compared after normalisation.",
)
prop(
    "C15",
    "Tables of contents list the headings they are asked for",
    """For every document with tables of contents, given items appear with their level, text and page; an automatic table
    lists exactly the paragraphs of the body whose style is a heading or listed style of a wanted level, in order, each
    under its text and leading to a bookmark of its own around that paragraph.  Every field is complete, its instruction
    says the switches that were set, and content before and after the table and the styles of its entries are in place.""",
    ["inputs", "programs"],
    "All generated sequences of headings, tables of contents with any switches, surrounding content, bookmarks and styles.",
    "Tests cover one static and one automatic table; ids, keys and styles are generated at build time and can collide.",
    ["documents/mod.rs", "documents/elements/table_of_contents.rs", "documents/elements/table_of_contents_item.rs",
     "documents/elements/instr_toc.rs", "documents/toc_key.rs", "documents/bookmark_id.rs"],
    [("expansion", "documents/mod.rs"), ("writer", "documents/elements/table_of_contents.rs")],
    "Random documents; a model expands automatic tables and the written body and styles are compared with it.",
)
prop(
    "C26",
    "Field instructions are understood in every spelling",
    """For every instruction text of a table of contents or hyperlink field, parsing gives exactly the switches and
    arguments written in it, in whatever order, with any blanks, with arguments quoted or bare, of one word or several,
    and with switches that have no argument or are unknown.""",
    ["inputs"],
    "All generated sets of switches in all spellings.",
    "The parsers split at blanks; tests have one spelling each.",
    ["documents/elements/instr_toc.rs", "documents/elements/instr_hyperlink.rs"],
    [("parser", "documents/elements/instr_toc.rs"), ("parser", "documents/elements/instr_hyperlink.rs")],
    "Random switch sets are spelled at random and the parsed value is compared with one built by setters.",
)
prop(
    "C12",
    "Every paragraph written has an id of its own",
    """For every document, each paragraph of body, tables, headers, footers, comments and footnotes is written with a valid
    id that no other paragraph of the package has, including paragraphs made while writing; an id that was given and that
    no other paragraph shares is kept.  References by paragraph id (which comment answers which, whether it is done) lead
    to the paragraph that was meant.""",
    ["inputs", "programs"],
    "All generated documents with paragraphs that have no id, an id of their own, a shared or respelled id, and documents read before.",
    "Ids are chosen in three places; tests pin constant ids and never compare paragraphs of different parts.",
    ["documents/mod.rs", "documents/paragraph_id.rs", "documents/elements/paragraph.rs", "documents/comments_extended.rs",
     "documents/footnotes.rs", "documents/comments.rs"],
    [("duplicates", "documents/mod.rs"), ("generator", "documents/paragraph_id.rs")],
    "Random documents with random ids; ids of all paragraphs of all parts are collected from the written package.",
)
prop(
    "C16",
    "Both ways of writing a document give the same package",
    """For every document, writing it directly and rendering its parts in memory first and writing those give the same
    package: the same entries with the same content, up to generated ids.  The parts in memory are exactly the entries
    of the archive.""",
    ["inputs", "programs"],
    "All generated documents with every kind of content and part, and documents that were read.",
    "The two ways duplicate the list of parts and the order of steps; tests use one of them.",
    ["documents/mod.rs", "documents/xml_docx.rs", "zipper/mod.rs", "documents/image_collector.rs"],
    [("rendering and writing", "documents/mod.rs"), ("archive", "zipper/mod.rs")],
    "Random documents written both ways; packages are compared entry by entry (differential).",
    technique="differential property testing",
)
prop(
    "C19",
    "Writing or looking at a document changes nothing",
    """For every document, writing it, rendering it, getting its JSON or the JSON of its comments, in any order and any
    number of times, with other documents written in between, leaves it as it was: it is written the same and has the same
    JSON every time, up to generated ids.  The comments given alone are those in the JSON of the document, reading the
    same file twice gives the same document, and what is added after looking comes out as if nobody had looked.""",
    ["inputs", "histories"],
    "All generated documents and sequences of up to five operations, and documents that were read.",
    "Writing takes the document apart and generates ids from counters shared by all documents; no test writes twice.",
    ["documents/mod.rs", "documents/paragraph_id.rs", "documents/image_collector.rs", "documents/comments.rs"],
    [("building", "documents/mod.rs"), ("images and notes", "documents/image_collector.rs")],
    "Random documents and histories of operations; every result is compared with the first (metamorphic).",
    technique="metamorphic property testing",
)
prop(
    "C23",
    "Failures of the destination are reported, never swallowed",
    """For every document and every destination that runs full, refuses bytes, or fails to seek or flush at any point,
    writing ends without panic and reports success only if the destination never failed.  A destination that takes few
    bytes at a time receives the same package, and a failed attempt leaves the document and later writing unaffected.""",
    ["inputs", "fault_sequences"],
    "All generated documents with a failure at any byte, seek or flush, written directly or from rendered parts.",
    "Part writing buffers into the archive; no test has a destination that fails.",
    ["zipper/mod.rs", "documents/mod.rs", "documents/xml_docx.rs"],
    [("archive", "zipper/mod.rs"), ("part writing", "documents/mod.rs")],
    "Fault injection into the destination at random points; the result is compared with what the destination saw.",
    technique="fault injection with property testing",
)
prop(
    "C11",
    "Every picture shows its own image, stored once",
    """For every document with pictures in body, tables, headers and footers, inline or floating, each picture leads to an
    entry holding exactly its bytes, with the size, rotation and position given, and equal images are stored once while
    different ones never share an entry.  Pictures made from PNG, BMP, TIFF or GIF files show the same pixels at the same
    size; reading yields the bytes of each image, and a preview only if asked for.""",
    ["inputs", "programs"],
    "All generated documents with pictures of generated pixels and formats, equal and nearly equal images, in every place a picture can stand.",
    "Images are collected by walking the whole tree and told apart by a checksum; tests use one picture.",
    ["documents/elements/pic.rs", "documents/image_collector.rs", "documents/mod.rs", "reader/mod.rs", "reader/drawing.rs"],
    [("collection", "documents/image_collector.rs"), ("picture", "documents/elements/pic.rs")],
    "Random pictures in random places; relationship, entry and pixels are followed in the written package and after reading.",
)
prop(
    "C24",
    "Documents made by several threads are as correct as made alone",
    """However many threads build and write documents at the same time, each document written is as correct as one made
    alone: footnotes, links, images, bookmarks and headings lead to their own content and ids are not shared.  Parts made by
    different threads can be put together in one document.""",
    ["schedules", "inputs"],
    "All generated documents built and written in two to eight threads at once, and documents whose parts come from several threads.",
    "Ids come from counters shared by the whole process; no test uses threads.",
    ["documents/footnote_id.rs", "documents/pic_id.rs", "documents/bookmark_id.rs", "documents/history_id.rs",
     "documents/hyperlink_id.rs", "documents/toc_key.rs", "documents/paragraph_id.rs"],
    [("counters", "documents/footnote_id.rs"), ("counters", "documents/pic_id.rs")],
    "Random documents in random threads started together; each package is checked against its own reference model.",
)
prop(
    "C22",
    "No string given can break or change the markup",
    """For every document and all strings given to it (texts, names, authors, addresses, colors, fonts, field arguments, properties),
    whatever markup characters, quotes, comment or section ends or control characters they contain, the package has the
    same entries, elements and attributes as with harmless strings, and every part is well-formed.  Where XML can carry a
    string, it is the exact value of its text or attribute; characters XML does not allow are left out.""",
    ["inputs", "programs"],
    "All generated documents, each written with harmless strings and with the same strings surrounded by special ones.",
    "Strings are escaped in constructors, setters or the writer, differently for each kind; tests use plain text.",
    ["escape/mod.rs", "xml/writer.rs", "xml_builder/mod.rs", "documents/elements/instr_tc.rs", "documents/elements/instr_toc.rs",
     "documents/elements/hyperlink.rs", "documents/doc_props/custom.rs"],
    [("escaping", "escape/mod.rs"), ("writer", "xml/writer.rs")],
    "The same random document is built twice, with harmless and with special strings; the packages must differ in exactly the strings (metamorphic).",
    technique="metamorphic property testing",
)
prop(
    "C29",
    "The text of a paragraph is what remains after its changes",
    """For every document read, the text of each paragraph is the text of its runs, insertions and moved-in runs in order, with
    a tab for every tab and a line end for every break, and nothing deleted or moved away.  It does not depend on how the
    markup is spelled or who wrote it.""",
    ["inputs"],
    "All generated bodies with every kind of run and tracked change, written by the library or spelled at random.",
    "The three kinds of runs are walked by separate code; tests cover three short paragraphs.",
    ["documents/elements/paragraph.rs", "reader/paragraph.rs", "reader/run.rs", "reader/insert.rs"],
    [("text", "documents/elements/paragraph.rs"), ("reading of runs", "reader/run.rs")],
    "Random bodies; the text is computed from the markup independently.",
)
prop(
    "C27",
    "Definitions of documents made elsewhere are read as they say",
    """For every package made without this library, its styles and document defaults, numbering definitions with levels and
    overrides, settings, theme fonts, web divisions and custom properties are read with exactly the values the markup states.  What belongs to
    something else (conditional table formatting, fonts of shapes, unknown elements) does not leak into them.""",
    ["inputs"],
    "All generated style, numbering, settings, theme, web settings and custom property parts over the supported markup, in any spelling, with unsupported elements around; excepted are"
    " the style members the reader does not represent (next style, priority, visibility).",
    "Each part has a reader of its own that walks raw events and stops at the first end it knows; tests read one file each.",
    ["reader/style.rs", "reader/styles.rs", "reader/numberings.rs", "reader/level.rs", "reader/level_override.rs", "reader/doc_defaults.rs", "reader/font_scheme.rs", "reader/font_group.rs", "reader/custom_properties.rs", "reader/settings.rs", "reader/theme.rs", "reader/web_settings.rs", "reader/div.rs"],
    [("style reader", "reader/style.rs"), ("level reader", "reader/level.rs"), ("settings reader", "reader/settings.rs")],
    "Random definition parts with an independent model of what they say; comparison with the JSON of the document read.",
)
prop(
    "C28",
    "Unsupported markup does not disturb the content around it",
    """For every document in which markup the reader does not support stands among supported content (equations, embedded
    objects, charts and diagrams, shapes and groups with text, ruby text, range marks, imported chunks, earlier values of
    tracked formatting, unread properties, wrappers around runs, paragraphs, rows and cells), everything around it is read as
    if it were not there.  What a transparent wrapper contains is read as if it stood there alone.""",
    ["inputs"],
    "All generated documents of supported markup with any number of unsupported elements put into runs, paragraphs, cells, tables, comments, text boxes, property"
    " lists and the section; whether the text of an unsupported element itself is shown is left open.",
    "The readers stop at the first end tag of the name they wait for, so an element of the same name inside something unknown ends the wrong one; no test has both.",
    ["reader/document.rs", "reader/paragraph.rs", "reader/run.rs", "reader/run_property.rs", "reader/table.rs", "reader/table_property.rs", "reader/table_row.rs", "reader/table_cell_property.rs", "reader/section_property.rs", "reader/drawing.rs", "reader/mc_fallback.rs", "reader/ignore.rs", "reader/comments.rs"],
    [("run reader", "reader/run.rs"), ("skipped elements", "reader/ignore.rs"), ("drawing reader", "reader/drawing.rs")],
    "Unsupported markup is put at random places of random documents; the JSON read is compared with the model of the document without it.",
    technique="metamorphic property testing",
)
prop(
    "C30",
    "A document built in JavaScript is the one the same library calls build",
    """For every program that builds a document with the JavaScript classes, the package written and the JSON shown are the ones
    the library gives for the corresponding calls: every setting, content and reference given in JavaScript arrives, with its
    value, at its place and in its order.  What was not given is not set, values such as zero and false are not taken for
    missing ones, and an earlier value does not survive a later one.""",
    ["programs", "histories"],
    "All programs over the exported classes of the JavaScript package (document, paragraphs, runs, tables, links, lists, styles, comments,"
    " headers, images, contents, tracked changes), against the same calls made in Rust; excepted are empty strings and the sizes the classes document as unset when zero.",
    "Every setting passes a JavaScript class, a builder that copies it call by call, a binding and the library; tests compare snapshots of some fifty documents.",
    ["docx-wasm/js/index.ts", "docx-wasm/js/builder.ts", "docx-wasm/js/paragraph.ts", "docx-wasm/js/paragraph-property.ts", "docx-wasm/js/run.ts", "docx-wasm/js/table.ts",
     "docx-wasm/js/table-cell.ts", "docx-wasm/js/table-row.ts", "docx-wasm/js/style.ts", "docx-wasm/js/level.ts", "docx-wasm/js/comment.ts", "docx-wasm/js/table-of-contents.ts", "docx-wasm/src/doc.rs",
     "docx-wasm/src/paragraph.rs", "docx-wasm/src/run.rs", "docx-wasm/src/table.rs", "docx-wasm/src/table_cell.rs", "docx-wasm/src/style.rs", "docx-wasm/src/level.rs"],
    [("building", "docx-wasm/js/index.ts"), ("building of paragraphs", "docx-wasm/js/builder.ts"), ("bindings", "docx-wasm/src/doc.rs")],
    "Random JavaScript programs are run by node on the repository's sources; the calls of bindings they make are executed by the repository's binding sources and the package and JSON are compared with those of the"
    " same calls made directly (differential).",
    technique="differential property testing",
)
prop(
    "C31",
    "The JSON of a document has the type declared for it",
    """For every document read, whoever wrote it, every value in its JSON is of the type the JavaScript package declares for
    that place: members that must be there are there, values are among the declared ones, and every child is of a
    declared kind.""",
    ["inputs"],
    "All generated documents written by the library or made elsewhere, against the declared type of the whole JSON; members the type does not declare are allowed, and one left out counts as null.",
    "The types are written by hand and the values by Rust; the compiler sees only the types and tests compare only values.",
    ["docx-wasm/js/json/index.ts", "docx-wasm/js/json/document.ts", "docx-wasm/js/json/paragraph.ts", "docx-wasm/js/json/run.ts", "docx-wasm/js/json/table.ts", "docx-wasm/js/json/numbering.ts",
     "docx-wasm/js/json/styles.ts", "docx-wasm/js/json/drawing.ts", "docx-wasm/js/json/comment.ts", "docx-wasm/js/json/section-property.ts", "documents/mod.rs"],
    [("declared types", "docx-wasm/js/json/index.ts"), ("the JSON", "documents/mod.rs")],
    "The declared type is turned into a validator with the TypeScript compiler's own checker; the JSON of random documents is validated.",
)
