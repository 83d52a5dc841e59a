#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))

p("C01", "Documents built with the API survive saving and re-opening",
  "For every sequence of building calls (paragraphs, text, tabs, page breaks, links, pictures, shapes, tables, page sizes, run and paragraph formatting), the saved package, read by any XML/zip reader, contains exactly the requested content, formatting, link targets and picture bytes in call order. Parsing that package back and saving it again yields the same content, relationships and media, and the re-opened document can be edited further with the same guarantee.",
  ["histories", "inputs"], "every sequence of building calls on a new or re-opened document, up to the explored depth, with every argument of the stated small domains",
  "The tests compare marshal/unmarshal CRCs of four hand-made documents and never write or parse a package; a field dropped or swapped consistently on both sides, or dependent on the order of calls, goes unseen.",
  ["docx.go", "empty.go", "apipara.go", "apitext.go", "apilink.go", "apidrawing.go", "apishape.go", "apitable.go", "apirun.go", "theme.go", "pack.go", "unpack.go"],
  [("document body appended in call order", "apipara.go AddParagraph, apitable.go AddTable, theme.go WithA4Page"), ("marshalling by struct tags", "pack.go marshaller"), ("per-element unmarshallers", "structdoc.go, structpara.go, structrun.go")],
  [("Body.Items", "ordered body content", "structdoc.go"), ("docRelation", "relationships of the main part", "docx.go")],
  ["bytes written by WriteTo", "public fields after Parse"])

p("C02", "Re-saving a parsed document keeps all supported markup",
  "For every document made of the elements and attributes the library models, parsing and saving keeps each of those elements, in the same order among body items, rows, cells, paragraphs, links, runs and run contents, with every attribute value and text unchanged and attached to the same element. Properties absent from the input stay absent (apart from numeric and structural defaults the model always writes, which are zero or empty), no empty-valued attribute is invented, and on/off formatting keeps its meaning (an explicit off is not turned on).",
  ["inputs"], "every document over the supported vocabulary: each element in each context where it is modelled, each subset of its attributes, each small combination of its children, and each value class",
  "The tests round-trip documents produced by the library itself, so anything the library never writes, and any combination of attributes beyond the four samples, is never exercised; Parse is not called by any test.",
  ["structdoc.go", "structpara.go", "structrun.go", "structtext.go", "structlink.go", "structnum.go", "structsect.go", "structtable.go", "structdrawing.go", "structshape.go", "structcanvas.go", "structgroup.go", "structeffects.go"],
  [("hand-written UnmarshalXML per element", "struct*.go"), ("struct tags used on output", "struct*.go")],
  [], ["word/document.xml of the re-saved package"])

p("C03", "Unsupported markup never disturbs supported content",
  "Inserting markup the library does not model (foreign elements with arbitrary content, unknown attributes, comments, processing instructions, insignificant white space) at any position of a document changes neither whether it parses nor any supported content that is re-saved or read from it. The choice branch of compatibility markup that holds a supported drawing is read the same way wherever such extra markup stands.",
  ["inputs"], "every insertion position (every gap between children, inside every leaf, every element's attribute list) x every kind of insert, in documents covering the whole supported vocabulary",
  "Tests use a few fixed inputs; there are hundreds of insertion positions, each handled by different hand-written token-consuming code.",
  ["structdoc.go", "structpara.go", "structrun.go", "structtext.go", "structtable.go", "structdrawing.go", "structshape.go", "structeffects.go", "structsect.go"],
  [("skip of unknown start elements", "default branches calling Decoder.Skip"), ("leaf unmarshallers that consume their end tag", "struct*.go"), ("compatibility choice parsing", "structrun.go Run.parse")],
  [], ["word/document.xml of the re-saved package", "Parse error"])

p("C04", "Saved packages are self-consistent",
  "Every package saved successfully with a complete template is a valid zip with unique part names, in which every XML part the library writes is well-formed with every namespace prefix bound, every relationship id is unique, every reference from the document to a relationship resolves to one of the right kind, every internal relationship target is a part of the package, and every part has a content type. This holds after any history of building, parsing, appending, splitting and loading.",
  ["histories", "inputs"], "every history of building, saving, re-opening, appending and splitting operations over up to three documents, up to the explored depth",
  "No test writes a package at all, and reference closure depends on the whole history of operations, not on a single call.",
  ["pack.go", "link.go", "image.go", "media.go", "structdoc.go", "unpack.go", "empty.go", "fs.go", "xml/default/[Content_Types].xml", "structlink.go", "structdrawing.go"],
  [("relationship allocation", "link.go addLinkRelation, addImageRelation"), ("one map entry per part name", "pack.go pack"), ("media copy on append/split", "structdoc.go copymedia")],
  [("rID", "last relationship id", "docx.go"), ("docRelation", "relationships", "docx.go"), ("media", "media parts", "docx.go")],
  ["bytes written by WriteTo"])

p("C05", "New identifiers never collide with identifiers in use",
  "Whatever the history of a document (built, parsed with any existing ids and media names, loaded from items and media, appended to, split off, saved and re-opened), each newly added link or picture gets a relationship id and each picture a media part name not already used in that document. Each drawing added by the API or copied by append or split gets a drawing id not already used in the document, and the per-name counter never returns the same number twice.",
  ["histories", "inputs"], "every history of id-allocating operations from every initial document whose existing relationship ids, media names and drawing ids come from the stated collision-prone domain",
  "The tests never allocate ids in a parsed document; collisions need a particular pre-existing id or a save/re-open between allocations.",
  ["id.go", "image.go", "link.go", "media.go", "unpack.go", "docx.go", "apidrawing.go", "apishape.go", "structdrawing.go"],
  [("highest existing rId found while parsing", "unpack.go parseDocRelation"), ("atomic counters", "link.go, image.go, apidrawing.go"), ("per-name counters", "id.go IncreaseID")],
  [("rID, imageID, docID, slowIDs", "allocation counters", "docx.go")],
  ["relationships part, media part names and docPr ids of the saved package", "IncreaseID results"])

p("C06", "A picture always denotes the bytes it was made from",
  "Every picture added from bytes (or a file) refers, in the document it is in and in every document it is later re-opened from, appended into or split into, to a media part with exactly those bytes, under a name with the detected image format as extension. No later operation replaces, drops or alters the media of an existing picture, and input that is not a recognised image is refused without changing the document.",
  ["histories", "inputs"], "every history of picture additions, appends, splits, loads, saves and re-opens over several distinct images and pre-existing media, up to the explored depth",
  "Tests add pictures but never look at the media; loss needs two pictures and a particular history.",
  ["apidrawing.go", "image.go", "media.go", "pack.go", "unpack.go", "structdrawing.go", "structdoc.go", "docx.go"],
  [("media list and name index", "media.go"), ("copy of media on append/split", "structdrawing.go copymedia"), ("media written as parts", "pack.go")],
  [("media, mediaNameIdx", "media and index by name", "docx.go")],
  ["media part reached from each blip through the relationships part", "Media(name)"])

p("C07", "Appending a document adds exactly its content",
  "After appending document B to document A, A contains its previous body items followed by B's body items in order, with the same text, formatting, tables, shapes, groups, canvases, link targets and picture bytes, all resolvable inside A; a reference that resolves to nothing in B resolves to nothing in A. B, its relationships and its media are unchanged, A's existing relationships and media keep their meaning, and a document may be appended to itself or several times.",
  ["histories", "inputs"], "every pair of documents over the item alphabet (built or parsed) and every short sequence of appends among up to three documents including self-append",
  "No test calls the append operation.",
  ["structdoc.go", "structdrawing.go", "link.go", "image.go"],
  [("AppendFile and copymedia", "structdoc.go, structdrawing.go")],
  [], ["saved packages of both documents before and after"])

p("C08", "Splitting partitions the document",
  "Splitting by a paragraph rule yields non-empty documents whose bodies, concatenated, are the original body in order, where a new document starts exactly at each matching top-level paragraph that is not the first item. Each resulting document is a complete document of its own: it keeps the template parts, and its links and pictures resolve inside it to the original targets and bytes; the original document is unchanged.",
  ["inputs", "histories"], "every body up to the explored length over {matching and non-matching paragraphs, tables, section properties, paragraphs with links, pictures or shapes}, from built and parsed documents, and every rule over them",
  "No test splits a document; partition errors occur at particular positions of separators.",
  ["structdoc.go", "structdrawing.go"],
  [("SplitByParagraph", "structdoc.go"), ("copymedia", "structdoc.go, structdrawing.go")],
  [], ["bodies and saved packages of the resulting documents"])

p("C09", "Plain text is preserved end to end",
  "Text added to a paragraph reads back exactly, from the paragraph's string form, from the saved document under WordprocessingML white-space rules, and after re-opening, with tabs and line breaks represented as tab and break elements. The string form of a paragraph renders every text, tab, break, link (as [text](target)) and picture of its runs and links in document order; that of a table (whose first row has cells) renders, under a header line with one column per cell of the first row and one line per row, the first paragraph of every cell.",
  ["inputs"], "every string over the stated alphabet of special characters up to the explored length, every small sequence of paragraph content items, and every small table",
  "Tests check one fixed merged string; the string forms are never called by a test.",
  ["apitext.go", "apilink.go", "structpara.go", "structtable.go", "structtext.go", "structdrawing.go"],
  [("AddText splitting at newline and tab", "apitext.go"), ("String methods", "structpara.go, structtable.go, structdrawing.go")],
  [], ["String()", "w:t/w:tab/w:br of the saved document"])

p("C10", "Merging runs keeps text, order and formatting",
  "Merging the runs of a paragraph keeps the paragraph's text and every other piece of content, in order, merges only neighbouring runs the rule accepts (the same-properties rules accept exactly runs whose compared properties are equal), leaves no two neighbouring runs or texts that should have been merged, and never changes the paragraph it was called on, neither by itself nor when the result is edited afterwards (links and drawings are handed over as they are).",
  ["inputs"], "every paragraph up to the explored size over {runs with every small content sequence and property class, links, run-property children} and every merge rule",
  "The only test merges runs with one text child each; content kinds other than a single text per run are not exercised.",
  ["structtext.go"],
  [("MergeText", "structtext.go"), ("MergeAllRuns, MergeSamePropRuns, MergeSamePropRunsOf", "structtext.go")],
  [], ["returned paragraph", "receiver before and after", "saved document"])

p("C11", "Keep and drop filters remove exactly what they name",
  "Keeping named element kinds in a body, paragraph or run leaves exactly the elements of those kinds, in order and unchanged; dropping a kind of drawing (canvas, shape, group, combinations, or drawings without picture) removes exactly the drawings of that kind from the runs of a paragraph, and for a body from all its paragraphs and table cells, and nothing else. Names that denote no kind remove everything (keep) or nothing (drop).",
  ["inputs"], "every body/paragraph/run over all element kinds (and every drawing shape: inline/anchored x every graphic content, including missing parts) up to the explored size, and every subset of names",
  "No test calls any filter.",
  ["structdoc.go", "structpara.go", "structrun.go"],
  [("KeepElements", "structdoc.go, structpara.go, structrun.go"), ("Drop*", "structpara.go"), ("DropDrawingOf", "structdoc.go")],
  [], ["public fields after the call"])

p("C12", "A failed save is always reported, a reported success is complete",
  "If any write to the destination fails or is short, or any template part cannot be opened or read, saving returns an error; if saving returns no error, the bytes accepted by the destination form the complete package. Saving releases every template part it opened, whether it succeeds or fails, and a failed save leaves the document usable: saving again to a good destination gives the complete package.",
  ["fault_sequences", "inputs"], "every fault point of a save: each write call and each byte count at which the destination starts failing (fail once or fail forever), and each open/read/short-read of each template part, for documents of several sizes",
  "Tests never save; faults must be injected at every point, in particular in the final flush.",
  ["docx.go", "pack.go"],
  [("WriteTo / pack error propagation", "docx.go, pack.go")],
  [], ["error returned by WriteTo", "bytes accepted by the writer", "open/close counts of the template file system"])

p("C13", "Damaged or truncated input is refused, never half-read",
  "Parsing a truncated package, a package in which any read fails, or a package whose main document, relationships or media part is truncated or damaged returns an error; it never returns success with part of the content missing, never panics and never fails to terminate. A number that cannot be read is refused like any other damage. A relationships part with an id that does not have the supported form is refused.",
  ["fault_sequences", "inputs"], "every truncation length of a package, every failing or short read, every single corrupted byte position (each of several bit patterns), every truncation length of each XML part, and every numeric value replaced by texts that are no number",
  "Tests never parse a package; each truncation point is handled by a different unmarshaller that treats end-of-input as end-of-element.",
  ["unpack.go", "docx.go", "structdoc.go", "structpara.go", "structrun.go", "structtable.go", "structdrawing.go"],
  [("error propagation from every unmarshaller", "struct*.go"), ("unpack", "unpack.go")],
  [], ["error from Parse", "content after Parse"])

p("C14", "No document structure makes the library crash or hang",
  "For every XML document the parser is given, however sparse, repeated, misplaced or oddly valued its elements and attributes are, parsing terminates with a document or an error, and on a parsed document (or a paragraph, table or drawing assembled from its public parts) the string forms, lookups, formatting, appending, splitting, merging, filtering and saving all complete without panicking.",
  ["inputs"], "every placement of every vocabulary element in every context with every hostile attribute value class, every omission of one or two parts of a full drawing, and every relationship target class, followed by every consumer operation",
  "Tests use complete, valid samples only; crashes need a missing or misplaced part together with a later operation.",
  ["structdrawing.go", "structpara.go", "structdoc.go", "structtable.go", "structrun.go", "unpack.go", "link.go", "media.go"],
  [("nil checks before following optional parts", "structdrawing.go String, copymedia"), ("lookups tolerant of unknown names", "link.go, media.go")],
  [], ["panic / error / completion of each call"])

p("C15", "Concurrent use does not corrupt documents or ids",
  "Concurrent calls to the per-name counter of one document return distinct consecutive numbers; concurrent additions of shapes to different paragraphs of one document give every drawing a distinct id and every shape name a distinct number. Adding text to, formatting, merging and filtering different paragraphs of one document, operations on different documents, including ones created from the same source by appending or splitting, and concurrent reads (string forms, lookups, saving) of one document, give the same results under every interleaving as sequentially.",
  ["schedules"], "every interleaving of two or three threads with one to three operations each, at statement granularity, up to the preemption bound",
  "Tests are single-threaded.",
  ["id.go", "apishape.go", "link.go", "image.go", "structdoc.go", "pack.go", "docx.go"],
  [("mutex around the per-name counters", "id.go"), ("atomic counters", "apishape.go, apidrawing.go, link.go, image.go")],
  [("slowIDs", "per-name counters", "docx.go"), ("docID", "drawing id counter", "docx.go")],
  ["returned ids, saved packages"], "scheduling points are inserted into copies of the sources at check time (build overlay); no hook in /repo")

p("C16", "Each formatting call sets exactly its own property",
  "After any sequence of run formatting calls or paragraph formatting calls, each property has the value of the last call that sets it and every property not set stays absent, in the public fields, in the saved document and after re-opening. Formatting one run or paragraph never changes another one, and each call returns the object it was called on.",
  ["histories", "inputs"], "every sequence of run and paragraph formatting calls up to the explored depth, interleaved on two targets, on runs of every origin (text, tab, break, link, picture, shape, parsed, copied)",
  "Tests use one fixed chain of calls and only compare two encodings of it.",
  ["apirun.go", "apipara.go", "structeffects.go", "structpara.go", "structrun.go"],
  [("setters", "apirun.go, apipara.go")],
  [], ["public fields", "saved document"])

p("C17", "Tables have exactly the requested geometry",
  "A table created with given rows and columns has exactly that many rows and cells per row, each cell independent and empty; a table created from height and width lists has one row per height and one cell per width, with those heights, widths and grid. Widths, border colours (given or default), alignment, shading and cell paragraphs are applied to exactly the addressed table, row or cell, and all of it survives saving and re-opening.",
  ["inputs"], "every row x column count up to the bound, every short list of heights and widths over the stated domain (including zero), every border-colour subset, and every addressed cell",
  "Tests build one 4x3 table.",
  ["apitable.go", "structtable.go"],
  [("AddTable, AddTableTwips", "apitable.go"), ("table unmarshallers", "structtable.go")],
  [], ["public fields", "saved document"])

p("C18", "Parts the library does not interpret pass through unchanged",
  "Every part of a parsed package other than the main document and its relationships (styles, numbering, headers, settings, custom parts, media, content types up to entries added for media without one) appears in the re-saved package under the same name with the same bytes, and no other part appears. A document using a template has exactly the listed template files, under their listed names with their bytes, from the embedded template or any given file system, and the last chosen template wins.",
  ["inputs", "configurations"], "every subset and order of a set of extra parts (with every name and size class) in the package, and every template choice sequence",
  "Tests never save a package.",
  ["unpack.go", "pack.go", "theme.go", "fs.go"],
  [("remaining files recorded while parsing and copied on save", "unpack.go, pack.go"), ("UseTemplate", "theme.go")],
  [("tmpfslst, tmplfs, template", "template parts", "docx.go")],
  ["part names and bytes of the saved package"])

p("C19", "Pictures are sized to the page keeping their aspect ratio",
  "A picture wider than 1.2 times its height is placed at the full page width, any other at half the page width, with the height scaled to keep the aspect ratio (to the unit), the same size being given to the frame and to the picture itself, for inline and anchored pictures alike; resizing sets both. An image with a zero or unreadable dimension is refused or placed with a size, but never crashes.",
  ["inputs"], "every width x height of the stated grid (all small sizes plus boundary ratios and extreme sizes) in every image format header, inline and anchored",
  "Tests use three images and do not look at the sizes.",
  ["apidrawing.go"],
  [("AddInlineDrawing, AddAnchorDrawing, Size", "apidrawing.go")],
  [], ["extents in public fields and in the saved document", "error"])

p("C20", "Reference lookups agree with the document",
  "At every point of any history, looking up a relationship id gives the target it was created with, looking up a target gives an id whose target it is, iterating visits every relationship exactly once in order, stops at the first error and returns it, and looking up a media name gives the media with that name and its bytes; ids, targets and names not in the document are reported as not found. Iterating or looking up never changes the document, whatever the callback does to the relationships it is given.",
  ["histories", "inputs"], "every history of link and picture additions (with equal and distinct targets), parses, appends and splits up to the explored depth, and every queried id, target and name of the domain",
  "Tests never call the lookups.",
  ["link.go", "apirel.go", "media.go"],
  [("linear search over relationships", "link.go"), ("name index", "media.go")],
  [("docRelation", "relationships", "docx.go"), ("mediaNameIdx", "media by name", "docx.go")],
  ["results of the lookups"])

p("C21", "Saving is repeatable and has no side effects",
  "Saving a document any number of times, at any points of its history, writes the same parts with the same bytes each time as long as nothing is edited, does not change the document as seen through its public fields and later operations, and does not change any other document made from it or from the same template. A document saved, edited and saved again equals one edited the same way and saved once.",
  ["histories"], "every building history up to the explored depth with a save inserted at every subset of positions",
  "Tests never save.",
  ["docx.go", "pack.go"],
  [("pack builds the part list afresh on each save", "pack.go")],
  [], ["bytes written by WriteTo at each point"])

p("C22", "The command-line tool does what its flags say",
  "For every combination of flags and every file path form, the tool terminates successfully, creates exactly the output files the flags ask for next to the input file (generated document, re-saved copy, split pieces, duplicated document) with the content those operations are defined to give, and leaves an analysed input file unchanged. When something it needs cannot be read, or a file it was asked for cannot be written, it ends with a failure.",
  ["configurations"], "every subset of the flags (analyze, clean, unmarshalled copy, split pattern, drop properties, duplicate count) x path forms (bare name, relative and absolute directory, name without extension)",
  "There are no tests of the command.",
  ["cmd/main/main.go"],
  [("flag handling", "cmd/main/main.go")],
  [], ["exit status, files created, their content"])

p("C23", "Numeric attribute text is read exactly",
  "Every decimal integer that fits is read as itself, decimal fractions (within double precision) are truncated toward zero, and a leading integer followed by other characters (such as a unit) reads as that integer; text with no leading number is an error, never a wrong number. Byte/string conversions return the same content.",
  ["inputs"], "every string up to the explored length over the stated alphabet and every boundary integer",
  "Tests do not call the helpers directly.",
  ["helper.go"],
  [("GetInt, GetInt64, BytesToString, StringToBytes", "helper.go")],
  [], ["returned values"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
