#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
PK = 'pdfmajor/'
PS = PK + 'parser/PSStackParser/'
ST = PK + 'interpreter/commands/state/'


def add(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}),
            "observe_at": observe, "hook_needed": None}})


add("C01", "Tokenising does not depend on read-buffer boundaries",
    "The sequence of tokens (values and byte offsets) read from a byte sequence is the same however the sequence is cut into read buffers. This includes a boundary inside a string escape, octal or hex escape, hex string, number, name, comment, keyword or double angle bracket, and the boundary at end of data.",
    ["inputs", "schedules"], "all byte sequences and all ways of splitting them into consecutive non-empty reads",
    "The only tokenizer test feeds one fixed 300-byte text from a single 4096-byte buffer, so no token ever straddles a boundary.",
    [PS + 'PSBaseParser.py'],
    [("incremental token state carried between buffers", PS + 'PSBaseParser.py: fillbuf, _parse_*')],
    ["token stream of the base tokenizer"],
    [("partial token and continuation", "what has been read of the current token and how to go on", PS + 'PSBaseParser.py: seek')])

add("C02", "String tokens decode to the bytes the PDF syntax defines",
    "A parenthesised string yields its bytes with balanced inner parentheses kept, each defined backslash escape and 1-3 digit octal escape (modulo 256) replaced, a backslash-newline (LF, CR or CRLF) removed, and a backslash before any other byte dropped with that byte kept. A hexadecimal string yields one byte per pair of digits with white space anywhere ignored. Writing any byte string in either notation and reading it back returns it unchanged.",
    ["inputs"], "all byte strings and all legal notations of them",
    "One fixed test text contains a handful of escapes; 256^n contents and the interplay of escapes, nesting and digits cannot be sampled.",
    [PS + 'PSBaseParser.py', PS + 'constants.py'],
    [("string state machine", PS + 'PSBaseParser.py: _parse_string, _parse_string_1, _parse_hexstring')],
    ["values of string tokens"])

add("C03", "Names, numbers, keywords and comments are lexed exactly",
    "For any byte sequence the tokenizer returns, in order and each with the offset of its first byte, every name (with #xx escapes decoded), integer, real, boolean and keyword that PDF's lexical rules define, and nothing for white space and comments. The last token is delivered even when the data ends right after it, and a malformed number never swallows a following token.",
    ["inputs"], "all byte sequences free of string delimiters",
    "The test text fixes about forty tokens; delimiter/sign/dot/hash adjacency and end-of-data positions are not exercised.",
    [PS + 'PSBaseParser.py', PS + 'constants.py', PS + 'types.py'],
    [("token dispatch and terminator classes", PS + 'PSBaseParser.py: _parse_main, _parse_literal, _parse_number, _parse_float, _parse_keyword; ' + PS + 'constants.py'),
     ("interning", PS + 'types.py: PSSymbolTable.intern')],
    ["token stream", "identity of name/keyword objects"])

add("C04", "Arrays, dictionaries, references and null are rebuilt faithfully",
    "Any finite nesting of arrays, dictionaries, procedures, indirect references, nulls and scalar tokens that is written out and parsed again yields an equal structure, with a dictionary entry whose value is null absent. A later entry for the same key wins, and a stray closing bracket does not lose or regroup the objects around it.",
    ["inputs"], "all object trees within the size bound, and all token sequences of bounded length with unmatched closers",
    "Tests parse two flat objects; nesting shapes and mismatched brackets are combinatorial.",
    [PS + '__init__.py', PK + 'parser/PDFParser.py'],
    [("context stack of open containers", PS + '__init__.py: start_type, end_type, nextobject'),
     ("reference/null keywords", PK + 'parser/PDFParser.py: do_keyword')],
    ["objects returned by the object parsers"])

add("C05", "Line reading is lossless and independent of buffering",
    "Reading a file line by line forwards returns pieces that concatenate to exactly the remaining bytes, each but an unterminated last one ending in exactly one LF, CR or CRLF, with correct offsets. Reading lines backwards returns pieces, last one first, that joined in reverse order are the whole file, each but the first piece of the file beginning at an end-of-line character. Both are independent of the buffer size.",
    ["inputs", "schedules"], "all byte sequences and all buffer sizes",
    "Only whole sample files with 4096-byte buffers are read; CR/LF pairs at a boundary are never hit on purpose.",
    [PS + 'PSBaseParser.py'],
    [("forward and reverse line readers", PS + 'PSBaseParser.py: nextline, revreadlines')],
    ["lines and offsets returned"])

add("C06", "A page's content streams act as one token sequence",
    "Splitting a page's content at any token boundary into several streams, or any read-buffer cut within a stream, leaves the sequence of operands and operators unchanged, including the last one at the very end of the last stream and with empty streams in between. Tokens at the joint of two streams are never fused.",
    ["inputs", "schedules"], "all content token sequences within bounds, all splits at token boundaries into streams, all buffer cuts",
    "Samples contain few multi-stream pages and never a stream that ends without white space.",
    [PK + 'parser/PDFContentParser.py', PS + 'PSBaseParser.py'],
    [("stream chaining", PK + 'parser/PDFContentParser.py: fillfp, fillbuf')],
    ["objects returned by the content parser"])

add("C07", "Inline image data is delimited exactly",
    "An inline image in a content stream yields its dictionary and exactly its data bytes (one trailing end-of-line excluded) for every data content that does not contain the end marker followed by white space, whatever the buffer boundaries. Everything after the end marker is parsed as ordinary content.",
    ["inputs", "schedules"], "all data bytes within bounds, all buffer cuts",
    "No test contains an inline image whose data resembles its end marker.",
    [PK + 'parser/PDFContentParser.py'],
    [("end-marker scanner", PK + 'parser/PDFContentParser.py: get_inline_data, do_keyword')],
    ["stream object and following operators"])

add("C08", "Stream objects carry exactly their declared payload",
    "A stream object whose declared length is correct yields exactly that many payload bytes, even when the payload contains the end-of-stream word or line breaks, and parsing continues right after it. When the declared length is missing or wrong, the bytes up to the end-of-stream keyword are delivered instead of failing.",
    ["inputs"], "all payloads and line-ending styles within bounds, direct and indirect lengths, wrong and missing lengths",
    "Sample files are well formed and their text payloads are compressed, so a payload resembling syntax never occurs.",
    [PK + 'parser/PDFParser.py'],
    [("stream keyword handling", PK + 'parser/PDFParser.py: PDFParser.do_keyword')],
    ["raw data of the parsed stream, position afterwards"])

add("C09", "ASCII filters invert their encodings",
    "Decoding the ASCII85 or ASCIIHex encoding of any byte string, with white space inserted anywhere and with every legal final partial group or missing last digit, returns the byte string. Bytes after the end-of-data marker are ignored.",
    ["inputs"], "all byte strings and white-space placements within bounds",
    "Five fixed vectors; rounding in the last group and digit pairs split by white space need all values.",
    [PK + 'utils/ascii85.py'],
    [("decoders", PK + 'utils/ascii85.py: ascii85decode, asciihexdecode')], ["decoded bytes"])

add("C10", "RunLength decoding follows the format for every input",
    "Any sequence of literal and repeat runs decodes to exactly the bytes it denotes, up to the end-of-data length byte. Truncated data yields what is complete (plus any available part of the last run) instead of an error.",
    ["inputs"], "all encoded byte sequences within bounds, all run lengths",
    "One fixed vector is tested.",
    [PK + 'parser/PDFStream/util.py'],
    [("decoder", PK + 'parser/PDFStream/util.py: rldecode')], ["decoded bytes"])

add("C11", "LZW decoding follows the format for every code sequence",
    "Any valid sequence of variable-width codes, with clear codes anywhere and across every code-width change, decodes to exactly the bytes a reference decoder (early change) gives, up to the end code. Corrupt or truncated input yields the prefix decoded so far and never raises.",
    ["inputs", "histories"], "all code sequences within bounds from every table size near a width switch",
    "One nine-byte vector is tested; it never changes width and never contains an invalid code.",
    [PK + 'utils/lzw.py'],
    [("bit reader and table", PK + 'utils/lzw.py: LZWDecoder')], ["decoded bytes"])

add("C12", "PNG predictors are inverted exactly",
    "For every image geometry (colour components, columns), every sequence of per-row filter types and all data, undoing the PNG predictor returns the bytes the PNG specification defines.",
    ["inputs", "configurations"], "all row data, row filter types 0-4, 1-4 components, columns and rows within bounds",
    "No test exercises the predictor directly; only filter type 2 with one component occurs in sample files.",
    [PK + 'utils/generic.py', PK + 'parser/PDFStream/__init__.py'],
    [("predictor", PK + 'utils/generic.py: apply_png_predictor')], ["decoded bytes"])

add("C13", "CCITT Group 4 decoding inverts encoding",
    "Decoding the Group 4 encoding of any bilevel image returns that image, for every width and with or without byte alignment and with either polarity, stopping at the end-of-block code. Vertical, horizontal and pass modes each set exactly the run they denote for any reference and coding line.",
    ["inputs", "histories"], "all bilevel images within size bounds; all reference/coding line states within a width bound for a single mode step",
    "Sixteen fixed mode steps are tested; no byte-level decode is.",
    [PK + 'parser/PDFStream/ccitt.py'],
    [("mode decoder and line state", PK + 'parser/PDFStream/ccitt.py: CCITTG4Parser, CCITTFaxDecoder, ccittfaxdecode')],
    ["decoded image rows / bytes"])

add("C14", "Filter chains are applied in order, once, with their own parameters",
    "A stream's decoded data is its raw data (first decrypted, when the document is encrypted) passed through each declared filter in declared order with that filter's own parameters, for full and abbreviated filter names and for single and list forms. Reading it repeatedly gives the same bytes, and an unknown filter or predictor is reported by an exception the library documents rather than returning wrong data.",
    ["inputs", "configurations", "histories"], "all chains of up to three filters, all parameter forms, all payloads within bounds, any number of reads",
    "Sample files use a single filter per stream.",
    [PK + 'parser/PDFStream/__init__.py', PK + 'parser/PDFStream/constants.py'],
    [("filter selection and decode cache", PK + 'parser/PDFStream/__init__.py: get_filters, decode, get_data')], ["decoded stream data"])

add("C15", "Classic cross-reference tables are read exactly",
    "For every table of sections, the offset and generation recorded for an in-use object number are exactly those written, free entries and numbers outside every section are unknown, and malformed tables are rejected with the library's error for an invalid table. The recorded object list equals the in-use numbers.",
    ["inputs"], "all section start numbers, entry values and entry kinds within bounds",
    "Sample files have one well-formed section each.",
    [PK + 'parser/PDFDocument/PDFXRef.py'],
    [("table loader", PK + 'parser/PDFDocument/PDFXRef.py: PDFXRef.load')], ["position lookup and object listing"])

add("C16", "Cross-reference streams are decoded exactly",
    "For every field-width triple, subsection list and entry data, looking up an object number returns the type, position and generation its entry encodes; free entries and numbers outside all subsections are unknown. The listing of object numbers contains exactly the in-use and compressed ones, over all subsections.",
    ["inputs", "configurations"], "all entry bytes, field widths and subsection ranges within bounds",
    "Samples use one subsection and fixed widths.",
    [PK + 'parser/PDFDocument/PDFXRef.py', PK + 'utils/generic.py'],
    [("entry addressing", PK + 'parser/PDFDocument/PDFXRef.py: PDFXRefStream'), ("big-endian integers", PK + 'utils/generic.py: nunpack')],
    ["position lookup and object listing"])

add("C17", "Looking up an object returns its newest revision, cached or not",
    "An object number resolves to the object in the newest revision that defines it usably, whether stored directly or in an object stream, falling back to older revisions when an entry is unusable, and to the document's not-found error when none defines it. Repeated lookups, lookups in any order and lookups with caching disabled give equal results.",
    ["inputs", "histories", "configurations"], "all assignments of entries to revisions, all lookup orders, caching on and off, within bounds",
    "Sample documents are single-revision and caching is on.",
    [PK + 'parser/PDFDocument/__init__.py', PK + 'parser/PDFStream/PDFObjRef.py', PK + 'parser/PDFStream/util.py'],
    [("lookup over revisions with caches", PK + 'parser/PDFDocument/__init__.py: getobj, _getobj_objstm, _getobj_parse')],
    ["object lookup and reference resolution"],
    [("object cache", "object number to parsed object", PK + 'parser/PDFDocument/__init__.py: getobj')])

add("C18", "The revision chain and trailer are followed correctly",
    "Opening a document visits the cross-reference section named last in the file, then its hybrid stream and its predecessors, newest first, and takes the catalog, information and encryption entries from the newest section that has them. If the final pointer or a section is missing or damaged, the document is still opened by scanning for objects and its objects resolve.",
    ["inputs", "fault_sequences"], "all chains of up to three sections, damaged or missing pointers, within bounds",
    "Every sample file has an intact pointer and a single section.",
    [PK + 'parser/PDFDocument/__init__.py', PK + 'parser/PDFDocument/PDFXRef.py'],
    [("start pointer search and chain walk", PK + 'parser/PDFDocument/__init__.py: find_xref, read_xref_from, __init__'),
     ("scan fallback", PK + 'parser/PDFDocument/PDFXRef.py: PDFXRefFallback')],
    ["catalog, trailer dictionaries, resolved objects"])

add("C19", "Pages come in document order with inherited attributes",
    "The pages of a document are the leaves of its page tree from left to right, and each page's resources, media box, crop box and rotation are its own or those of the nearest ancestor that defines them. Non-inheritable attributes are never inherited, the rotation is reduced to 0-359, and a page's content is its list of content streams in order.",
    ["inputs"], "all page tree shapes and attribute placements within bounds, all rotation values",
    "Sample files have shallow trees with attributes on the leaves.",
    [PK + 'parser/PDFPage.py'],
    [("tree walk with inheritance", PK + 'parser/PDFPage.py: create_pages, PDFPage.__init__')],
    ["sequence of pages and their attributes"])

add("C20", "Page selection yields exactly the requested pages",
    "With a page selection and/or a page limit, the pages produced are exactly the selected ones among the first that the limit allows, in document order, each with the content it has without selection. Iterating a document again, after a full or an abandoned iteration, yields the same pages with the same items.",
    ["configurations", "histories"], "all selections and limits over documents within bounds, all sequences of full and partial iterations",
    "Tests iterate each sample once with the default selection.",
    [PK + 'parser/PDFPage.py', PK + 'interpreter/__init__.py', PK + 'interpreter/PageInterpreter.py'],
    [("selection loop", PK + 'parser/PDFPage.py: get_pages'), ("page caching and per-page state", PK + 'interpreter/__init__.py; ' + PK + 'interpreter/PageInterpreter.py')],
    ["pages and items from the interpreter"])

add("C21", "Encrypted documents open with the right password only",
    "For every supported security handler revision, a document opens exactly when the given password is its user or owner password, with the file key the PDF specification derives; any other password raises the library's password error and an unsupported handler its encryption error. The print/modify/extract permissions reported are those of the permission bits, for signed or unsigned notation.",
    ["inputs", "configurations"], "all passwords, permission words, document ids and password hashes within bounds, all supported revisions and key lengths",
    "No sample file is encrypted.",
    [PK + 'parser/PDFDocument/PDFSecurityHandler.py', PK + 'parser/PDFDocument/__init__.py'],
    [("key derivation and authentication", PK + 'parser/PDFDocument/PDFSecurityHandler.py'), ("handler selection", PK + 'parser/PDFDocument/__init__.py: _initialize_password')],
    ["opening result, key, permission flags"])

add("C22", "Decryption restores every string and stream of an object",
    "Strings at any depth of a decrypted object, and stream data, equal the plaintext that was encrypted with the per-object key for that object and generation number, with block-cipher padding removed. Other values are untouched, identity filters and exempt metadata pass through, and each value is decrypted exactly once.",
    ["inputs", "configurations"], "all object and generation numbers, all plaintexts and nestings within bounds, all crypt methods",
    "No sample file is encrypted.",
    [PK + 'parser/PDFDocument/PDFSecurityHandler.py', PK + 'parser/PDFStream/util.py', PK + 'parser/PDFDocument/__init__.py'],
    [("per-object key and ciphers", PK + 'parser/PDFDocument/PDFSecurityHandler.py: decrypt*'), ("recursive decryption", PK + 'parser/PDFStream/util.py: decipher_all')],
    ["decrypted objects"])

add("C23", "ToUnicode maps assign exactly the listed code points",
    "Parsing a ToUnicode map assigns to each character code exactly the text its char and range entries list (range successors incrementing the last bytes, array entries element by element, later entries overriding earlier ones), for all 1- to 4-byte codes. Codes not listed stay undefined.",
    ["inputs"], "all entries within size bounds, all code lengths, any mix and order of sections",
    "Samples contain a few generated maps whose text output is not compared with anything.",
    [PK + 'parser/cmapdb/__init__.py'],
    [("map parser", PK + 'parser/cmapdb/__init__.py: CMapParser.do_keyword, FileUnicodeMap.add_cid2unichr')], ["code to text lookup"])

add("C24", "Simple-font encodings and differences map codes to text",
    "A simple font maps each byte to the character its named base encoding assigns, overridden by the glyph names listed as differences from their stated start codes, overridden in turn by its ToUnicode map; unknown codes are reported as undefined. Glyph names resolve through the glyph list and the uniXXXX/uXXXXXX conventions, and shared base encodings are never modified by a font.",
    ["inputs", "histories"], "all difference lists within bounds, all codes, all base encodings, any sequence of font constructions",
    "Sample outputs are not compared with expected text.",
    [PK + 'parser/EncodingDB.py', PK + 'utils/encoding/__init__.py', ST + 'PDFTextState/PDFFont/PDFFont.py'],
    [("difference application", PK + 'parser/EncodingDB.py: get_encoding'), ("glyph names", PK + 'utils/encoding/__init__.py: name2unicode'), ("lookup order", ST + 'PDFTextState/PDFFont/PDFFont.py: to_unichr')],
    ["code to text lookup of fonts"])

add("C25", "Glyph widths come from the font's width data",
    "The advance width of a code is the one its font lists (contiguous array from the first character, per-character list or range, horizontal or vertical), and the font's default width for any other code; a later listing overrides an earlier one. The width of a string is the sum over its codes.",
    ["inputs", "configurations"], "all width arrays within bounds, all codes",
    "Four fixed assertions cover list parsing; lookups are not tested.",
    [ST + 'PDFTextState/PDFFont/util.py', ST + 'PDFTextState/PDFFont/PDFFont.py', ST + 'PDFTextState/PDFFont/fonts.py'],
    [("width tables", ST + 'PDFTextState/PDFFont/util.py: get_widths, get_widths2'), ("lookup", ST + 'PDFTextState/PDFFont/PDFFont.py: char_width')],
    ["character widths and displacements"])

add("C26", "Strings are segmented into character codes without loss",
    "A composite font with a two-byte identity mapping turns a string into its successive big-endian 16-bit codes (an odd trailing byte is ignored), and a code map of mixed-length codes segments a string by its prefix tree. A simple font yields one code per byte.",
    ["inputs"], "all strings and prefix trees within bounds",
    "Sample outputs are not compared with expected text.",
    [PK + 'parser/cmapdb/__init__.py', ST + 'PDFTextState/PDFFont/PDFFont.py'],
    [("segmentation", PK + 'parser/cmapdb/__init__.py: CMap.decode, IdentityCMap.decode')], ["codes of a string"])

add("C27", "Save and restore bracket the whole graphics state",
    "After any balanced bracket of save and restore, every graphics, colour, text-state and transformation parameter has the value it had at the save, whatever operators ran in between and however deeply brackets nest; an unmatched restore changes nothing. Items painted inside keep the values in effect when they were painted.",
    ["histories", "inputs"], "all operator sequences within bounds between save and restore, all parameter values",
    "No test inspects graphics state.",
    [PK + 'interpreter/commands/commands.py', ST + '__init__.py', ST + 'PDFGraphicState/__init__.py', ST + 'PDFTextState/__init__.py'],
    [("state stack", PK + 'interpreter/commands/commands.py: save_state, restore_state'), ("copies", ST + 'PDFGraphicState/__init__.py: copy; ' + ST + 'PDFTextState/__init__.py: copy')],
    ["state seen by painted items"],
    [("graphics stack", "saved states", ST + '__init__.py: gstack')])

add("C28", "Each state operator changes exactly its own parameter",
    "Every graphics-state, colour, text-state and path operator consumes exactly its operands from the end of the operand list and changes exactly the parameter PDF defines for it (stroking operators the stroking colour, non-stroking ones the non-stroking colour) and nothing else. An operator with too few operands or an unknown operator never alters the state silently in another way.",
    ["inputs", "programs"], "all operators, all operand values, all prior states",
    "Tests only check that conversion does not crash and three colour samples.",
    [PK + 'interpreter/commands/commands.py', PK + 'interpreter/commands/__init__.py'],
    [("operator table", PK + 'interpreter/commands/commands.py'), ("dispatch with operand stack", PK + 'interpreter/commands/__init__.py: process_command_stream')],
    ["state after an operator", "colours of painted items"])

add("C29", "Transformations compose and rotated pages map into the page box",
    "Concatenating matrices and applying them to points obeys affine algebra: applying a product equals applying its factors in order, identity and translation behave as such, and a bounding box contains all its points and touches its extremes. For each page rotation the initial transformation maps the media box corners onto the box from the origin to the page's reported width and height.",
    ["inputs"], "all real matrices, points and media boxes; the four rotations",
    "No test checks coordinates.",
    [PK + 'utils/matrix.py', PK + 'utils/types.py', PK + 'interpreter/PageInterpreter.py', PK + 'interpreter/commands/commands.py'],
    [("matrix functions", PK + 'utils/matrix.py'), ("boxes", PK + 'utils/types.py: Bbox'), ("page set-up", PK + 'interpreter/PageInterpreter.py')],
    ["matrix helpers, boxes, page size"])

add("C30", "Painted paths become shapes with the right kind and box",
    "Each painting operator turns the current path into one shape item: a two-point path a line (horizontal/vertical when it is so on the page), a closed axis-aligned four-corner path a rectangle, anything else a curve, with box equal to that of the transformed on-path points, path points in page coordinates, the operator's even-odd flag and the current line width and colours. Painting or discarding empties the path, and no item is ever missing or of an unknown kind.",
    ["inputs", "programs"], "all paths of bounded length over all construction operators, all coordinates and transformations, all painting operators",
    "Tests only check that some items exist.",
    [ST + 'layout/__init__.py', ST + 'Curves.py', PK + 'interpreter/commands/commands.py'],
    [("shape classification", ST + 'layout/__init__.py: make_curve'), ("path operators", PK + 'interpreter/commands/commands.py')],
    ["shape items of a page"])

add("C31", "Text positioning operators place the text origin as defined",
    "After any sequence of text positioning operators (begin text, move, move and set leading, set matrix, next line, the two quote operators, set leading) inside a text object, the next glyph's origin on the page is the one PDF's text matrices define, combined with the current transformation. Shown strings advance only the current line and never move later lines.",
    ["histories", "inputs"], "all sequences of positioning/showing operators within bounds, all operand values",
    "No test checks coordinates.",
    [PK + 'interpreter/commands/commands.py', ST + 'layout/utils/textdecoder.py', ST + 'PDFTextState/__init__.py'],
    [("text and line matrices", PK + 'interpreter/commands/commands.py: begin_text .. nextline')], ["boxes of glyph items"])

add("C32", "Showing text yields one glyph per code with the right text and box",
    "Showing a string or an array produces, in order, exactly one glyph item per character code, with the font's text for it, a box given by its width, the font's vertical extent, rise, size and scaling, and successive glyphs displaced by width, character and word spacing and array adjustments. A code without text is an error, or an empty text when bad characters are ignored, and an empty string shows nothing without failing; the text block's box encloses its glyphs.",
    ["inputs", "configurations"], "all strings/arrays within bounds, all text-state values, horizontal and vertical fonts",
    "Two tests check only that an undefined glyph raises or not.",
    [ST + 'layout/utils/textdecoder.py', ST + 'layout/LTTextBlock.py', ST + 'layout/LTCharBlock.py', ST + 'layout/LTChar.py', ST + 'PDFTextState/__init__.py'],
    [("glyph placement", ST + 'layout/utils/textdecoder.py'), ("containers", ST + 'layout/LTTextBlock.py, LTCharBlock.py')], ["glyph, block and text items"])

add("C33", "Form objects are expanded in place and in isolation",
    "Invoking a form yields one container item holding exactly the items of its content, interpreted with its own resources (or the invoker's when it has none), with its matrix applied before the current transformation, the invoker's graphics parameters and bad-character policy; nested forms nest. The invoker's own state is unchanged afterwards, and undefined names raise the library's error.",
    ["inputs", "programs"], "all form matrices and boxes, nesting within bounds, state before and after",
    "Tests only check that conversion does not crash.",
    [PK + 'interpreter/commands/__init__.py', PK + 'interpreter/commands/commands.py', ST + 'layout/__init__.py'],
    [("form expansion", PK + 'interpreter/commands/__init__.py: process_command_stream, prep_state'), ("form item", ST + 'layout/__init__.py: make_xobject')], ["container items", "state after the invocation"])

add("C34", "Images are placed and exported faithfully",
    "An image painted by an image object or inline yields one image item whose box is the transformed unit square and whose pixel size, depth and colour space are those declared. Exporting raw 1-bit, 8-bit grey or 8-bit RGB data writes a bitmap file with that pixel size and depth whose rows are the image's rows in order, padded to four bytes.",
    ["inputs", "configurations"], "all transformations; all declared sizes/depths and pixel data within bounds",
    "One sample JPEG is exported; no bitmap is compared.",
    [ST + 'layout/LTImage.py', PK + 'BMPWriter/__init__.py', ST + 'layout/__init__.py'],
    [("export", ST + 'layout/LTImage.py: save_image'), ("bitmap writer", PK + 'BMPWriter/__init__.py')], ["image items", "exported file bytes"])

add("C35", "JSON output is valid and faithful for every text",
    "Whatever text, font attributes, colours and numbers a document contains, the JSON output is a valid JSON document whose strings decode to exactly those texts and whose structure lists every page and item in order.",
    ["inputs", "programs"], "all texts and keys within bounds (all Unicode scalar values), all item structures within bounds",
    "Writer tests use plain ASCII words; conversion tests only parse outputs of a few samples.",
    [PK + 'converters/writers/json.py', PK + 'converters/json.py'],
    [("writer", PK + 'converters/writers/json.py'), ("rendering", PK + 'converters/json.py')], ["output file bytes"])

add("C36", "XML output is well-formed and faithful for every text",
    "Whatever text, font attributes and colours a document contains, the XML output is well formed, its character elements decode to exactly those texts (characters XML cannot carry excepted) and its attributes to their values, with every page and item present in order.",
    ["inputs", "programs"], "all texts and attribute values within bounds, all item structures within bounds",
    "Conversion tests parse outputs of a few samples with ordinary text.",
    [PK + 'converters/writers/xml.py', PK + 'converters/xml.py', PK + 'utils/generic.py'],
    [("writer", PK + 'converters/writers/xml.py'), ("rendering", PK + 'converters/xml.py')], ["output file bytes"])

add("C37", "HTML output keeps document text inert",
    "No text, font name or other document-controlled value can open or close a tag or attribute of the HTML output, whatever characters it contains. Every page yields one page element and every glyph's text decodes back exactly from its element.",
    ["inputs", "programs"], "all texts and attribute values within bounds, all item structures within bounds",
    "Writer tests use fixed harmless text; converted HTML is never parsed.",
    [PK + 'converters/writers/html.py', PK + 'converters/html.py'],
    [("writer", PK + 'converters/writers/html.py'), ("rendering", PK + 'converters/html.py')], ["output file bytes"])

add("C38", "YAML and text output are faithful for every text",
    "The YAML output is a valid document from which every text and attribute value is read back as exactly that value, whatever characters it contains. The text output is, per page, the page heading followed by exactly the page's glyph texts in order, including those inside forms.",
    ["inputs", "programs"], "all texts within bounds, all item structures within bounds",
    "Writer tests use plain words; YAML conversion is not tested at all.",
    [PK + 'converters/writers/yaml.py', PK + 'converters/yaml.py', PK + 'converters/text.py'],
    [("writer", PK + 'converters/writers/yaml.py'), ("text converter", PK + 'converters/text.py')], ["output file bytes"])

add("C39", "Malformed input ends in a library error or a result, never a hang",
    "Parsing any byte sequence as tokens, objects, content operators with operands of any type, a character map, a font header, a cross-reference section or the data of a stream filter terminates, and raises nothing but the library's own documented exceptions.",
    ["inputs"], "all byte sequences within length bounds, with a step bound proportional to their length",
    "Every sample file is well formed.",
    [PS + 'PSBaseParser.py', PS + '__init__.py', PK + 'parser/PDFParser.py', PK + 'parser/PDFContentParser.py', PK + 'parser/cmapdb/__init__.py', ST + 'PDFTextState/PDFFont/Type1FontHeaderParser.py', PK + 'parser/PDFDocument/PDFXRef.py'],
    [("operand arity handling", PK + 'parser/PDFParser.py: do_keyword'), ("error classes", PK + 'execptions.py')], ["outcome of parsing"])

add("C40", "Document text strings and names resolve correctly",
    "A text string decodes as UTF-16BE after a byte-order mark and by the PDFDocEncoding table otherwise. Looking up a named destination returns the value filed under exactly that name in the name tree (or the older dictionary) and the not-found error for any other name, and the outline lists every titled entry that has a destination or an action once, with its level, in document order, however many entries a level has and even when entries link back to earlier ones.",
    ["inputs"], "all byte strings, all name trees and outline shapes within bounds",
    "Not tested at all.",
    [PK + 'utils/generic.py', PK + 'parser/PDFDocument/__init__.py'],
    [("text strings", PK + 'utils/generic.py: decode_text'), ("name tree and outline", PK + 'parser/PDFDocument/__init__.py: lookup_name, get_dest, get_outlines')],
    ["decoded strings, destinations, outline entries"])

add("C41", "Fonts read from embedded font data map codes correctly",
    "A Type 1 font's built-in encoding read from its header maps exactly the codes it assigns to the characters of their glyph names. The character map of an embedded TrueType font maps each glyph to a character its format 0 or format 4 table assigns to it, and damaged or unsupported tables leave the font usable.",
    ["inputs"], "all assignments and table contents within bounds",
    "Samples are not compared with expected text.",
    [ST + 'PDFTextState/PDFFont/Type1FontHeaderParser.py', ST + 'PDFTextState/PDFFont/TrueTypeFont.py'],
    [("header parser", ST + 'PDFTextState/PDFFont/Type1FontHeaderParser.py'), ("table reader", ST + 'PDFTextState/PDFFont/TrueTypeFont.py')], ["code to text lookup"])

add("C42", "Spatial index and geometry helpers agree with their definitions",
    "Querying the spatial index for an area inside it returns, once each, exactly the stored, not removed objects whose box overlaps the area, after any sequence of insertions (repeated ones included) and removals, wherever the boxes lie and for any integer grid size; listing it gives the stored objects in the order of insertion. Distances between boxes are the gaps between their spans and zero where those meet, overlaps are zero exactly where spans do not share more than a point and equal the shared length unless one span contains the other, and both are symmetric.",
    ["inputs", "histories"], "all boxes, areas and operation sequences within bounds",
    "Not tested at all.",
    [PK + 'utils/generic.py', ST + 'layout/_base.py'],
    [("grid index", PK + 'utils/generic.py: Plane, drange'), ("box relations", ST + 'layout/_base.py')], ["query results"])

add("C43", "Names of character maps taken from a document stay inside the map directories",
    "Whatever name a document gives for a predefined character map (a composite font's encoding or character collection, a usecmap operator), only a file directly inside one of the two map directories is ever opened and unpickled: the one of exactly that name, from the first directory that has it. Any other name is the not-found error, never another map, another file or a crash.",
    ["inputs"], "all names within bounds, by every route a document has to give one",
    "No test uses a predefined map; the safety of unpickling depends on it.",
    [PK + 'parser/cmapdb/__init__.py', ST + 'PDFTextState/PDFFont/fonts.py'],
    [("file lookup", PK + 'parser/cmapdb/__init__.py: CMapDB'), ("names from fonts", ST + 'PDFTextState/PDFFont/fonts.py: PDFCIDFont')], ["paths opened, maps returned"])

add("C44", "HTML output places and draws what the page has where it has it",
    "In HTML output every page element has the page's size, every shape is an SVG positioned and sized as the shape's box on the page (origin at the page's top left, y downwards) whose path data traces the shape's path in page coordinates - every segment kind, every point - with its stroke width and colours, every text block has its box and font size, every character its box, and every image its size. Nothing is drawn elsewhere, turned over, or left out, for boxes with any real coordinates.",
    ["inputs"], "all coordinates and sizes of every kind of item, all segment kinds, page boxes with any origin",
    "Tests compare nothing about geometry in the output.",
    [PK + 'converters/html.py', ST + 'layout/__init__.py'],
    [("placement and SVG paths", PK + 'converters/html.py')], ["HTML files"])

add("C45", "One call converts what was asked for, to where it was asked",
    "convert_file and every converter honour each option for every output type: exactly the selected pages within the page limit are written in order, a password opens what it opens and nothing else, documents that forbid extraction are refused unless the check is switched off, codes without text are an error unless they are to be ignored. The output goes to the given name, or by default next to the document with its last extension replaced by the type; a name that does not match the type, an unknown type, or an output that would replace the document is refused with ConverterException and nothing is written. The document itself is never changed.",
    ["inputs"], "all selections and limits within bounds, all permissions, passwords and their ways of being given, all file names within bounds, all types",
    "Tests call it with the defaults on sample files.",
    [PK + 'converters/__init__.py', PK + 'converters/html.py', PK + 'converters/xml.py', PK + 'converters/json.py', PK + 'converters/yaml.py', PK + 'converters/text.py', PK + 'interpreter/__init__.py'],
    [("entry point", PK + 'converters/__init__.py: convert_file'), ("options", PK + 'interpreter/__init__.py: PDFInterpreter')], ["files written, exceptions"])

add("C46", "Outputs are one valid text of the chosen codec",
    "Whatever codec is chosen, the whole output decodes with it (one mark at most, at the start) to a valid document of its format that declares it, with the same texts as with UTF-8: in XML, HTML, JSON and YAML characters the codec does not have are written as references or escapes of the format; in plain text they are refused with UnicodeEncodeError, never dropped or replaced.",
    ["inputs"], "every character within the ranges, in texts, font attributes and names, for codecs of every kind (narrow, wide, with a mark)",
    "Tests only use the default codec.",
    [PK + 'converters/writers/html.py', PK + 'converters/writers/xml.py', PK + 'converters/writers/json.py', PK + 'converters/writers/yaml.py', PK + 'converters/text.py'],
    [("writers", PK + 'converters/writers')], ["files written"])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
