#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as Python for readability)."""
import json, os, re
P = []
def where(sym, files):
    for f in files:
        try:
            if re.search(r"^[^\s#/].*\b%s\s*\(" % sym, open("/repo/" + f).read(), re.M): return f
        except OSError: pass
    return files[0]
def p(id, title, statement, over, text, why, files, symbols):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": s, "where": where(s, files)} for s in symbols], "observe_at": ["the public C API: arguments, return values, bytes and text produced, allocator calls"], "hook_needed": None}})

p("C01", "Serializing and deserializing OSC bundles and messages is lossless and exact",
  "Serializing any bundle or message built through the API yields exactly the OSC wire encoding of its content (\"#bundle\" header, big-endian 4-byte sizes, zero-padded 4-aligned strings, type tags, big-endian data, nested bundles and blobs with length prefixes), and the reported serialized size is the number of bytes produced. Deserializing those bytes gives back the same messages, in order, with the same addresses, type tags and values, bit for bit, at any nesting depth.",
  ["inputs"], "every bundle: any number of messages, arguments, type tags c C u U i I h H f d s b t T F N and nested bundles, string lengths of every residue mod 4, all 64-bit values, NaN/Inf, and every way the API offers to build or copy it",
  "osc_test/osc_explode_test only check that a main() exits 0 on one fixed bundle; nothing compares bytes or values.",
  ["osc_bundle_u.c", "osc_bundle_s.c", "osc_message_u.c", "osc_message_s.c", "osc_atom_u.c", "osc_atom_s.c", "osc_byteorder.h", "osc_util.c", "osc_mem.c"],
  ["osc_bundle_u_serialize", "osc_bundle_u_nserialize", "osc_bundle_u_getSerializedSize", "osc_bundle_s_deserialize", "osc_message_s_deserialize", "osc_atom_s_deserialize", "osc_atom_u_serialize"])

p("C02", "Reading a serialized bundle in place reports exactly the content of its bytes",
  "For any well-formed OSC bundle, whoever encoded it, the message count, the iterators, the message accessors (size, address, type tags, argument count, the nth type tag, the nth argument with or without cached offsets), the argument data pointers and sizes, the bundle time tag and nested bundles are exactly what an independent decoding of the bytes gives, in wire order. Reading never modifies the bytes.",
  ["inputs"], "every well-formed packet, including empty bundles, messages with no arguments, empty and 4-aligned strings, blobs of every length mod 4, nested bundles, and any access order",
  "the tests read no serialized bundle argument by argument, and only exercise one or two packets.",
  ["osc_bundle_s.c", "osc_message_s.c", "osc_bundle_iterator_s.c", "osc_message_iterator_s.c", "osc_atom_s.c", "osc_mem.c"],
  ["osc_bundle_iterator_s_next", "osc_message_s_wrap", "osc_message_s_getArg", "osc_message_s_cacheDataOffsets", "osc_message_iterator_s_next", "osc_bundle_s_getMsgCount", "osc_sizeof"])

p("C03", "Untrusted packets: the sanity check is safe and only passes readable bundles",
  "The bundle sanity check can be run on any byte string of any length without reading outside it; it accepts every well-formed bundle, and rejects byte strings with a bad header, message sizes that do not add up, addresses that are unterminated or do not start with a slash, and type tags whose data does not fit in the message. Any byte string it accepts can be iterated, looked up, formatted and deserialized without touching memory outside it.",
  ["inputs"], "all byte strings: random bytes, every truncation, and corrupted size, address, type tag, string, blob and nested-bundle fields of valid packets, placed in exactly sized buffers",
  "no test passes a malformed packet to the sanity check.",
  ["osc_error.c", "osc_bundle_s.c", "osc_message_s.c", "osc_mem.c"],
  ["osc_error_bundleSanityCheck", "osc_error_msgSanityCheck", "osc_error_validateAddress", "osc_bundle_s_getMsgCount"])

p("C04", "OSC address pattern matching agrees with the OSC 1.0 pattern language",
  "Matching a pattern against an address reports a complete match exactly when the pattern's language (literal characters, ?, *, [..] with ranges and negation, {a,b,..}; none of which crosses a slash) contains the address; otherwise it tells which side was completely consumed at a segment boundary, and gives the offsets in the pattern and the address up to which whole segments matched. The result does not depend on previous calls and neither string is changed or read past its terminator.",
  ["inputs"], "all pattern and address pairs up to bounded length over an alphabet with all the meta characters, including patterns that need backtracking",
  "the test table has about 60 pairs; the combinations of star, list, range and segment boundary are unbounded.",
  ["osc_match.c"], ["osc_match"])

p("C05", "Address lookup in a bundle finds exactly the messages the pattern matches",
  "Looking up an address or pattern in a serialized or unserialized bundle returns, in bundle order, exactly those messages whose address it matches (completely, or also partially if partial matches are asked for); 'exists', 'is bound' (exists with at least one argument) and 'first full match' are consistent with that set, and both representations of the same bundle give the same answer.",
  ["inputs"], "every bundle (duplicates, empty messages, nested bundles, no messages) and every address or pattern, with and without partial matching",
  "no test calls any lookup function.",
  ["osc_bundle_s.c", "osc_bundle_u.c", "osc_match.c"],
  ["osc_bundle_s_lookupAddress", "osc_bundle_u_lookupAddress", "osc_bundle_s_addressExists", "osc_bundle_s_addressIsBound", "osc_bundle_s_getFirstFullMatch"])

p("C06", "Bundle algebra and in-place bundle edits match the mathematical model",
  "On serialized bundles, union, intersection, difference, concatenation, append, replace, remove, rename, deep copy, wrapping a naked message and setting or reading the header and time tag give exactly the messages the operation's definition prescribes, in order, with every untouched message byte-for-byte unchanged and inputs unmodified; results are well-formed bundles. The union and intersection of unserialized bundles contain the same addresses as those of their serialized forms.",
  ["inputs", "histories"], "every pair of bundles, with equal, overlapping and disjoint address sets, and every sequence of edits applied to a bundle",
  "no test calls these operations.",
  ["osc_bundle_s.c", "osc_bundle_u.c", "osc_message_s.c"],
  ["osc_bundle_s_union", "osc_bundle_s_intersection", "osc_bundle_s_difference", "osc_bundle_s_concat", "osc_bundle_s_appendMessage", "osc_bundle_s_replaceMessage", "osc_bundle_s_removeMessage", "osc_message_s_renameCopy"])

p("C07", "Editing unserialized bundles and messages behaves like editing ordered lists",
  "After any history of adding, replacing and removing messages in a bundle, and of appending, prepending, inserting and removing arguments in a message, counts, nth-element access, forward iteration, address reads and the serialized form all equal those of an ordered-list model given the same history. Copies are independent: changing or freeing one never affects another.",
  ["histories"], "every sequence of editing operations on messages and bundles, for every argument type and every insert or remove position (head, middle, tail, past the end, only element)",
  "the tests build fixed bundles by appending only.",
  ["osc_message_u.c", "osc_bundle_u.c", "osc_atom_u.c", "osc_bundle_iterator_u.c", "osc_message_iterator_u.c"],
  ["osc_message_u_insertAtom", "osc_message_u_removeAtom", "osc_message_u_prependAtom", "osc_message_u_deepCopy", "osc_bundle_u_addMsg", "osc_bundle_u_replaceMessage", "osc_bundle_u_removeMsg", "osc_bundle_u_copy"])

p("C08", "Atom values convert between types as documented, identically in both forms",
  "Reading an argument as any numeric type, boolean, string or time tag gives the C conversion of its stored value (strings parsed as numbers, true 1, false and nil 0; a time tag as a floating-point number is its seconds, to within one unit of the fraction), blobs are read and copied with their exact length (and never beyond the end of a buffer the caller supplies), in-place setters overwrite exactly that value in its own type, and negation negates it. The serialized and the unserialized atom holding the same value answer every such conversion the same way.",
  ["inputs"], "every type tag, every stored value including extremes and negative small integers, and every getter for which the value is representable in the requested type (not: blobs read as numbers, strings read as 8-bit integers, blob copies of 8- and 16-bit integers)",
  "no test reads a value through a getter of another type.",
  ["osc_atom_u.c", "osc_atom_s.c"],
  ["osc_atom_u_getInt32", "osc_atom_s_getInt32", "osc_atom_u_getDouble", "osc_atom_s_getDouble", "osc_atom_u_getString", "osc_atom_s_getString", "osc_atom_s_negate", "osc_atom_s_setInt32"])

p("C09", "Text output parses back to the bundle it shows",
  "Formatting a bundle whose values have an exact textual form (32-bit integers, characters, short decimal floats, strings including ones with quotes, backslashes, commas and braces, booleans, nil, time tags, nested bundles, lists) and parsing that text with the bundle text parser gives back the same addresses, values and structure; the serialized and unserialized bundle produce the same text. Hand-written bundle text parses to the bundle it denotes, and malformed text is reported as an error.",
  ["inputs"], "every such bundle with at least one message, at any nesting depth, any layout of the text (white space, newlines), and texts broken by deleting or inserting tokens; addresses have at least one character after the slash and no space or #, characters are not NUL or newline",
  "no test parses the current text format: the expression tests read the legacy format.",
  ["osc_strfmt.c", "osc_parser.y", "osc_scanner.l", "osc_bundle_s.c", "osc_bundle_u.c", "osc_message_s.c", "osc_message_u.c", "osc_atom_s.c", "osc_atom_u.c"],
  ["osc_bundle_s_format", "osc_bundle_u_format", "osc_parser_parseString", "osc_strfmt_quotedStringWithQuotedMeta"])

p("C10", "Bounded output functions respect the buffer size they are given",
  "Every formatting function that takes a buffer and its size reports, when called with no buffer, the length of the text it would write; given a buffer of any size it never writes outside it and leaves a terminated string that is a prefix of the full text, and the allocating variants return the full text of the announced length. Bounded serialization into a buffer of at least the announced size writes exactly the serialized bytes.",
  ["inputs"], "every bundle, message and atom (without characters of value 0) and every buffer size from 1 to larger than needed",
  "no test passes a buffer that is too small.",
  ["osc_bundle_s.c", "osc_bundle_u.c", "osc_message_s.c", "osc_message_u.c", "osc_atom_s.c", "osc_atom_u.c", "osc_strfmt.c", "osc_timetag.c"],
  ["osc_bundle_s_nformat", "osc_bundle_u_nformat", "osc_message_s_nformat", "osc_atom_u_nformat", "osc_atom_s_nformat", "osc_bundle_u_nserialize", "osc_timetag_nformat"])

p("C11", "Flatten and explode preserve every leaf and are inverse to each other",
  "Exploding a bundle at a separator turns each address into nested bundles along its path, down to the requested number of levels, and flattening joins nested addresses with the separator; each keeps every leaf message's full path, arguments and order within its group, loses and invents none, and leaves the input unchanged. Flattening a fully exploded bundle with distinct addresses gives back the same set of messages. When dropping of emptied enclosing messages is requested, messages without arguments are dropped.",
  ["inputs"], "every bundle with shared and unshared address prefixes in which no address repeats, is a path prefix of another, or holds pattern characters; any depth limit, serialized and unserialized form",
  "the explode test only checks that a program on one bundle exits 0.",
  ["osc_bundle_s.c", "osc_bundle_u.c", "osc_message_u.c"],
  ["osc_bundle_s_flatten", "osc_bundle_s_explode", "osc_bundle_u_flatten", "osc_bundle_u_explode"])

p("C12", "Dispatch and query partition a bundle without losing or duplicating messages",
  "Dispatching a bundle to registered selectors, or querying it with selectors, hands each selector exactly the messages that match it completely and exactly those whose matching goes on beneath it, each once, in bundle order and with its arguments intact (its address shortened by the matched part of a partial match if stripping is requested), and delegates precisely the messages that no selector matched. The bundle itself is unchanged.",
  ["inputs", "histories"], "every bundle, every set of distinct selectors, with and without stripping, and after any history of adding, rebinding and renaming selectors",
  "no test dispatches or queries.",
  ["osc_dispatch.c", "osc_query.c", "osc_rset.c", "osc_vtable.c", "osc_match.c"],
  ["osc_dispatch", "osc_dispatch_selectors", "osc_query_select", "osc_rset_select", "osc_vtable_call", "osc_vtable_addEntry"])

p("C13", "Container types behave like the map, list and array they implement",
  "Under any history of operations, hash tables return for each key the value last stored (or, for a safe store, the first), and their iteration, removal, clearing and destructor calls each see every live entry exactly once; linked lists keep order, count, head, tail and nth access; arrays and atom arrays keep their length and elements through get, copy, copy-into at an offset and resize, and convert element-wise to typed C arrays and (without characters of value 0) joined strings.",
  ["histories"], "every sequence of container operations, including duplicate keys, colliding slots, missing keys, empty containers, and out-of-range indices (elements of an atom array are cleared by the caller before it is shrunk)",
  "the containers are only used indirectly by the tests.",
  ["osc_hashtab.c", "osc_linkedlist.c", "osc_array.c", "osc_atom_array_u.c", "osc_atom_array_s.c"],
  ["osc_hashtab_store", "osc_hashtab_lookup", "osc_hashtab_remove", "osc_linkedlist_popNth", "osc_array_resize", "osc_array_copyInto", "osc_atom_array_u_copyInto", "osc_atom_array_u_getStringArray"])

p("C14", "Time tag arithmetic, ordering and encodings are exact NTP arithmetic",
  "Time tags behave as 64-bit NTP fixed-point numbers: comparison is their numeric order, addition is exact 64-bit arithmetic and the difference the exact 64-bit magnitude |a-b|, conversion to and from seconds as a double round-trips to within one unit of the 32-bit fraction or the precision of a double, whichever is coarser, header encoding round-trips bit for bit, 'immediate' means exactly the value 1. The ISO 8601 text of a time tag denotes its UTC date and time, and parsing it gives back the same second and fraction to the printed precision, whatever UTC offset or fraction is written.",
  ["inputs"], "every 64-bit time tag including fraction carries and borrows and dates from 1900 to 2036, and every valid ISO 8601 spelling accepted by the text parsers",
  "no test touches a time tag value.",
  ["osc_timetag.c", "osc_strfmt.c", "contrib/strptime.c"],
  ["osc_timetag_add", "osc_timetag_subtract", "osc_timetag_compare", "osc_timetag_nformat", "osc_timetag_fromISO8601", "osc_timetag_floatToTimetag"])

p("C15", "Expression operators compute what the expression language defines",
  "Evaluating an expression built from literals, addresses, parentheses, lists and the arithmetic, comparison, logical, ternary and increment operators gives the value and type of the language definition: its precedence and associativity, numeric promotion to the wider operand type, truncating integer division, floored modulo, element-wise application with a single value extended over a list and otherwise cut to the shorter list, string concatenation and comparison, lazily selected branches.",
  ["programs", "inputs"], "every operator expression over every operand type and list length, and every bundle its addresses refer to",
  "the expression table has about 30 expressions, nearly all on 32-bit integers with one or two operators.",
  ["osc_expr.c", "osc_expr_parser.y", "osc_expr_scanner.l", "osc_typetag.c"],
  ["osc_expr_eval", "osc_expr_add", "osc_expr_subtract", "osc_expr_multiply", "osc_expr_divide", "osc_expr_mod", "osc_expr_parser_parseExpr"])

p("C16", "Expression library functions compute their documented results",
  "Every documented vector, aggregate, statistical, mathematical, string, sequence, scaling and cast function of the expression language returns, for arguments in its domain, the result its documentation describes: element-wise functions apply to each element, aggregates see every element once, sorting and reversing permute, sequence generators give the stated first, last and step, string functions act on whole strings.",
  ["programs", "inputs"], "every function of the table, every argument type it accepts, list lengths from one up, negative, fractional and equal values",
  "the table of expressions in the tests calls none of these functions.",
  ["osc_expr.c", "osc_expr_func.h"],
  ["osc_expr_lookupFunction", "osc_expr_eval"])

p("C17", "Expressions change exactly the addresses they assign, and nothing on failure",
  "Running a program of expressions against a bundle changes exactly the addresses it assigns (plain, compound, indexed, incremented, deleted or nil-coalesced), in program order, to the value the right-hand side had at that point; every other message stays byte-for-byte as it was and in place, new addresses are appended, and the result is a well-formed bundle. An expression that fails to evaluate reports an error and the assignment that needed its value does not happen: nothing changes but what inner assignments had already completed.",
  ["programs", "histories"], "every sequence of assignments, reads, deletes and failing expressions over every bundle",
  "the tests compare only that expected lines occur somewhere in the output of one or two assignments; failures are not tested.",
  ["osc_expr.c", "osc_expr_parser.y", "osc_bundle_s.c"],
  ["osc_expr_eval", "osc_expr_evalInLexEnv", "osc_expr_specFunc_assign", "osc_expr_specFunc_assigntoindex", "osc_bundle_s_replaceMessage"])

p("C18", "Lambdas, map, reduce, apply, if, quoting and bundle literals follow the language",
  "Applying a lambda binds its parameters to the argument values in a fresh scope that is gone afterwards, map applies a function to each element (of several lists in step), left and right reduce fold in their stated order, apply and eval run the same code a direct call would (eval gives 0, or a non-zero number when the text does not parse or evaluate), tokenize and quote give the text's tokens and the text, if/ternary/logical operators evaluate only the selected operands, nested bundles and member access give the enclosed values, and a function is never stored in a bundle.",
  ["programs"], "every nesting of lambdas, higher-order functions, conditionals with side effects, bundle literals and member accesses",
  "no test uses a lambda, map, reduce, apply, eval or a bundle literal.",
  ["osc_expr.c", "osc_expr_parser.y", "osc_expr_rec.c"],
  ["osc_expr_specFunc_apply", "osc_expr_specFunc_map", "osc_expr_specFunc_lreduce", "osc_expr_specFunc_if", "osc_expr_parser_parseFunction", "osc_expr_evalInLexEnv"])

p("C19", "Any expression or bundle text is parsed or rejected without memory errors",
  "Parsing an arbitrary text as expressions or as bundle text, and evaluating whatever parsed, returns normally without reading or writing out of bounds, using freed memory, or invoking undefined behaviour; text with a syntax error is reported as an error with no result to free. Parsing and evaluating the same text again gives the same result.",
  ["inputs", "programs"], "all texts: random token sequences, mutations of valid programs, every truncation, deep nesting, long strings, escapes and comments",
  "the tests parse about 30 valid expressions and no invalid one.",
  ["osc_expr_parser.y", "osc_expr_scanner.l", "osc_parser.y", "osc_scanner.l", "osc_expr.c"],
  ["osc_expr_parser_parseExpr", "osc_expr_eval", "osc_parser_parseString", "osc_expr_free"])

p("C20", "Everything the library allocates goes through its allocator and can be released",
  "With any conforming allocator installed, each object obtained from the API is released completely by its matching free function: after a caller frees what it owns, no block obtained through the installed allocator remains, nothing is freed twice, and no block from another allocator is passed to it. Objects handed over to another object are freed with it.",
  ["histories", "inputs"], "every use of the constructors, copies, conversions, edits, set operations, formatting, parsing and successful evaluation, on any content",
  "the tests install no allocator and check no leak.",
  ["osc_mem.c", "osc_bundle_u.c", "osc_message_u.c", "osc_atom_u.c", "osc_bundle_s.c", "osc_expr.c", "osc_vtable.c", "osc_rset.c"],
  ["osc_set_mem", "osc_mem_alloc", "osc_mem_free", "osc_bundle_u_free", "osc_message_u_free", "osc_atom_u_free", "osc_bundle_s_deepFree", "osc_expr_free"])

p("C21", "Threads working on different objects never interfere",
  "Threads that each work on their own bundles, messages, parsers, expressions and containers, or only read a shared bundle or a shared compiled expression, run without data races, and each gets exactly the results it would get alone.",
  ["schedules"], "every interleaving of API calls by several threads on disjoint or read-only shared objects",
  "no test uses more than one thread.",
  ["osc_expr.c", "osc_expr_parser.y", "osc_parser.y", "osc_timetag.c", "osc_match.c", "osc_bundle_s.c", "osc_bundle_u.c", "osc_strfmt.c"],
  ["osc_expr_parser_parseExpr", "osc_expr_eval", "osc_parser_parseString", "osc_bundle_s_format", "osc_timetag_nformat", "osc_match"])
p("C22", "The function catalogue tells the truth about the language",
  "Listing a category, or a pattern of categories, gives exactly the functions filed under matching categories, in catalogue order; every listed function is found under its exact name and no other name is found; each function's documentation names it, its categories, its signature (a text the parser accepts), its arguments, and the numbers of arguments the parser accepts; a function record, and a copy of one, hold exactly what was put into them. Names and patterns may have any length.",
  ["inputs"], "every function, every number of arguments, every category pattern, every misspelt name, every record",
  "no test reads the catalogue or the documentation of a function.",
  ["osc_expr.c", "osc_expr_rec.c", "osc_expr_func.h", "osc_expr_parser.y"],
  ["osc_expr_getCategories", "osc_expr_getFunctionsForCategory", "osc_expr_getDocForFunction", "osc_expr_lookupFunction", "osc_expr_formatTypes", "osc_expr_rec_copy"])

p("C23", "A compiled program has its text's structure; copies and rebuilds mean the same",
  "Compiling a text gives one expression per statement whose functions and arguments are those of the text, nested by the language's precedence and associativity; the accessors expose all of it with right argument counts; printing gives its whole S-expression with its true length, however long; a copy, and an expression assembled from the same parts through the constructors, have the same structure, print the same, evaluate to the same result and bundle, and stay valid after the original is freed.",
  ["programs"], "all programs, of any size and nesting",
  "no test prints, inspects, copies or assembles an expression.",
  ["osc_expr.c", "osc_expr_rec.c", "osc_expr_parser.y"],
  ["osc_expr_parser_parseExpr", "osc_expr_format", "osc_expr_copy", "osc_expr_copyAllLinked", "osc_expr_arg_copy", "osc_expr_appendArg", "osc_expr_getArgCount"])

p("C24", "Nothing the library does or returns depends on memory nobody wrote",
  "Whatever well-formed bundles, messages, atoms, texts and expressions the library is given, and whatever hostile packets it is asked to check, no decision it takes, no memory it accesses or releases and no byte of the bundles, texts and values it returns depends on memory that was never written: the content of fresh blocks from the allocator, of dead stack frames, or of the bytes beyond a string or a list.",
  ["memory", "untrusted input"], "all inputs of all interfaces, for any content of fresh memory",
  "a test that passes says nothing about the content fresh memory had; no test controls it.",
  ["osc_expr.c", "osc_atom_u.c", "osc_atom_array_u.c", "osc_message_s.c", "osc_bundle_s.c", "osc_mem.c"],
  ["osc_mem_alloc", "osc_atom_u_copyInto", "osc_atom_array_u_resize", "osc_message_array_u_alloc", "osc_expr_sort"])
p("C25", "Every failed parse or evaluation is reported to the handler and says what failed",
  "Whenever parsing an expression or a function, or evaluating one, returns an error, the handler installed with osc_error_setHandler has been called at least once before the call returned, with the context the caller gave, and with a terminated text of at most 4095 bytes that has the description of an error code; a longer report is cut, never overrun. The report of a syntax error shows the whole text with a mark where it failed; an unknown function, a function with the wrong number of arguments (with how many it takes and got), an unbound address (with the function that needed it), and the operands that an arithmetic operator refuses are named in it. Nothing in the text of a program, in an address or in a string is taken for a conversion. A successful parse reports nothing, and neither does the successful evaluation of a program that cannot recover from an error. Without a handler nothing is written; the default one writes to stderr; a new handler replaces the old one at once.",
  ["error reporting", "expression language", "interface"], "all texts, programs, bundles and handlers",
  "a test looks at the result of a few expressions that fail; whether every path to a failure reports, and what, depends on the program.",
  ["osc_error.c", "osc_error.h", "osc_expr.c", "osc_expr_parser.y", "osc_expr_scanner.l"],
  ["osc_error_handler", "osc_error_setHandler", "osc_error_string", "osc_expr_error", "osc_expr_err_unbound", "osc_expr_err_badInfixArg", "osc_expr_parser_reportUnknownFunctionError"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
