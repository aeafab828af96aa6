"""Text of the properties.  tools/gen.py turns this into properties.jsonl and MANIFEST.json."""

def P(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}

PROPS = [
P("P01", "A trie is an ordered map under every history of edits",
  "After any sequence of insertions, erasures, bulk assignments, copies, moves, swaps and clears, failed insertions included, a trie answers every lookup, membership, size, prefix search and ordered traversal exactly as a map from the strings stored to their values would. This holds for both trie kinds and every supported label width, whatever the keys share as prefixes. In the trie kind whose positions are promised to stay valid, a position obtained before an insertion of another string still denotes the same string afterwards.",
  ["histories", "inputs"], "Every finite sequence of public operations on a trie, over every alphabet, key length and label width.",
  "The double array relocates blocks depending on the whole history of insertions and erasures; tests build a handful of fixed key sets, mostly insert-only, and rarely look at other keys after a removal.",
  ["include/wordring/trie/trie.hpp", "include/wordring/trie/trie_base.hpp", "include/wordring/trie/stable_trie_base.hpp", "include/wordring/trie/trie_heap.hpp", "include/wordring/trie/trie_construct_iterator.hpp", "include/wordring/trie/trie_iterator.hpp"],
  [("double-array allocation and relocation", "trie_heap::reserve/allocate/relocate/free"), ("insert and erase", "trie_base, stable_trie_base"), ("ordered traversal", "base_iterator begin/end/++"), ("bulk assignment of sorted strings", "trie::assign")]),
P("P02", "Saved tries reload exactly; a short or damaged read is reported",
  "What a trie or atom set writes to a stream reloads into an equal container in any later process, reading exactly the bytes that were written, so that containers saved one after another reload one after another. If the stream ends early or fails at any byte, the load reports failure through the stream and the target keeps the contents it had. A save that cannot write everything reports failure.",
  ["histories", "crash_points", "fault_sequences"], "Every container reachable by edits, every byte position at which the file is cut or the device fails, every split into short reads and writes.",
  "Tests save and load one small container through one string stream; no test cuts the stream, appends a second record or makes a device fail.",
  ["include/wordring/trie/trie.hpp", "include/wordring/trie/stable_trie_base.hpp", "include/wordring/trie/trie_base.hpp", "include/wordring/serialize/serialize_iterator.hpp", "include/wordring/string/atom.hpp"],
  [("stream operators", "operator<< and operator>> of the tries"), ("byte order", "serialize iterators"), ("assignment from stored integers", "assign(first, last) / ibegin / iend")]),
P("P03", "An edit of a trie that runs out of memory changes nothing",
  "When memory allocation fails at any point inside an insertion into a trie, the exception reaches the caller and the trie is exactly as before: same strings, same values, same size. Any operation that fails this way leaves a trie that can still be searched, changed and destroyed without corruption or leak. Erasing and looking up never lose other keys.",
  ["fault_sequences", "histories"], "Every allocation inside every operation, at any point of any history of edits, including several failures in one history.",
  "No test injects allocation failure; storage growth happens at a few sizes only, so the failing allocation depends on the history.",
  ["include/wordring/trie/trie_base.hpp", "include/wordring/trie/stable_trie_base.hpp", "include/wordring/trie/trie_heap.hpp", "include/wordring/trie/trie.hpp"],
  [("growth of the double array", "trie_heap::reserve"), ("block relocation", "trie_heap::relocate"), ("insertion path", "insert(key, value)")]),
P("P04", "Atoms and strings stay in one-to-one correspondence",
  "In an atom set, each stored string has exactly one id, each id gives back exactly its string, and ids of strings that are not stored give the empty atom. Ids do not change through insertion or erasure of other strings, copying, or saving and reloading. A failed allocation or read leaves strings and ids as they were.",
  ["histories", "fault_sequences", "crash_points"], "Every sequence of insertions, erasures, copies, restarts from saved bytes and failures.",
  "Ids are positions in a double array that other strings move in; tests look at a few ids right after insertion.",
  ["include/wordring/string/atom.hpp", "include/wordring/trie/stable_trie_base.hpp", "include/wordring/trie/trie_heap.hpp"],
  [("id to string", "basic_atom / atom_set::at"), ("string to id", "atom_set operator[] / find / insert")]),
P("P05", "A tree keeps exactly the structure its edits built",
  "After any sequence of insertions, subtree copies, moves, erasures, copies, swaps and clears, failed and refused ones included, a tree holds exactly the nodes, values, parents and sibling orders those edits describe, seen forwards, backwards, from the parents and through pre-order and level-order walks. A position handed out keeps denoting its node until that node is moved or erased, whatever happens to other nodes. A move that would put a node below itself is refused and changes nothing. The space of erased nodes is used again.",
  ["histories", "inputs"], "Every finite sequence of public tree operations, several roots included.",
  "Nodes live in one array with a free list that depends on the whole history; tests make a few fixed trees and mostly look at the edited node only.",
  ["include/wordring/tree/tree.hpp", "include/wordring/tree/tree_iterator.hpp"],
  [("linking and unlinking", "tree::link, unlink"), ("node reuse", "tree::allocate, free"), ("subtree copy, move, erase", "tree::insert, move, erase"), ("walks", "tree_node_iterator, basic_tree_iterator")]),
P("P06", "A document tree keeps exactly the structure its edits built",
  "After any sequence of insertions, moves, erasures, copies, swaps and clears, failed and refused ones included, a document tree holds exactly the elements and texts in the places those edits describe; every element has one start and one end position that belong together and nest properly, and text nodes have no children. Walking nodes, tags or text characters forwards and backwards meets document order exactly. A position handed out keeps denoting its node until that node is erased; a move of an element below itself is refused. The space of erased nodes is used again.",
  ["histories", "inputs"], "Every finite sequence of public document-tree operations.",
  "Start and end tags are links in one list whose cells are reused; tests make small fixed documents and never mix moves, erasures and reuse.",
  ["include/wordring/tag_tree/tag_tree.hpp", "include/wordring/tag_tree/tag_tree_iterator.hpp", "include/wordring/tag_tree/serial_iterator.hpp", "include/wordring/tag_tree/character_iterator.hpp"],
  [("start and end tag links", "tag_tree::insert, move, erase"), ("cell reuse", "tag_tree::allocate, free"), ("walks", "tag_tree_iterator, serial_iterator, character_iterator")]),
P("P07", "Tree edits that run out of memory leave the tree as it was",
  "When memory allocation fails at any point inside an insertion, a subtree copy or a copy of a whole tree, the exception reaches the caller and the tree is exactly as before, with no leaked or half-inserted nodes. Moving and erasing never fail for lack of memory. All later operations behave as on a tree that never met the failure.",
  ["fault_sequences", "histories"], "Every allocation inside every tree operation at any point of any history, for both tree kinds.",
  "No test injects allocation failure.",
  ["include/wordring/tree/tree.hpp", "include/wordring/tag_tree/tag_tree.hpp"],
  [("node allocation", "tree::allocate, tag_tree::allocate"), ("subtree copy", "tree::insert(pos, sub)"), ("paired tags", "tag_tree::insert")]),
P("P08", "Decoding gives the same text however the bytes arrive",
  "For every encoding, feeding bytes to a decoder in pieces of any size gives exactly the text that the Encoding Standard prescribes for the whole byte string: every malformed sequence becomes U+FFFD, or stops the decoder at that point in fatal mode, the bytes after it that belong to valid text are kept, and input that ends in the middle of a sequence is reported once. Nothing is emitted before it is decided, nothing decided is held back, and the end of the output appears exactly when the input has ended. Decoders in use at the same time do not influence one another. The decode functions for complete inputs remove a byte order mark or obey it as the standard says.",
  ["inputs", "schedules", "fault_sequences"], "Every byte string, every way of cutting it into deliveries, every position at which the input ends, for all 40 encodings and both byte types.",
  "Tests decode a few well-formed samples in one delivery; malformed bytes, cuts inside a sequence and the end of input inside an escape are hardly touched.",
  ["include/wordring/whatwg/encoding/coder.hpp", "include/wordring/whatwg/encoding/encoding.hpp", "include/wordring/whatwg/encoding/terminology.hpp", "lib/whatwg/encoding/indexes_code_point.cpp"],
  [("state of each decoder between bytes", "*_decoder::run"), ("error handling", "process_item"), ("queue with end marker", "io_queue read, peek, prepend"), ("byte order mark", "bom_sniff, decode, utf8_decode")]),
P("P09", "Encoding gives the same bytes however the text arrives",
  "For every encoding with an encoder, feeding code points in pieces of any size gives exactly the bytes the Encoding Standard prescribes for the whole text; a code point the encoding cannot express is written as a decimal character reference, or, in fatal mode, reported with its number, after which the same encoder carries on with the rest of the text. Stateful encodings return to ASCII at the end of the input exactly when they must. Encoders in use at the same time do not influence one another.",
  ["inputs", "schedules", "fault_sequences"], "Every text of Unicode scalar values, every way of cutting it into deliveries, every sequence of errors and continuations.",
  "Tests encode tables in one delivery and seldom an inexpressible character; none continues after an error.",
  ["include/wordring/whatwg/encoding/coder.hpp", "include/wordring/whatwg/encoding/encoding.hpp", "include/wordring/whatwg/encoding/terminology.hpp", "lib/whatwg/encoding/indexes_pointer.cpp"],
  [("state of each encoder", "*_encoder::run"), ("error handling", "process_item, encode_or_fail"), ("pointer lookup", "get_index_pointer and its variants")]),
P("P10", "A text decoder is a correct stream across calls, errors and reuse",
  "Calling a text decoder with the streaming flag on consecutive pieces of a byte string, and finally without it, yields pieces of text whose concatenation is the decoding of the whole; a byte order mark is removed at the start of a stream only, and only if the decoder was asked to. A call without the flag ends the stream: the next call starts afresh, whatever came before, a fatal error or a failed allocation included. In fatal mode the first malformed sequence throws. A decoder is made for every label of the standard in any case and with white space around it, and refused for any other label and for those of the replacement encoding.",
  ["inputs", "schedules", "histories", "fault_sequences"], "Every sequence of calls on one object, every cut of every byte string, all encodings and flags, failing allocations in any call.",
  "Tests make one or two calls on one object with well-formed bytes.",
  ["include/wordring/whatwg/encoding/api.hpp", "include/wordring/whatwg/encoding/encoding.hpp", "include/wordring/whatwg/encoding/coder.hpp", "include/wordring/whatwg/encoding/terminology.hpp"],
  [("flush and stream state", "text_decoder::decode"), ("byte order mark state", "serialize_io_queue"), ("labels", "get_encoding_name, get_encoding_label")]),
P("P11", "The HTML tokenizer gives the same tokens however the text arrives",
  "For every sequence of code points, pushed one at a time with any pauses and followed by the end of the input, the tokenizer emits exactly the tokens the HTML Standard prescribes for the whole text, in order: character references, raw text, script data and comments included, with attributes, self-closing flags and quirks flags. No token is emitted before it is decided or held back after that, nothing is lost or doubled at the end of the input, and the end-of-file token comes exactly once. Tokenizers in use at the same time do not influence one another, and one that was abandoned in any state, because its consumer threw or memory ran out, is as good as new after clear(). (CDATA sections are recognised in HTML content and are bogus comments in foreign content: the repository's own tests require it.)",
  ["inputs", "schedules", "histories", "fault_sequences"], "Every text, every position at which it ends, every state the tokenizer is in when it is abandoned and used again.",
  "Tests feed short well-formed samples to the end; look-ahead across pauses, input that ends inside a construct and reuse after failure are hardly touched.",
  ["include/wordring/whatwg/html/parsing/tokenization.hpp", "include/wordring/whatwg/html/parsing/input_stream.hpp", "include/wordring/whatwg/html/parsing/token.hpp"],
  [("states between code points", "tokenization::on_*_state"), ("look-ahead", "input_stream::match, match_named_character_reference"), ("CR LF and end of input", "input_stream::push_code_point, push_eof"), ("reuse", "tokenization::clear")]),
P("P12", "The HTML parser builds the standard's document however the text arrives",
  "For every text, pushed in pieces of any size while other parsers are in use, the finished document is exactly the tree that the HTML Standard's tree construction (scripting off) prescribes: elements with namespaces, names and attributes, texts, comments and document type in their places, foster parenting, adoption agency, template, table, select, frameset and foreign-content rules included, and the document's quirks mode. The parser ends for every text without failing an assertion. It holds for the plain tree and the document tree and for all string types. (Left open where editions of the standard differ: br and p end tags in foreign content.)",
  ["inputs", "schedules", "histories"], "Every text, every way of cutting it into deliveries, every position at which it ends.",
  "Tests parse sample pages of the standard; mis-nested markup, which is where the algorithm has its state, is not covered.",
  ["include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp", "include/wordring/html/simple_parser.hpp", "include/wordring/html/simple_node.hpp", "include/wordring/html/simple_traits.hpp"],
  [("insertion modes", "tree_construction_dispatcher::on_*_insertion_mode"), ("stack of open elements", "pop_until, in_scope, clear_stack_back_to_*"), ("active formatting elements", "reconstruct_formatting_element_list, call_adoption_agency_algorithm"), ("insertion place", "appropriate_place_for_inserting_node")]),
P("P13", "A parser that was abandoned or ran out of memory is as good as new after clear()",
  "A parser may be abandoned after any code point, or an allocation may fail anywhere inside it, inside clear() too. The exception reaches the caller, the partial document can still be walked and destroyed, nothing leaks, and after a completed clear() the parser gives for any next text exactly the document a new parser gives.",
  ["histories", "fault_sequences"], "Every point at which a document is abandoned, every allocation inside parsing and clearing, every sequence of documents on one parser.",
  "No test uses a parser twice or makes an allocation fail.",
  ["include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp", "include/wordring/whatwg/html/parsing/tokenization.hpp", "include/wordring/whatwg/html/parsing/input_stream.hpp", "include/wordring/html/simple_parser.hpp"],
  [("reset of every state", "tree_construction_dispatcher::clear, tokenization::clear, input_stream::clear"), ("reset of the document", "simple_parser_base::clear")]),
P("P14", "A document read from bytes is read in the encoding it declares",
  "Parsing bytes, 16-bit units or code points to the end gives the document of the decoded text, its tail included. While the encoding is tentative, the first meta element that declares a usable encoding (charset, or http-equiv content-type with content) decides: the document is read again from the start in that encoding, UTF-16 meaning UTF-8 and x-user-defined meaning windows-1252, and the encoding is certain from then on; a document read as UTF-16 and a certain encoding are never changed, and an encoding never given is UTF-8. Every label of the standard names its encoding. Reading ends after at most one restart and leaves nothing of the abandoned reading in the document. A reader can be cleared and used again, also after an allocation failed in it.",
  ["inputs", "histories", "fault_sequences"], "Every byte string in every first encoding and confidence, declarations anywhere, every sequence of documents on one reader.",
  "Tests read two documents whose encoding is right from the start.",
  ["include/wordring/html/simple_parser.hpp", "include/wordring/html/simple_html.hpp", "include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp", "include/wordring/whatwg/html/url.hpp", "lib/whatwg/encoding/encoding.cpp"],
  [("restart", "basic_simple_parser::parse, on_change_encoding"), ("decision", "tree_construction_dispatcher::change_encoding, meta in the in-head mode"), ("declaration", "extract_character_encoding_from_meta_element"), ("one call", "make_document")]),
P("P15", "The markup of a document follows every edit",
  "After any history of edits of a document (nodes of every kind inserted, moved, copied and erased, attributes and texts changed), writing a node or what it contains, and walking it serially, gives exactly the markup the HTML standard's serialisation gives for the structure the edits built: void elements without content or end tag, raw text where the parent asks for it, escapes in texts and attribute values, qualified names in foreign namespaces. It is the same in UTF-8, UTF-16 and UTF-32. An output that fails or memory that runs out while writing is reported and leaves the document as it was.",
  ["histories", "inputs", "fault_sequences"], "Every sequence of edits of documents, every node, every character, every point at which the output or the memory fails.",
  "Tests serialise a few parsed documents; no test serialises an edited one or lets the output fail.",
  ["include/wordring/whatwg/html/parsing/serializing.hpp", "include/wordring/html/simple_node.hpp", "include/wordring/html/simple_traits.hpp", "include/wordring/tag_tree/serial_iterator.hpp", "include/wordring/whatwg/html/html_atom.hpp", "include/wordring/whatwg/html/syntax/syntax.hpp"],
  [("serialisation", "to_string, detail functions of serializing.hpp"), ("attributes", "simple_element: insert, erase, find, set_attribute"), ("start and end tags", "tag_tree_serial_iterator, is_single")]),
P("P16", "A selector finds exactly the matching elements of a document as it is now",
  "After any history of edits of a document, and in its current mode, query_selector_all gives exactly the elements below the node asked that match the selector, in document order and each once, and query_selector the first of them or nothing: type, universal, id, class and attribute selectors (all operators, the i and s modifiers), compounds, all combinators and lists, matched against the whole ancestor and sibling chain. Ids and classes ignore ASCII case in quirks mode only. White space, comments and escapes in the selector, and its encoding, do not matter. An invalid selector finds nothing. Asking changes nothing, also when memory runs out in it.",
  ["histories", "inputs", "fault_sequences"], "Every sequence of edits, every document and node, every selector built of the supported parts in any spelling.",
  "Tests ask a few selectors of fixed documents.",
  ["include/wordring/css/selector.hpp", "include/wordring/wwwc/selectors/grammar.hpp", "lib/wwwc/selectors/grammar.cpp", "include/wordring/wwwc/selectors/api.hpp", "include/wordring/whatwg/dom/infrastructure.hpp", "include/wordring/wwwc/css_syntax/tokenization.hpp"],
  [("matching", "match functions of grammar.hpp"), ("parsing", "parse functions of grammar.cpp"), ("scope", "scope_match"), ("entry", "query_selector, query_selector_all")]),
P("P17", "A URL is the standard's URL after every history of edits",
  "Reading a text, alone or against a base URL, gives the URL of the URL standard or is refused with an error (hosts as names, IPv4 and IPv6 addresses included; a document's encoding is used for the query). After any sequence of edits through href, protocol, username, password, host, hostname, port, pathname, search and hash, with good or bad values, every part and the whole text are what the standard's setters give; an edit the standard refuses changes nothing. What is written reads back as the same URL. Copies are independent. Memory that runs out is reported, leaves the parts not being edited (for href: everything) as they were, and the edit can be repeated.",
  ["histories", "inputs", "fault_sequences"], "Every text, base and encoding, every sequence of edits with any values, every failing allocation.",
  "Tests read a few URLs and set each part once.",
  ["include/wordring/whatwg/url/api.hpp", "include/wordring/whatwg/url/url.hpp", "lib/whatwg/url/url.cpp", "lib/whatwg/url/host.cpp", "include/wordring/whatwg/url/host.hpp", "include/wordring/whatwg/url/infra.hpp"],
  [("edits", "basic_url setters"), ("states", "basic_url_parser::on_*_state"), ("hosts", "parse_host, parse_ipv4, parse_ipv6, serialize_host"), ("writing", "serialize_url"), ("encoding", "percent_encode_after_encoding and the percent-encode sets")]),
P("P18", "A static_vector is a vector of bounded size under every history",
  "After any sequence of insertions (also of its own elements), erasures, assignments, resizes, swaps and copies that fits its capacity, a static_vector holds exactly the elements a std::vector would, in order, by index, through forward and backward iterators and in comparisons; operations return the position they changed; at() outside the elements throws. An element operation that runs out of memory is reported, the vector stays valid, and push_back leaves it as it was.",
  ["histories", "fault_sequences"], "Every sequence of operations, element types that can fail, capacities that are used up.",
  "Tests apply one operation to one fixed vector of integers.",
  ["include/wordring/static_vector/static_vector.hpp"],
  [("operations", "static_vector"), ("iterators", "static_vector_iterator")]),
P("P19", "A pushed-to matcher decides as soon as the text does",
  "Fed one character at a time, a string_matcher says succeed exactly when the characters since the last clear() are one of its strings, partial while they are a proper beginning of one, failed otherwise; it holds exactly those characters; after clear(), a copy or a push that ran out of memory it goes on as if nothing had happened. Matchers are independent of one another.",
  ["histories", "fault_sequences"], "Every set of strings, every sequence of characters and clears, interleaved matchers.",
  "Tests push four short words.",
  ["include/wordring/string/matcher.hpp"],
  [("decision", "string_matcher::push_back"), ("restart", "string_matcher::clear")]),
P("P20", "A style sheet's text is cut into the standard's tokens",
  "For every sequence of code points, CSS tokenization gives exactly the tokens of CSS Syntax Level 3 (the edition before nesting), in order, with their values, flags, units and numbers: newlines, NULs and surrogates replaced first, comments skipped, escapes read in names, strings, hashes and urls, numbers of any length, bad strings and bad urls recovered from, and every construct cut off by the end of the text still ended. The result does not depend on whether the text is given whole, as a list or asked for token by token, or on an error handler, which is only told positions inside the text. Tokenization always ends, never reads outside the text, and tokens are values that keep what they hold. Memory that runs out is reported and the tokens delivered until then stay right.",
  ["inputs", "fault_sequences"], "Every text, every position at which it ends, every failing allocation.",
  "Tests tokenize one well-formed construct each; none ends the text inside a construct.",
  ["include/wordring/wwwc/css_syntax/tokenization.hpp", "include/wordring/wwwc/css_syntax/token.hpp", "include/wordring/wwwc/css_syntax/input_stream.hpp"],
  [("tokens", "consume_token and what it calls"), ("look-ahead", "starts_with_valid_escape, starts_with_identifier, starts_with_number"), ("numbers", "consume_number, convert_string_to_number"), ("preprocessing", "filter_code_points")]),
P("P21", "Style sheets are parsed into the standard's rules, blocks and declarations",
  "For every text, token list or list of component values, the entry points of CSS Syntax Level 3 (style sheet, list of rules, rule, declaration, list of declarations, component value, list and comma-separated list of component values) give exactly the structure the standard gives, or fail exactly where it fails: blocks and functions nested and closed by their own brackets or the end of the input, rules and declarations recovered after errors, !important recognised in any spelling. A style sheet of bytes is read in the encoding its byte order mark, the caller or its @charset decides. What is parsed is a value: copies and assignments of it equal it and are independent, also when memory runs out while making them.",
  ["inputs", "histories", "fault_sequences"], "Every text and every entry point, parsing of what was parsed before, sequences of copies and assignments, every failing allocation.",
  "Tests parse one well-formed sample per entry point and copy nothing.",
  ["include/wordring/wwwc/css_syntax/parsing.hpp", "include/wordring/wwwc/css_syntax/token.hpp", "lib/wwwc/css_syntax/token.cpp", "include/wordring/wwwc/css_syntax/input_stream.hpp"],
  [("entry points", "parse_stylesheet, parse_list_of_rules, parse_rule, parse_declaration, parse_list_of_declarations, parse_component_value, parse_list_of_component_values"), ("structure", "consume_* of parsing.hpp"), ("values", "at_rule, function, simple_block, component_value, syntax_primitive"), ("encoding", "determine_fallback_encoding, decode")]),
P("P22", "The HTML tokenizer reports the standard's parse errors",
  "For every sequence of code points, pushed one at a time with any pauses and followed by the end of the input, the tokenizer reports exactly the parse errors the HTML Standard names for that text, each as often as it occurs and in the order in which it occurs: those of tags, attributes (duplicates, attributes and solidus on end tags, a solidus that tree construction does not acknowledge), comments, document types, CDATA sections, character references and NULs, and, in an order of their own, surrogates, noncharacters and control characters of the input. Well-formed text reports none. The pauses, other tokenizers and what the object was used for before clear() make no difference. (Whether an error is reported before or after the token it belongs to is left open, and so is the order of two errors of one end tag. CDATA sections are recognised where P11 says.)",
  ["inputs", "schedules", "histories", "fault_sequences"], "Every text, every position at which it ends, every state the tokenizer is in when it is abandoned and used again.",
  "Tests do not look at errors.",
  ["include/wordring/whatwg/html/parsing/tokenization.hpp", "include/wordring/whatwg/html/parsing/input_stream.hpp", "include/wordring/whatwg/html/parsing/parser_defs.hpp"],
  [("errors", "report_error, on_report_error"), ("attributes", "unify_attribute"), ("tags", "emit_token"), ("input stream", "push_code_point")]),
]

NOT_APPLICABLE = []
