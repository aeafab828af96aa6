"""Which binary decides which property, and how much is explored."""

ENC = ["lib/whatwg/encoding/encoding.cpp", "lib/whatwg/encoding/indexes_code_point.cpp", "lib/whatwg/encoding/indexes_pointer.cpp"]
ATOM = [("lib/whatwg/html/parsing/atom_tbl.cpp", "-O0 -fno-sanitize=address")]

CSS = ["lib/wwwc/css_syntax/token.cpp", "lib/wwwc/selectors/grammar.cpp"]

URL = ["lib/whatwg/url/host.cpp", "lib/whatwg/url/url.cpp"]

BINARIES = {
    "trie": {"src": ["worlds/trie.cpp"]},
    "trie_disk": {"src": ["worlds/trie_disk.cpp"]},
    "atom": {"src": ["worlds/atom.cpp"]},
    "codec": {"src": ["worlds/codec.cpp", "ref/enc_tables.cpp"], "repo": ENC},
    "html_tok": {"src": ["worlds/html_tok.cpp"], "repo": ENC + ATOM},
    "html_parse": {"src": ["worlds/html_parse.cpp", "worlds/html_tok.cpp", "ref/enc_tables.cpp"] + [("worlds/html_kind.cpp", "-DKIND=%d" % k) for k in (0, 1, 2, 3, 4, 10, 11, 12, 13)], "repo": ENC + ATOM},
    "doc": {"src": ["worlds/doc.cpp"], "repo": ENC + ATOM},
    "select": {"src": ["worlds/select.cpp"], "repo": ENC + ATOM + CSS},
    "url": {"src": ["worlds/url.cpp", "ref/enc_tables.cpp"], "repo": ENC + URL, "libs": "-licuuc"},
    "css": {"src": ["worlds/css.cpp"], "repo": ENC + ["lib/wwwc/css_syntax/token.cpp"]},
    "small": {"src": ["worlds/small.cpp"]},
    "tree": {"src": ["worlds/tree.cpp"], "repo": ENC + ATOM},
}

TRIE_REAL = ["trie, stable_trie, double-array storage, trie iterators, serialize iterators (all of include/wordring/trie, serialize, static_vector)"]

PROPERTIES = {
    "P01": dict(binary="trie", quick=60000, thorough=6000000,
                rule="Worlds alternate between 8-, 16-, 32- and 64-bit labels and both trie kinds; alphabets, key lengths and lengths of histories vary per run.",
                states="digest of the whole key-value contents after every step",
                real=TRIE_REAL, stub=["none: the caller is simulated"]),
    "P02": dict(binary="trie_disk", quick=40000, thorough=4000000,
                rule="Containers are changed, saved one after another in one file, the machine crashes, files are loaded through short reads.",
                states="digest of contents, number of acknowledged records, torn tail or not",
                real=TRIE_REAL + ["stream operators"], stub=["disk and stream buffers (sim/disk.hpp)"]),
    "P03": dict(binary="trie", quick=60000, thorough=6000000,
                rule="As P01; in steps with faults allowed a chosen allocation of the operation fails.",
                states="digest of the whole key-value contents after every step",
                real=TRIE_REAL, stub=["allocator (replaced operator new)"]),
    "P04": dict(binary="atom", quick=60000, thorough=6000000,
                rule="Interleaves insertion, erasure by id and by string, copies, restarts from saved bytes, failing allocations and failing reads.",
                states="digest of the string-id table after every step",
                real=TRIE_REAL + ["atom_set, atom"], stub=["disk and stream buffers (sim/disk.hpp)", "allocator (replaced operator new)"]),
    "P05": dict(binary="tree", quick=20000, thorough=6000000,
                rule="Histories of insertion, subtree copy, move (illegal moves included), erasure, copy, swap and clear; positions handed out are kept and checked after every later step.",
                states="digest of the whole tree after every step",
                real=["tree, tree_node_iterator, pre- and level-order iterators"], stub=["none: the caller is simulated"]),
    "P06": dict(binary="tree", quick=15000, thorough=6000000,
                rule="As P05 on the document tree, with texts and elements; serial and character walks are compared in both directions.",
                states="digest of the whole tree after every step",
                real=["tag_tree, its node, serial and character iterators, simple_node"], stub=["none: the caller is simulated"]),
    "P07": dict(binary="tree", quick=20000, thorough=6000000,
                rule="As P05 and P06; in steps with faults allowed a chosen allocation of the operation fails.",
                states="digest of the whole tree after every step",
                real=["tree, tag_tree and their iterators"], stub=["allocator (replaced operator new)"]),
    "P08": dict(binary="codec", quick=30000, thorough=3000000,
                rule="Several decoding sessions interleaved; bytes are damaged, cut and delivered in pieces of any size; both byte types; all 40 encodings.",
                states="digest of the decoded text per session after every delivery",
                real=["encoding: coder, encoding, terminology, indexes"], stub=["the byte source is simulated"]),
    "P09": dict(binary="codec", quick=30000, thorough=3000000,
                rule="Several encoding sessions interleaved; text is delivered in pieces; inexpressible characters are inserted; encoders continue after each error.",
                states="digest of the encoded bytes per session after every delivery",
                real=["encoding: coder, encoding, terminology, indexes"], stub=["the text source is simulated"]),
    "P10": dict(binary="codec", quick=30000, thorough=3000000,
                rule="Several text_decoder objects, streams cut anywhere, flushes, fatal errors in mid-stream, failing allocations, reuse of the same object.",
                states="digest of the text per call",
                real=["encoding: api (text_decoder), coder, encoding, terminology, indexes"], stub=["the byte source is simulated", "allocator (replaced operator new)"]),
    "P11": dict(binary="html_tok", quick=150000, thorough=3000000,
                rule="Several tokenizer sessions interleaved, one code point at a time; texts are cut and damaged; sessions are abandoned (no more input, a consumer that throws, a failing allocation) and the object is used again after clear().",
                states="digest of the text, position reached and number of tokens",
                real=["html/parsing: tokenization, input_stream, token, atom tables"], stub=["tree construction (switches the tokenizer's state by tag name)", "allocator (replaced operator new)"]),
    "P12": dict(binary="html_parse", quick=120000, thorough=2000000,
                rule="Several parser sessions interleaved, text delivered in pieces, cut and damaged; five document containers.",
                states="digest of the finished document and of the insertion modes it passed",
                real=["html/parsing: tree_construction_dispatcher, tokenization, input_stream, token, atom tables", "html: simple_parser, simple_node, simple_traits", "tag_tree, tree"], stub=["the text source is simulated"]),
    "P13": dict(binary="html_parse", quick=60000, thorough=3000000,
                rule="Parser objects are abandoned at any code point, run out of memory, are cleared (which may run out of memory too) and used again; five document containers.",
                states="digest of the finished document and of the insertion modes it passed",
                real=["html/parsing: tree_construction_dispatcher, tokenization, input_stream", "html: simple_parser, simple_node", "tag_tree, tree"], stub=["the allocator fails on command", "the text source is simulated"]),
    "P14": dict(binary="html_parse", quick=60000, thorough=3000000,
                rule="Byte strings in 40 encodings, damaged and cut, with declarations anywhere; parser objects reused; four kinds of source; failing allocations in mid-parse.",
                states="digest of the finished document and its final encoding",
                real=["html: basic_simple_parser, make_document", "html/parsing: change_encoding, extract_character_encoding_from_meta_element and everything behind P12", "encoding: text_decoder and all decoders"], stub=["the byte source is simulated"]),
    "P15": dict(binary="doc", quick=40000, thorough=3000000,
                rule="Documents are edited (nodes of every kind, attributes, texts, copies, moves, erasures); after every step the markup of some nodes is written, in UTF-8, UTF-16 and UTF-32, to outputs which may fail; four document containers.",
                states="digest of the markup of all top nodes after every step",
                real=["html/parsing: serializing, html/syntax, html_atom, atom tables", "html: simple_node, simple_traits", "tag_tree, tree", "encoding: encoding_cast, to_string"], stub=["the output (may be full)", "allocator (replaced operator new)"]),
    "P16": dict(binary="select", quick=40000, thorough=2000000,
                rule="Documents are edited as in P15 and change their mode; between edits selectors, written in many ways, are asked from any node, in UTF-8, UTF-16 and UTF-32, while memory may run out; three document containers.",
                states="digest of the markup of all top nodes after every step",
                real=["css: query_selector, query_selector_all", "wwwc: css_syntax, selectors", "dom: scope_match", "html: simple_node, simple_traits", "tag_tree, tree"], stub=["allocator (replaced operator new)"]),
    "P17": dict(binary="url", quick=60000, thorough=6000000,
                rule="URLs are read, resolved against one another, copied and edited through every setter with good, bad and damaged values, while memory may run out; three string types, 40 document encodings.",
                states="digest of the serialised URLs",
                real=["whatwg/url: api, url, host, infra", "encoding: encoders behind percent-encoding", "ICU (IDNA)"], stub=["allocator (replaced operator new)"]),
    "P18": dict(binary="small", quick=60000, thorough=6000000,
                rule="Two vectors of one capacity and element type under every operation, elements of the vector as arguments included; in steps with faults allowed an allocation of an element fails.",
                states="digest of the contents after every step",
                real=["static_vector and its iterators"], stub=["allocator (replaced operator new)"]),
    "P19": dict(binary="small", quick=60000, thorough=6000000,
                rule="Several matchers over one set of strings (prefixes of one another, empty, equal) are fed one character at a time, interleaved, copied and cleared.",
                states="digest of the characters fed and the result",
                real=["string_matcher"], stub=["allocator (replaced operator new)"]),
    "P20": dict(binary="css", quick=60000, thorough=6000000,
                rule="Texts made of tokens cut short, run together and escaped in every way, filtered and tokenized through strings, lists, an error handler and one token at a time; in steps with faults allowed a chosen allocation fails.",
                states="sequence of kinds of the tokens",
                real=["css_syntax: input_stream (filter), tokenization, token"], stub=["allocator (replaced operator new)"]),
    "P21": dict(binary="css", quick=40000, thorough=4000000,
                rule="Every entry point of the parser on text, tokens, component values and bytes; results are kept, copied over each other and dropped while later parses run and fail.",
                states="shape of the parsed structure",
                real=["css_syntax: input_stream, tokenization, parsing, token", "encoding decoders"], stub=["allocator (replaced operator new)"]),
    "P22": dict(binary="html_parse", quick=120000, thorough=3000000,
                rule="Runs alternate between a tokenizer as in P11 and a whole parser as in P12; the errors reported in a session are recorded and compared when its text has ended.",
                states="digest of the text, position reached and number of tokens; of the document and the insertion modes it passed",
                real=["html/parsing: tokenization, input_stream, token, tree_construction_dispatcher, atom tables", "html: simple_parser, simple_node"], stub=["in half of the runs tree construction (switches the tokenizer's state, acknowledges self-closing tags by name)", "allocator (replaced operator new)"]),
}
