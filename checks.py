"""What each check runs: harnesses per tier, bounds, assumptions."""
COMMON_ASSUMPTIONS = [
    "rustc/LLVM: the property is decided on the LLVM IR rustc emits for this tree (overflow checks on, debug assertions off; the native replay has both on; no optimisation by rustc; opt's sroa/simplifycfg/instcombine/inlining of library helpers is trusted)",
    "the regex crate is replaced by an exact DFA evaluation of the same pattern (regex-automata builds the DFA); native replays use the real crate",
    "SipHash of std's HashMap is replaced by a constant or order-changing hash; allocation never fails",
    "bounds as listed; nothing is claimed outside them",
]
TECHNIQUE = "symbolic execution of the compiled LLVM IR (own executor, z3 bit-vector queries), counterexamples replayed on the native build"
CHECKS = {}


def check(pid, **kw):
    CHECKS[pid] = kw

Q, T = 200, 3000


check(
    "C01",
    quick=["c01_again", "c01_bigpat", "c01_big", "c01_huge", "c01_ascii8", "c01_any5", "c01_tag8", "c01_ctx4", "c01_ctx5", "c01_ctxu", "c01_ctxu3", "c01_long", "c01_words", "c01_refs"],
    thorough=["c01_again", "c01_bigpat", "c01_big", "c01_huge", "c01_ctx5", "c01_ctxu3", "c01_long", "c01_words", "c01_refs", "c01_any6", "c01_any7", "c01_tag10", "c01_ascii10", "c01_ctx6", "c01_ascii12", "c01_phrases"],
    reach={"c01_any": [2], "c01_refs": [1], "c01_long": [2], "c01_tag": [1], "": [1, 2]},
    bounds="parse_str then to_string (or Display of the error): every ASCII text of <= 8 bytes (thorough 10, and 12 time-boxed); every text of <= 5 (7) arbitrary Unicode characters; '<' + <= 8 (10) ASCII bytes; <= 5 (6) arbitrary ASCII bytes, or one arbitrary Unicode character with two arbitrary ASCII neighbours, inside each of 22 constructs; long tags, comments and unsupported constructs of up to 24+42 characters with arbitrary multi-byte characters around the abbreviation limit; step limit 200M instructions per path stands for termination; documents of 300..1100 nodes, nesting to 400, contents of 4200..17000 characters and 14 repeated patterns, with one arbitrary ASCII character in them",
    level_note="a panic, overflow, out-of-range slice, abort or step-limit overrun on any path is the violation",
)
check(
    "C02",
    quick=["c02_again", "c02_big", "c02_big2", "c02_huge", "c02_ascii8", "c02_ctx4", "c02_ctx5", "c02_ctxu", "c02_ctxu2", "c02_ctxu3", "c02_doc", "c02_words"],
    thorough=["c02_again", "c02_big", "c02_big2", "c02_huge", "c02_ascii8", "c02_ctx5", "c02_ctxu", "c02_ctxu2", "c02_ctxu3", "c02_doc", "c02_words", "c02_ctx6"],
    bounds="every ASCII text of 3..8 bytes; <= 5 (thorough 6) arbitrary ASCII bytes, or one arbitrary Unicode character with two arbitrary ASCII neighbours, in each of 20 document contexts; a document with prolog, namespaces, comment and four independent windows; documents nested to 300, with 1100 children or attributes, contents of 17000 characters, one arbitrary ASCII character in them",
    level_note="comparison is done field by field by the harness and additionally by the library's equality",
)
check(
    "C03",
    quick=["c03_far", "c03_big", "c03_big2", "c03_huge", "c03_deep", "c03_verbatim", "c03_names", "c03_treeq", "c03_edit", "c03_uniq", "c03_wide", "c03_ns", "c03_uni", "c03_words", "c03_history"],
    thorough=["c03_far", "c03_big", "c03_big2", "c03_huge", "c03_deep", "c03_verbatim", "c03_names", "c03_edit", "c03_wide", "c03_ns", "c03_uni", "c03_words", "c03_tree", "c03_tree3", "c03_history2"],
    reach={"c03_verbatim": [1, 2], "c03_names": [1, 2]},
    bounds="trees of up to 4 (thorough 6, time-boxed) nodes of symbolic shape and kind, built in four ways (constructors, append, insert, append_all), with one symbolic leaf (text, attribute value, comment, CDATA, name) of <= 3 ASCII or 2 Unicode characters; long contents with an arbitrary character at the critical offsets; prefixes and namespaces over two levels; indents: tab, 0..4 spaces; the same in trees nested to 300, with 1100 children or attributes and contents of 17000 characters, one arbitrary character in them",
    level_note="oracle: the harness' own model tree compared field by field with the re-parsed document, plus library equality",
)
check(
    "C04",
    quick=["c04_again", "c04_far", "c04_big", "c04_any2", "c04_any3", "c04_any4", "c04_ascii6", "c04_frame", "c04_long", "c04_words"],
    thorough=["c04_again", "c04_far", "c04_big", "c04_any4", "c04_ascii6", "c04_frame", "c04_long", "c04_words", "c04_any5", "c04_ascii8"],
    bounds="every string of <= 4 (thorough 5) arbitrary Unicode characters and every ASCII string of 6 (8, time-boxed); arbitrary characters framed by entity-like text; one arbitrary character at every offset of longer strings (word-at-a-time search paths); one arbitrary character after up to 4100 others (1030 escaped ones)",
    level_note="the three escape functions against an independent reference and unescape(escape(s)) == s",
)
check(
    "C05",
    quick=["c05_far", "c05_again", "c05_big", "c05_any4", "c05_any5", "c05_any6", "c05_named", "c05_hex", "c05_digits", "c05_once", "c05_long", "c05_ascii9", "c05_pad", "c05_words", "c05_refsq"],
    thorough=["c05_far", "c05_again", "c05_big", "c05_any6", "c05_named", "c05_hex", "c05_digits", "c05_once", "c05_long", "c05_ascii9", "c05_pad", "c05_words", "c05_refsq", "c05_ascii12", "c05_refs"],
    bounds="every string of <= 6 arbitrary Unicode characters; every ASCII string of 9 characters (thorough 12, time-boxed); every text of entity length between '&' and ';'; numeric references of up to 8 symbolic hexadecimal digits; sequences of references; longer strings with an arbitrary character at each offset; one reference with an arbitrary character after up to 1030 others or references",
    level_note="compared with an independent one-pass reference decoder",
)
check(
    "C06",
    quick=["c06_again", "c06_far", "c06_big", "c06_big2", "c06_huge", "c06_text", "c06_textu", "c06_textmix", "c06_attr", "c06_attru", "c06_verbatim", "c06_verbatimu", "c06_tokens3", "c06_tokens4", "c06_tokens5", "c06_names", "c06_deep", "c06_wide", "c06_text4", "c06_kinds6", "c06_kinds12", "c06_words", "c06_uninames"],
    thorough=["c06_again", "c06_far", "c06_big", "c06_big2", "c06_huge", "c06_text", "c06_textu", "c06_textmix", "c06_attr", "c06_attru", "c06_verbatim", "c06_verbatimu", "c06_tokens5", "c06_names", "c06_deep", "c06_wide", "c06_text4", "c06_kinds6", "c06_kinds12", "c06_words", "c06_uninames", "c06_text5", "c06_attr5", "c06_verbatim6", "c06_tokens6", "c06_kinds5"],
    bounds="text windows of <= 4 (thorough 5) ASCII / 2 Unicode characters, attribute values of <= 3 (5), comment and CDATA contents of <= 3 (6); sequences of 5 (6) arbitrary tokens (start tags, end tags, self-closing, text, comment, CDATA) nested as they come; nesting to depth 12 and width 12; every non-ASCII name character in element, attribute and prefix names; documents nested to 400, with 1100 children or attributes, contents of 17000 characters, one arbitrary character in them",
    level_note="oracle: a reference reader in the harness",
)
check(
    "C07",
    quick=["c07_again", "c07_after", "c07_big", "c07_big2", "c07_bigwide", "c07_tokens4", "c07_tokens5", "c07_tags6", "c07_edits", "c07_edits2", "c07_names", "c07_names2", "c07_endtag", "c07_window", "c07_window4", "c07_window5", "c07_alpha10", "c07_deep", "c07_words"],
    thorough=["c07_again", "c07_after", "c07_big", "c07_big2", "c07_bigwide", "c07_tokens5", "c07_edits", "c07_edits2", "c07_names", "c07_names2", "c07_endtag", "c07_deep", "c07_words", "c07_window6", "c07_tags8", "c07_alpha13", "c07_tokens6", "c07_window7"],
    bounds="token sequences of 5 (thorough 6) arbitrary tokens; sequences of 6 (8) tags with symbolic one-letter names; every insertion/deletion/replacement of one and of two tokens in valid documents; every ASCII window of 5 (6, and 7 time-boxed) characters inside documents; texts of 10 (13) characters over the markup alphabet; nesting to 300 and 260 children with one end tag that has an arbitrary name, is missing or doubled, at several depths",
    level_note="oracle: an independent reference scanner written from the statement",
)
check(
    "C08",
    quick=["c08_again", "c08_big", "c08_long", "c08_tags3", "c08_tags4", "c08_tags5", "c08_tagsu", "c08_alpha6", "c08_alpha8", "c08_alpha10", "c08_edits", "c08_list", "c08_words"],
    thorough=["c08_again", "c08_big", "c08_long", "c08_tagsu", "c08_alpha10", "c08_edits", "c08_list", "c08_words", "c08_tags6", "c08_tags7", "c08_alpha12"],
    bounds="tag contents of 5 (thorough 6, 7) arbitrary ASCII characters or one Unicode character in several tag contexts; 10 (12) characters over the tag alphabet; one edit of a valid tag; lists of attributes; tags of up to 140 attributes or 1030 characters with one arbitrary character",
    level_note="oracle: an independent reference tag grammar",
)
check(
    "C09",
    quick=["c09_big", "c09_order1", "c09_order2", "c09_prefix", "c09_decl", "c09_many", "c09_parsed", "c09_equal", "c09_names"],
    thorough=["c09_big", "c09_order1", "c09_order2", "c09_prefix", "c09_decl", "c09_many", "c09_parsed", "c09_equal", "c09_names", "c09_big2"],
    bounds="2..5 attributes with symbolic names (<= 2 characters, xmlns declarations included) inserted in two orders under two hash functions (all-collide and order-changing); 12 attributes with one symbolic name; 33 and 66 (thorough 260) attributes, one with an arbitrary name",
    level_note="hash iteration order is a choice of the executor; also checked against the stated order",
)
check(
    "C10",
    quick=["c10_big", "c10_big2", "c10_huge", "c10_treeq", "c10_deep", "c10_indent", "c10_indentu", "c10_text", "c10_sameq", "c10_mixed", "c10_pos", "c10_words", "c10_history"],
    thorough=["c10_big", "c10_big2", "c10_huge", "c10_treeq", "c10_deep", "c10_indent", "c10_indentu", "c10_text", "c10_mixed", "c10_pos", "c10_words", "c10_same", "c10_tree", "c10_tree3", "c10_history2"],
    bounds="trees of up to 4 (thorough 6, time-boxed) nodes of symbolic shape and kind x every indent of <= 3 arbitrary characters, tab, 0..4 spaces; trees nested to 300, with 1100 children or attributes and contents of 17000 characters; indents of up to 40 spaces",
    level_note="oracle: reference layout computed from the model tree, byte for byte",
)
check(
    "C11",
    quick=["c11_big", "c11_big2", "c11_one", "c11_two", "c11_two_all", "c11_runs", "c11_pushes", "c11_blankq", "c11_blank", "c11_three", "c11_words", "c11_history"],
    thorough=["c11_big", "c11_big2", "c11_one", "c11_two", "c11_two_all", "c11_runs", "c11_pushes", "c11_blank", "c11_three", "c11_words", "c11_three_all", "c11_history2"],
    bounds="1, 2 and 3 arbitrary edits (append, append_all, insert, remove, remove_all, ... with a fully symbolic 64-bit index) on a list of up to 4 symbolic children; runs of up to 6 text nodes; blank contents of <= 2 Unicode characters; one arbitrary edit (any 64-bit index) on lists of up to 260 children",
    level_note="oracle: list model in the harness; after every step contents, order and returned values are compared",
)
check(
    "C12",
    quick=["c12_big", "c12_big2", "c12_name", "c12_mask", "c12_mask_flat", "c12_content", "c12_words", "c12_query"],
    thorough=["c12_big", "c12_big2", "c12_name", "c12_mask", "c12_mask_flat", "c12_content", "c12_words", "c12_query"],
    reach={"c12_name": [1, 2], "c12_query": [1, 2]},
    bounds="trees of up to 9 nodes of all kinds, depth 4; a symbolic predicate (any subset of the nodes) and symbolic names; trees of up to 300 elements, nested to 140, two of them with symbolic names",
    level_note="oracle: model tree with the same removal",
)
check(
    "C13",
    quick=["c13_lazy", "c13_big", "c13_big2", "c13_recursive", "c13_direct", "c13_names", "c13_parsed", "c13_size", "c13_colon", "c13_words", "c13_history", "c13_query"],
    thorough=["c13_lazy", "c13_big", "c13_big2", "c13_recursive", "c13_direct", "c13_names", "c13_parsed", "c13_size", "c13_colon", "c13_words", "c13_query", "c13_history2"],
    reach={"c13_names": [1, 2]},
    bounds="trees of up to 9 nodes of symbolic kinds, depth 4, symbolic names, prefixes and namespaces, any predicate; identity of the yielded nodes compared by address; trees of up to 300 elements, nested to 140, two of them with symbolic names",
    level_note="oracle: harness traversal of the model tree",
)
check(
    "C14",
    quick=["c14_again", "c14_big", "c14_big2", "c14_listing", "c14_chain3", "c14_chain4", "c14_siblings", "c14_prefix", "c14_chars", "c14_put", "c14_bottomup", "c14_ctor", "c14_inside", "c14_move", "c14_redeclare", "c14_chain4all", "c14_many", "c14_words", "c14_setns", "c14_setns2", "c14_history"],
    thorough=["c14_again", "c14_big", "c14_big2", "c14_listing", "c14_chain3", "c14_chain4", "c14_siblings", "c14_prefix", "c14_chars", "c14_put", "c14_bottomup", "c14_ctor", "c14_inside", "c14_move", "c14_redeclare", "c14_chain4all", "c14_many", "c14_words", "c14_setns", "c14_setns2", "c14_setns3", "c14_history2"],
    reach={"c14_chars": [1, 2]},
    bounds="nesting of 3 and 4 elements (and siblings), each with any subset of declarations for two prefixes and the default and with any of the prefixes; prefixes and URIs of symbolic characters; the same trees assembled top down, bottom up and by moving subtrees between parents, with declarations set, replaced and removed afterwards; nesting to 260 and 260 declarations or children with declarations, symbolic URIs and positions",
    level_note="oracle: nearest-declaration resolution over the model tree",
)
check(
    "C15",
    quick=["c15_again", "c15_big", "c15_bigcontent", "c15_ascii", "c15_ascii5", "c15_ascii8", "c15_ascii12", "c15_uni", "c15_uni3", "c15_long", "c15_among", "c15_prefix", "c15_refused", "c15_content", "c15_content6", "c15_content10", "c15_contentu", "c15_contentlong", "c15_words"],
    thorough=["c15_again", "c15_big", "c15_bigcontent", "c15_ascii", "c15_ascii5", "c15_ascii8", "c15_ascii12", "c15_uni", "c15_uni3", "c15_long", "c15_among", "c15_prefix", "c15_refused", "c15_content", "c15_content6", "c15_content10", "c15_contentu", "c15_contentlong", "c15_words"],
    reach={"c15_refused": [1, 2]},
    bounds="names of <= 12 arbitrary ASCII characters and of <= 3 arbitrary Unicode characters, one arbitrary character at each offset of names of up to 40 characters, through every constructor and setter that takes a name; comment and CDATA contents of <= 10 ASCII characters, <= 3 Unicode characters and one arbitrary window at every offset of long contents; one arbitrary character in names of up to 300 and contents of up to 4100 characters",
    level_note="acceptance compared with a reference predicate; refused edits compare the target before and after",
)
check(
    "C16",
    quick=["c16_big", "c16_big2", "c16_boxed", "c16_pairs", "c16_routes", "c16_trees12", "c16_trees21", "c16_nodes", "c16_leaves", "c16_documents", "c16_parsed", "c16_clone", "c16_scope", "c16_copies", "c16_context", "c16_trees22", "c16_words", "c16_words2", "c16_history", "c16_lookup"],
    thorough=["c16_big", "c16_big2", "c16_boxed", "c16_pairs", "c16_routes", "c16_trees12", "c16_trees21", "c16_nodes", "c16_leaves", "c16_documents", "c16_parsed", "c16_clone", "c16_scope", "c16_copies", "c16_context", "c16_trees22", "c16_words", "c16_words2", "c16_lookup", "c16_history2"],
    reach={"c16_big": [1, 2], "c16_boxed": [1, 2], "c16_pairs": [1, 2], "c16_trees": [1, 2], "c16_nodes": [1, 2], "c16_leaves": [1, 2], "c16_documents": [1, 2], "c16_parsed": [1, 2], "c16_context": [1, 2], "c16_lookup": [1, 2]},
    bounds="pairs of elements that differ in any one of name, prefix, namespace, attribute name or value, child kind, child content or order (symbolic characters); pairs of trees of up to 4 nodes of symbolic shape; leaves of <= 2 Unicode characters; documents with 0..2 document types and optional declaration; clones edited at any node; pairs of trees nested to 140, with 300 children or attributes, that differ in one symbolic character at most; the free functions on boxed nodes",
    level_note="oracle: equality of the model trees; hashing with a recording hasher that keeps the hashed bytes",
)
check(
    "C17",
    quick=["c17_again", "c17_schedule", "c17_failat", "c17_writeat", "c17_stream1", "c17_stream2", "c17_stream3", "c17_stream4", "c17_split", "c17_readfail", "c17_write", "c17_writefail", "c17_file1", "c17_file2", "c17_file3", "c17_filefail", "c17_save", "c17_savefail", "c17_longread", "c17_longraw", "c17_longwrite", "c17_fileuni"],
    thorough=["c17_again", "c17_schedule", "c17_failat", "c17_writeat", "c17_stream1", "c17_stream2", "c17_stream3", "c17_stream4", "c17_split", "c17_readfail", "c17_write", "c17_writefail", "c17_file1", "c17_file2", "c17_file3", "c17_filefail", "c17_save", "c17_savefail", "c17_longread", "c17_longraw", "c17_longwrite", "c17_fileuni"],
    reach={"c17_failat": [1, 4], "c17_writeat": [1, 2], "c17_longraw": [1, 2], "c17_stream": [1, 2], "c17_file1": [1, 2], "c17_file2": [1, 2], "c17_file3": [1, 2], "c17_readfail": [1, 4], "c17_filefail": [4], "c17_writefail": [2], "c17_savefail": [2]},
    bounds="documents of up to 4 arbitrary bytes (invalid UTF-8 included) inside a frame, at the end or alone; every schedule of the listed read and write sizes (1, 2, 3, 7 bytes, mixed), an interruption or failure of any kind at any of the first calls, files from an in-memory file system (short reads and writes, EINTR, EIO, ENOSPC, EACCES, missing directories); every way to split a 9-byte document into reads and to accept the first two writes, with an interruption and a failure at any call; documents of 128..65536 bytes with an arbitrary character or two arbitrary bytes across the boundary",
    level_note="oracle: parse_str of the whole content; to_string of the document",
    assumptions=["the operating system is an in-memory file system in the harness, offered both to the executor and, by symbol interposition, to the native replay"],
)
check(
    "C18",
    quick=["c18_big", "c18_biglong", "c18_map1", "c18_map2", "c18_setremove", "c18_many", "c18_ctor", "c18_quote2", "c18_quote3", "c18_quote4", "c18_quote6", "c18_quoteu", "c18_quoteu2", "c18_marks", "c18_three", "c18_entity", "c18_ns", "c18_words", "c18_history"],
    thorough=["c18_big", "c18_biglong", "c18_map1", "c18_map2", "c18_setremove", "c18_many", "c18_ctor", "c18_quote2", "c18_quote3", "c18_quote4", "c18_quote6", "c18_quoteu", "c18_quoteu2", "c18_marks", "c18_three", "c18_entity", "c18_ns", "c18_words", "c18_map3", "c18_history2"],
    bounds="sequences of 2 (thorough 3, time-boxed) set/get/remove/clear operations on 0..3 symbolic names and values; 12 attributes; values of <= 6 arbitrary ASCII or 2 Unicode characters in both quoting styles with any spacing around '='; three attributes in one tag with independent quoting; tags of up to 130 attributes and values of 4100 characters",
    level_note="oracle: association list in the harness; reference decoder for the values",
)
check(
    "C19",
    quick=["c19_big", "c19_windowq", "c19_window", "c19_window4", "c19_windowu", "c19_windowu2", "c19_seq3", "c19_seq4", "c19_seq5", "c19_edit1", "c19_edit2", "c19_ctor3", "c19_ctor4", "c19_ctor5", "c19_ctoru", "c19_ctoru3", "c19_trim", "c19_indent", "c19_minimal", "c19_words", "c19_style"],
    thorough=["c19_big", "c19_window", "c19_window4", "c19_windowu", "c19_windowu2", "c19_seq3", "c19_seq4", "c19_seq5", "c19_edit1", "c19_edit2", "c19_ctor3", "c19_ctor4", "c19_ctor5", "c19_ctoru", "c19_ctoru3", "c19_trim", "c19_indent", "c19_minimal", "c19_words", "c19_style", "c19_edit3"],
    reach={"c19_minimal": [1, 2], "c19_big": [1, 2], "c19_window": [1, 2], "c19_seq": [1, 2], "c19_ctor": [1, 2], "c19_trim": [1, 2], "c19_style": [1, 2]},
    bounds="windows of <= 4 arbitrary ASCII or 2 Unicode characters inside declarations, document types (minimal ones such as '<!DOCTYPE>' included; internal subsets, quoted literals, comments) and around them; sequences of <= 5 prolog items in any order; constructor arguments of <= 5 arbitrary characters framed by and without the delimiters; <= 2 (thorough 3) edits of declaration and document types; prologs of up to 140 document types and internal subsets of 140 declarations with one arbitrary character",
    level_note="oracle: reference prolog scanner in the harness; byte comparison of the written prolog",
)
check(
    "C20",
    quick=["c20_big", "c20_huge", "c20_display", "c20_single", "c20_wide", "c20_deep", "c20_parsed", "c20_parsedu", "c20_edit1", "c20_edit2", "c20_long", "c20_treeq", "c20_words", "c20_history"],
    thorough=["c20_big", "c20_huge", "c20_display", "c20_single", "c20_wide", "c20_deep", "c20_parsed", "c20_parsedu", "c20_edit1", "c20_edit2", "c20_long", "c20_treeq", "c20_words", "c20_tree", "c20_edit3", "c20_parsed3", "c20_tree3", "c20_history2"],
    reach={"c20_single": [1, 2, 3, 4]},
    bounds="each node kind through every cast; text of trees of up to 4 (thorough 6, time-boxed) nodes of symbolic shape and kind, built, parsed and edited (1, 2, thorough 3 edits); depth 6, width 8; contents of symbolic characters; trees nested to 300, with 1100 children and contents of 17000 characters",
    level_note="oracle: concatenation over the model tree",
)
check(
    "C22",
    quick=["c22_again", "c22_far", "c22_big", "c22_bigindex", "c22_bigtext", "c22_values", "c22_index", "c22_indextext", "c22_kinds", "c22_parse", "c22_line", "c22_within", "c22_column"],
    thorough=["c22_again", "c22_far", "c22_big", "c22_bigindex", "c22_bigtext", "c22_values", "c22_index", "c22_indextext", "c22_kinds", "c22_parse", "c22_line", "c22_within", "c22_column"],
    reach={"c22_values": [1, 2, 3, 5, 6, 7, 8, 9], "c22_indextext": [4]},
    bounds="each error type with symbolic message characters through every conversion; every 64-bit index on lists of 0..3 items; each refusing operation with symbolic names and contents; parse errors of each construct at a symbolic line and column (up to 3 line breaks of either style before it); errors after up to 1022 lines; every 64-bit index past lists of up to 260 items; messages of up to 4100 characters; columns with <= 3 arbitrary Unicode characters before 13 malformed constructs",
    level_note="oracle: the expected kind and text written down per operation",
)
check(
    "C23",
    quick=["c23_big", "c23_ctor1", "c23_full", "c23_refused", "c23_children4", "c23_children6", "c23_attrs", "c23_ns", "c23_both", "c23_words"],
    thorough=["c23_big", "c23_ctor1", "c23_full", "c23_refused", "c23_children4", "c23_children6", "c23_attrs", "c23_ns", "c23_both", "c23_words", "c23_ctor2", "c23_ctor3", "c23_ns2"],
    reach={"c23_refused": [1, 2]},
    bounds="every element constructor with optional text, 0..2 attributes, 0..2 children of any kind, namespace and prefix present or not, symbolic characters in each (thorough: two and three characters, time-boxed); up to 130 attributes and children, names, prefixes and texts of 130 characters",
    level_note="oracle: model element compared field by field and with the element assembled by edits",
)

check(
    "C24",
    quick=["c24_again", "c24_leaf", "c24_leafq", "c24_leafascii", "c24_leaflong", "c24_deep", "c24_indent", "c24_indent3", "c24_order", "c24_order3", "c24_docq", "c24_doc", "c24_uniq", "c24_treeq", "c24_uni", "c24_words", "c24_elements"],
    thorough=["c24_again", "c24_leaf", "c24_leafq", "c24_leafascii", "c24_leaflong", "c24_deep", "c24_indent", "c24_indent3", "c24_order", "c24_order3", "c24_docq", "c24_doc", "c24_uniq", "c24_treeq", "c24_uni", "c24_words", "c24_elements", "c24_tree"],
    reach={"c24_leafascii": [1, 2], "c24_indent": [2, 3], "c24_doc": [1, 2], "c24_docq": [1], "c24_order3": [1, 2]},
    bounds="all shapes of depth 2 and width up to 2 with a symbolic character (thorough: width 2 with Unicode, time-boxed); leaves of up to 3 symbolic characters and of 300; indents of up to 3 symbolic characters; prologs of a declaration and up to two DTDs; orders of 2 and 3 leaves",
    level_note="oracle: the forms compared with each other and with the text assembled from the parts of the model",
)
check(
    "C25",
    quick=["c25_uni", "c25_look", "c25_prolog", "c25_defs", "c25_blank", "c25_text", "c25_first", "c25_big", "c25_one", "c25_all", "c25_parsed", "c25_words", "c25_warm", "c25_history"],
    thorough=["c25_uni", "c25_look", "c25_prolog", "c25_defs", "c25_blank", "c25_text", "c25_first", "c25_big", "c25_one", "c25_all", "c25_parsed", "c25_words", "c25_warm", "c25_three", "c25_nested", "c25_two", "c25_history2"],
    reach={"c25_prolog": [1, 2], "c25_defs": [1, 2]},
    bounds="all roots of 2 children of 7 kinds, 7 accesses, 7 changes with a symbolic character, on built and on parsed documents (thorough: 3 children, two changes, two levels, time-boxed); up to 130 children; 3 definitions",
    level_note="oracle: the same change made on the model, compared field by field, in equality and in text with a document built like it",
)
check(
    "C26",
    quick=["c26_uni", "c26_prolog", "c26_big", "c26_one", "c26_nestedq", "c26_words", "c26_setns", "c26_history"],
    thorough=["c26_uni", "c26_prolog", "c26_big", "c26_one", "c26_nestedq", "c26_words", "c26_setns", "c26_nested", "c26_wide", "c26_two", "c26_big2", "c26_history2"],
    bounds="pairs of equal documents out of parsed, constructed (4 ways), cloned and edited into shape; roots of up to 2 children of 7 kinds with a symbolic character, then one edit of 8 with all queries before and after (thorough: two edits, more children, time-boxed); up to 130 children",
    level_note="oracle: the two documents' answers compared with each other",
)

for _c in CHECKS.values():
    _c.setdefault("budget", {"quick": Q, "thorough": T})
    if any(h.endswith("_words") for h in _c["quick"]):
        _c["bounds"] += "; symbolic words of 2..12 letters and phrases of up to 40 printable characters in the places of a document that the property is about"
    if any(h.endswith("_again") for h in _c["quick"]):
        _c["bounds"] += "; two symbolic inputs handled one after the other in one process, and the first once more"
    if any(h.endswith("_history") for h in _c["quick"]):
        _c["bounds"] += "; 256 or 512 fixed schedules (thorough: 8 times as many) of 9 to 12 edits in a row of all kinds, with a symbolic content and a symbolic letter in names"
    if any(h.endswith("_far") for h in _c["quick"]):
        _c["bounds"] += "; contents or lines beyond 65536 with a symbolic character"
    if any(h.endswith("_warm") for h in _c["quick"]):
        _c["bounds"] += "; every edit after all queries were made once"
    if any(h.endswith("_lazy") for h in _c["quick"]):
        _c["bounds"] += "; searches interleaved, taken in parts, skipped and counted"
    r = _c.pop("reach", {})
    cov = {}
    for h in set(_c["quick"]) | set(_c["thorough"]):
        for k in sorted(r, key=len, reverse=True):
            if h.startswith(k):
                cov[h] = r[k]
                break
    _c["covers"] = cov
