import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=state or [],observe_at=observe or [],hook_needed=hook)))
L="src/lib.rs";D="src/dom.rs";G="src/parsing.rs"
p("C01","Parsing never panics or hangs",
 "Parsing any text, well formed or not, in any mixture of characters including multi-byte ones, terminates and returns either a document or an error value. It never panics, aborts or loops forever.",
 ["inputs"],"every UTF-8 string given to parse_str / parse_stream / parse_filepath",
 "The no-panic tests delete or truncate single characters of one ASCII document and skip the exhaustive variant; panics here depend on where multi-byte characters, quotes, '&' and ';' fall relative to slice indices.",
 [L,G,D],[("parse_str main loop and slicing","src/lib.rs:parse_str"),("unescape index arithmetic","src/lib.rs:unescape"),("next_tag / quote_aware_find / nested_quote_aware_find_close","src/lib.rs"),("abbreviate","src/lib.rs:abbreviate"),("ParseTree::to_dom","src/parsing.rs")],observe=["kiss_xml::parse_str returns"])
p("C02","Parse, serialize, parse again gives the same document",
 "For every text that parses successfully, serializing the resulting document and parsing the output succeeds and yields a document equal to the first one: same declaration, document type definitions, element names, namespaces, attributes, text, comments, CDATA and their order. Serializing that second document yields byte-for-byte the same text again.",
 ["inputs"],"every text accepted by the parser",
 "One sample document is round-tripped; reserved characters, quotes, entity look-alikes and comment or CDATA terminators at particular places are what breaks it.",
 [L,D,G],[("escape on write / unescape on read","src/lib.rs:text_escape,attribute_escape,unescape"),("element serializer","src/dom.rs:Element::to_string_with_prefix_and_indent"),("Declaration and DTD Display","src/dom.rs")],observe=["parse_str(doc.to_string()) == doc"])
p("C03","Documents built through the API survive serialization",
 "A document assembled with the public constructors and editing methods from accepted names (the prefix given separately), attribute values, non-blank text, comments and CDATA serializes, with any valid indent, to text that parses back to an equal document. No text, attribute value, comment or CDATA content can change the markup structure around it.",
 ["inputs","histories"],"every DOM built by the API from accepted values, every valid indent",
 "Tests build a few trees with plain ASCII words; the guarantee ranges over all characters in all positions and all shapes of mixed content.",
 [D,L],[("serializer and inline / pretty switch","src/dom.rs:Element::to_string_with_prefix_and_indent"),("content checks","src/dom.rs:Comment::new, CData::new, check_elem_name, check_attr_name"),("tokenizer","src/lib.rs:next_tag")],observe=["parse_str(doc.to_string_with_indent(i)).root_element() == root"])
p("C04","Escaping is lossless and leaves no markup characters",
 "Unescaping the output of any of the three escape functions gives back the original string, for every string. Escaped text contains no '<' or '>' and every '&' in it starts one of the five standard entities; full and attribute escaping additionally leave no single or double quote, and all other characters are untouched and keep their order.",
 ["inputs"],"every string passed to escape, text_escape, attribute_escape",
 "A handful of fixed strings are escaped; order of replacements and overlapping entity look-alikes ('&amp;lt;') matter for all strings.",
 [L],[("chained replace, '&' first","src/lib.rs:escape,text_escape"),("unescape scan","src/lib.rs:unescape")],observe=["return values of escape / text_escape / attribute_escape / unescape"])
p("C05","Unescape decodes exactly the entities, once, and keeps the rest",
 "Unescaping replaces, in one left-to-right pass, each of the five standard entities and each numeric reference made of hexadecimal digits naming a valid character by that character, and never decodes the result of a replacement again. Every other character of the input, including stray '&' and ';', unknown entities and multi-byte characters, is kept unchanged and in order.",
 ["inputs"],"every string passed to unescape, and every text and attribute value parsed",
 "Tests unescape each entity once, in ASCII surroundings; correctness depends on what precedes and follows each '&' and on the byte width of neighbouring characters.",
 [L],[("unescape loop, last_i / char_size bookkeeping","src/lib.rs:unescape"),("string_insert","src/lib.rs:string_insert"),("real_text and attribute decoding","src/lib.rs")],observe=["return value of unescape; text() and get_attr() after parsing"])
p("C06","Parsed content mirrors the source document",
 "A well-formed document of the supported subset parses, and its tree contains exactly the elements, attributes, comments, CDATA sections and non-blank text runs of the source, nested and ordered as in the source. Text and attribute values equal the source with entities decoded, and comments and CDATA equal the source verbatim; runs of text keep their leading and trailing white space. Names may contain, behind an ASCII letter or underscore, every name character of XML.",
 ["inputs"],"every well-formed document of the supported subset",
 "Tests look at a few fixed documents; the guarantee is for all contents and all nestings and orders of node kinds.",
 [L,G,D],[("tokenizer and dispatch","src/lib.rs:next_tag,parse_str"),("stack tree and reversal","src/parsing.rs:ParseTree"),("attribute parsing","src/lib.rs:parse_new_element,join_spaced_attributes,quote_aware_split"),("text clean-up","src/dom.rs:cleanup_text_nodes")],observe=["children(), name(), attributes(), text(), get_content()"])
p("C07","Structurally malformed documents are rejected",
 "A text is accepted only if it has exactly one root element, every start tag is closed by a matching end tag in properly nested order, and no stray end tag, second root element or unclosed tag, comment or CDATA section occurs. Otherwise parsing returns an error and no document.",
 ["inputs"],"every sequence of tags and markup",
 "One test checks one unclosed root; acceptance must be exact over all sequences of opening, closing and self-closing tags.",
 [L,G],[("closing tag check and stack","src/lib.rs:parse_str, src/parsing.rs:ParseTree::push,pop,append"),("selfclosing root guard","src/lib.rs:parse_str"),("final empty_stack check","src/lib.rs:parse_str")],observe=["Ok/Err of parse_str"])
p("C08","Malformed tags and attributes are rejected",
 "A tag is accepted only if its name and attribute names are valid names and every attribute has the form name=value with a value enclosed in matching single or double quotes (white space around '=' and between attributes allowed). A missing value, missing or mismatched quote, bare word, missing name or reserved character in a name makes the parse fail with an error.",
 ["inputs"],"every tag text",
 "Three regression tests cover three malformed tags; acceptance has to be exact for every arrangement of quotes, '=', white space and name characters.",
 [L,D],[("tag regex","src/lib.rs:check_element_tag"),("attribute splitting and joining","src/lib.rs:quote_aware_split,join_spaced_attributes,parse_new_element"),("name checks","src/dom.rs:check_attr_name,check_elem_name")],observe=["Ok/Err of parse_str"])
p("C09","Serialization is deterministic with a fixed attribute order",
 "The serialized form of an element depends only on its content, never on the order in which attributes were added or on hash iteration order: attributes appear with the xmlns declarations first and otherwise in ascending order of name. Equal documents serialize to identical text.",
 ["inputs","histories","configurations"],"every set of attributes, every insertion order, every hash seed",
 "One test sorts five attributes under one random seed; hash order varies per process.",
 [L,D],[("attribute_order","src/lib.rs:attribute_order"),("sort before write","src/dom.rs:Element::to_string_with_prefix_and_indent")],state=[dict(name="attributes",meaning="unordered map",where="src/dom.rs:Element")],observe=["to_string()"])
p("C10","Indentation never changes content",
 "With an indent of one tab or any number of spaces, the serialized text consists of the same markup, with line breaks and indentation only between the children of elements that contain no text anywhere above or beside them, each nested level indented by one more copy of the indent. Any other indent string behaves as the default of two spaces; an element containing text is written inline with its text exactly as stored.",
 ["inputs","configurations"],"every DOM shape and every indent string",
 "Tests compare a few fixed outputs with tab and two spaces; mixed content at any depth, other indents and invalid ones are not reached.",
 [D,L],[("inline flag propagation","src/dom.rs:Element::to_string_with_prefix_and_indent"),("validate_indent","src/lib.rs:validate_indent"),("Document / Element to_string_with_indent","src/dom.rs")],observe=["to_string_with_indent, write_to_file_with_indent"])
p("C11","Child list edits behave like a list",
 "Appending, inserting and removing children by index behaves like the same operation on an ordered list, except that adjacent text nodes are merged in order and blank text nodes are dropped. An index past the end returns an index-out-of-bounds error, leaves the element unchanged and never panics.",
 ["histories","inputs"],"every sequence of append, append_all, insert, remove, remove_element, set_text, clear_children with any index",
 "Tests perform a few edits at fixed indices; merging and dropping of text interacts with indices only for particular sequences.",
 [D],[("cleanup_text_nodes","src/dom.rs:Element::cleanup_text_nodes"),("bounds checks","src/dom.rs:insert,remove,remove_element")],state=[dict(name="child_nodes",meaning="ordered children",where="src/dom.rs:Element")],observe=["children() after each edit"])
p("C12","Predicate removal removes exactly the matching nodes",
 "Removal by predicate or name removes every matching node and nothing else, returns exactly the number of nodes for which it was removed, and keeps the survivors in their order (text nodes left side by side are merged). The non-recursive forms look only at direct children, the recursive forms at every remaining descendant.",
 ["inputs","histories"],"every tree and predicate for remove_by, remove_all, remove_elements, remove_all_elements, remove_elements_by_name",
 "Tests remove one or two nodes from fixed trees; adjacency and nesting of matches matter.",
 [D],[("reverse index removal","src/dom.rs:remove_by,remove_elements"),("recursion","src/dom.rs:remove_all,remove_all_elements")],observe=["children() and return count"])
p("C13","Searches visit every descendant exactly once",
 "Recursive iteration and search yield every node below an element exactly once and only those, and each filtered form (by predicate, name, text, comment) yields exactly the nodes of the full iteration that satisfy its filter. The non-recursive lookups by name, namespace and prefix, immutable and mutable, yield exactly the matching direct children in document order, and the first-by-name lookup is the first of them or a not-found error.",
 ["inputs"],"every tree and every name, namespace, prefix or predicate",
 "Counts are asserted on one fixed document.",
 [D],[("children_recursive","src/dom.rs:Element::children_recursive"),("search*, elements_by_*","src/dom.rs")],observe=["iterators of Element"])
p("C14","Namespaces resolve to the nearest declaration in scope",
 "After parsing, a prefixed element has the namespace bound to its prefix by the nearest enclosing declaration, its own included, and an unprefixed element has the nearest enclosing default namespace, or none. The same holds for an element after it is appended, inserted or moved, at any position, into a parent, and after namespace declarations are set or removed.",
 ["inputs","histories"],"every nesting of prefix and default declarations, every insertion position, every edit of a declaration",
 "Three fixed documents with one declaration level each are tested; shadowing, inheritance through several levels and insertion in the middle are not.",
 [D,L],[("set_namespace_context","src/dom.rs"),("apply_xmlns_context_to_child_*","src/dom.rs"),("prefix lookup while parsing","src/lib.rs:parse_new_element")],state=[dict(name="xmlns_context",meaning="prefixes in scope",where="src/dom.rs:Element")],observe=["namespace(), namespace_prefix(), default_namespace()"])
p("C15","Only serializable names and contents are accepted",
 "Element and attribute names that are empty, start with anything but a letter or underscore, or contain white space or a character reserved in tags (any of < > & \" ' / =) are refused with an error, and comment and CDATA contents are refused exactly when they contain their own terminator. A refused edit leaves the target unchanged, and names made of ASCII letters, digits, '_', '-' and '.' starting with a letter or underscore are accepted.",
 ["inputs"],"every name passed to the constructors and set_attr, every content passed to Comment / CData constructors and setters",
 "One bad name of each kind is tested.",
 [D],[("name regexes","src/dom.rs:check_elem_name,check_attr_name"),("contains checks","src/dom.rs:Comment::new,set_content,CData::new,set_text")],observe=["Result of constructors and setters"])
p("C16","Equality, hashing and cloning agree",
 "Two nodes or documents compare equal exactly when they have the same kind, names, namespace, prefix, attributes, text content and children in order; equality is reflexive and symmetric, and equal nodes hash equally. A clone equals its original, and editing either afterwards leaves the other unchanged.",
 ["inputs","histories"],"every pair of trees, every single difference, every edit after cloning",
 "Tests compare a few fixed pairs and clone one document.",
 [D],[("node_eq, PartialEq for Element/Text/Comment/CData/Document","src/dom.rs"),("clone_node, Clone for Element","src/dom.rs"),("Hash impls","src/dom.rs")],observe=["==, hash, clone"])
p("C17","File and stream I/O agree with in-memory parsing and writing",
 "Parsing from a reader or file gives the same result as parsing its whole content as a string, however the reader splits the data or is interrupted, and read failures and invalid UTF-8 come back as an I/O error. Writing to a stream or file delivers exactly the bytes of the string form however small the accepted writes are, and a failed write is returned as an error.",
 ["inputs","fault_sequences","schedules"],"every split of the data into reads / writes, every position of an error or interruption",
 "Tests read and write whole temporary files with no faults.",
 [L,D],[("parse_stream, parse_filepath","src/lib.rs"),("write_to_file*, write_to_filepath*","src/dom.rs")],observe=["Result of parse_stream; bytes received by the writer"])
p("C18","Attributes behave as a map and parse in every quoting style",
 "Setting, getting, removing and clearing attributes behaves like a map from name to value: the last value set for a name is returned, other names are unaffected, and removal returns the old value. Parsed attributes have the value between their quotes with entities decoded, whichever quote character is used, with or without white space around '=', and regardless of quotes of the other kind, '=', '>' , '/' or white space inside the value.",
 ["inputs","histories"],"every sequence of attribute edits, every attribute text",
 "A few fixed attributes are set and parsed.",
 [D,L],[("set_attr/get_attr/remove_attr/clear_attributes","src/dom.rs"),("quote_aware_split, quote_aware_find, join_spaced_attributes","src/lib.rs")],observe=["get_attr(), attributes()"])
p("C19","Declarations and DTDs are preserved verbatim",
 "The XML declaration and all document type definitions of a parsed document are kept verbatim and in order and are written back unchanged, one per line, before the root element. Setting, replacing or removing them affects exactly the serialized prolog; a document without a declaration is written without one; malformed declaration or DTD strings are refused with an error and never panic.",
 ["inputs","histories"],"every declaration and DTD text, every combination of setters",
 "One test counts DTDs and checks the default declaration, none checks that a DTD survives serialization.",
 [D,L],[("Declaration::from_str, Display","src/dom.rs"),("DTD::from_string, Display","src/dom.rs"),("prolog loop and nested close search","src/lib.rs:parse_str,nested_quote_aware_find_close"),("Document::to_string_with_indent","src/dom.rs")],observe=["declaration(), doctype_defs(), to_string()"])
p("C20","Node kinds, casts and text extraction are consistent",
 "Every node is of exactly one kind; its kind tests, reported type and casts (shared and mutable) agree, and a cast to another kind is an error. The text of an element is the concatenation, in document order, of all text nodes below it and nothing else; the text of a text, comment or CDATA node is its content.",
 ["inputs"],"every node and every tree",
 "One fixed document is cast and a few texts are compared.",
 [D],[("Node impls","src/dom.rs"),("Element::text","src/dom.rs")],observe=["is_*, as_*, as_*_mut, node_type, text()"])
p("C21","Resource use stays bounded on huge or deeply nested documents",
 "Documents of any size and nesting depth can be parsed, serialized, compared, cloned and dropped without exhausting the stack.",
 ["inputs"],"documents of any size and depth",
 "Tests use documents a few levels deep; recursion depth grows with nesting.",
 [D,G],[("recursive serializer, drop, clone, eq, search","src/dom.rs")],observe=["process does not abort"])
p("C22","Errors say what was refused and where",
 "Every refusal is reported with the kind of error that fits it (syntax, unsupported construct, cast, missing item, index, element name, attribute name, content, I/O), and converting it to the general error keeps kind and message. An index error carries the index asked for and the number of items, a name error contains the refused name, and a cast error names both kinds. A line named in a parse error is the line on which the offending construct starts, and line and column lie within the text, and every character before the construct on its line moves the column by one.",
 ["inputs"],"every refused text, name, content, index, cast and lookup",
 "Tests check that one error of each kind displays without panicking; they never compare indices, bounds, names or lines.",
 ["src/errors.rs",L,D],[("error structs and conversions","src/errors.rs"),("line_and_column and its callers","src/lib.rs"),("index checks","src/dom.rs:insert,remove,remove_element")],observe=["KissXmlError variant, fields and Display"])
p("C23","Constructors build what their arguments describe",
 "Every element constructor yields an element with exactly the name, prefix, namespace, attributes, text and children given, the text first and the children in order, and nothing else; it equals, and serializes like, the element assembled from an empty one by edits. A given namespace is declared on the element under its prefix, or as the default namespace without one. The constructors agree on which names they refuse.",
 ["inputs"],"every name, attribute map, text and child list given to any constructor",
 "Each convenience constructor is called once with fixed words.",
 [D],[("Element::new and new_from_name, new_with_*","src/dom.rs")],observe=["name(), tag_name(), attributes(), children(), namespace(), default_namespace()"])
p("C24","Textual forms agree and content is held verbatim",
 "Every textual form of a node or document is the same text: display, debug, to_string and the form with the default indent agree; a document's text is its declaration line, its DTD lines, the root element's text and a final line break; text, comments and CDATA have one form independent of the indent; an indent that is not white space gives the default form. A leaf made from or set to a string gives back exactly that string, and leaves are ordered by content consistently with equality, elements by name.",
 ["inputs"],"every document, node content and indent string",
 "Tests print a few documents and compare none of the forms with each other.",
 [D],[("Display, Debug, Ord impls","src/dom.rs"),("to_string_with_indent, to_string","src/dom.rs"),("Text, Comment, CData, DTD, Declaration","src/dom.rs")],observe=["to_string(), to_string_with_indent(), {:?}, get_content(), cmp"])
p("C25","Mutable access edits exactly the node it names",
 "A change made through any mutable access (the root element, child iterators, lookups by name, namespace or prefix, the first element of a name, casts, the iterator of document type definitions) appears at exactly the node accessed, and everything else stays as it was; the mutable accesses yield the same nodes in the same order as their immutable counterparts; access alone changes nothing, whether the document was parsed or built.",
 ["inputs","histories"],"every tree, every access and every change made through it",
 "Tests use the mutable accesses on one or two fixed documents.",
 [D],[("children_mut, child_elements_mut, elements_by_*_mut, first_element_by_name_mut","src/dom.rs"),("as_*_mut","src/dom.rs"),("root_element_mut, doctype_defs_mut","src/dom.rs")],observe=["children(), ==, to_string() after the change"])
p("C26","Equal documents are interchangeable",
 "Two documents that compare equal, however they came about (parsed, constructed, cloned or edited into shape), are interchangeable: every query gives equal answers on both, and the same edit succeeds or fails on both alike and leaves equal documents with identical text.",
 ["inputs","histories"],"every pair of equal documents of different history, every query and edit",
 "Tests never compare how two equal documents behave afterwards.",
 [D,L],[("PartialEq for Document/Element","src/dom.rs"),("xmlns_context, scope_xmlns (state that equality does not see)","src/dom.rs")],observe=["search results, namespace(), text(), results of edits, to_string()"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P), max(len(x['title']) for x in P))
