import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                   observe_at=observe or [],hook_needed=None)))

p("C01","Parsing is faithful: the loaded tree equals the XML",
 "Loading a well-formed FoLiA document yields exactly the tree the XML describes: the same elements in the same order and nesting, each with its own attributes (including, on annotations, the resolved set, class, subset and processor), text and comments, with nothing lost, invented, duplicated, moved or altered. Character data and comments that consist of white space only are the only content that may be ignored, and loading from a file gives the same document as loading the same text from a string.",
 ["inputs"],"every well-formed document over the FoLiA vocabulary the library knows, of any size, nesting and mixture of elements, attributes, text, comments and CDATA",
 "tests/main.rs parses two fixed example documents and looks at a handful of elements in them; it never compares a whole tree and never varies structure, mixed content or attributes.",
 ["src/parser.rs","src/attrib.rs","src/document.rs","src/store.rs"],
 [("event loop with element stack","src/parser.rs: parse, parse_elements"),("attribute decoding","src/attrib.rs: Attribute::parse; src/parser.rs: parse_attributes"),("set/class/processor encoding","src/document.rs: Store::encode for ElementData")],
 [("elementstore","all elements, children by key","src/elementstore.rs"),("declarationstore","declarations with class/subset stores","src/metadata.rs")],
 ["Document::from_str / from_file","Element children via ElementData::get_data_at, attribs(), set(), class(), processor()"])

p("C02","Serialised XML is well-formed and says exactly what the document holds",
 "For every document in memory, however it was obtained (parsed, built through the API, edited), serialising it succeeds (for every value that XML can represent) and gives a well-formed UTF-8 XML document in the FoLiA namespace from which an independent XML reader recovers exactly the document's elements, attributes, sets, classes, processors, declarations, text and comments. The requested indentation changes only whitespace between elements, never the characters of text content, attributes or comments, and the XML of a single element is the corresponding fragment of the whole.",
 ["inputs","histories","configurations"],"every document reachable by parsing or by API calls, every text/attribute/comment value (including markup characters and non-ASCII text) and every indentation width",
 "the tests serialise a few fixed documents and only check that no error is returned or compare one literal; special characters, mixed content and indentation are not varied.",
 ["src/serialiser.rs","src/element.rs","src/attrib.rs"],
 [("event writer","src/serialiser.rs: Document::xml, xml_elements, xml_declarations, xml_provenance"),("set/processor omission when they are the default","src/serialiser.rs; src/metadata.rs: default_mask")],
 [], ["Document::xml","Element::xml"])

p("C03","Load and save round-trip without loss",
 "Serialising a document and loading the result gives back an equivalent document: the same element tree with the same identifiers, attributes, sets, classes, features, processors and text, the same declarations and provenance chain, at any indentation, up to what FoLiA makes implicit (an annotation that names no processor belongs to the sole annotator of its declaration). Doing it again reproduces the same XML, so saving is a fixpoint and no information decays over repeated load/save cycles.",
 ["inputs","histories","configurations"],"every document that was parsed or built through the API, every indentation, any number of load/save cycles",
 "one test parses, serialises and re-parses a fixed example and compares only the serialised size of a single fixed document; it cannot show that sets, processors, default declarations, features or mixed content survive for other documents.",
 ["src/serialiser.rs","src/parser.rs","src/document.rs","src/metadata.rs"],
 [("defaults omitted on output and restored on input","src/serialiser.rs: xml_elements; src/document.rs: declare, encode"),("declaration order and keys","src/metadata.rs: DeclarationStore")],
 [], ["Document::xml followed by Document::from_str"])

p("C04","Any input is answered with a document or an error, never a crash",
 "For every byte sequence offered as a document, loading returns either a document or an error value: it never panics, aborts, overflows the stack or fails to terminate. Input that is truncated at any point, has mismatched or unclosed tags, duplicate or undecodable attributes, undefined entities, a root that is not FoLiA's, content before the root or around the body, unknown FoLiA elements or attributes, or invalid attribute values is answered with an error, never silently accepted as a shorter or different document.",
 ["inputs","fault_sequences"],"all byte sequences: arbitrary bytes, every truncation of valid documents, and byte-, token- and structure-level corruption of valid documents; documents of any width and depth up to the configured bound",
 "the tests only feed well-formed example documents; no malformed or truncated input is tried.",
 ["src/parser.rs","src/attrib.rs","src/document.rs","src/select.rs"],
 [("error propagation instead of panics","src/parser.rs"),("end-of-input and end-tag checks","src/parser.rs: parse, parse_elements"),("iterative traversal","src/select.rs: SelectIterator::next")],
 [], ["Document::from_str / from_file result"])

p("C05","Equivalent spellings of the same XML load as the same document",
 "How XML is spelled does not change the loaded document: the order of attributes, single or double quotes, character references versus literal characters, CDATA versus escaped text, an empty-element tag versus an open/close pair, whitespace between elements, the spelling of line ends, the XML declaration, processing instructions, and a bound prefix instead of the default namespace all give the same document. This holds in the metadata header (declarations, annotators, processors, meta fields) as well as in the body.",
 ["inputs"],"every well-formed document and every combination of meaning-preserving re-spellings of it",
 "the example documents use one fixed spelling each.",
 ["src/parser.rs","src/attrib.rs"],
 [("Event::Empty and Event::Start handled alike","src/parser.rs"),("namespace resolution by read_namespaced_event","src/parser.rs"),("unescaping","src/attrib.rs")],
 [], ["Document::from_str"])

p("C06","Declarations, sets, classes and defaults resolve consistently",
 "Every annotation that states a set, class or processor resolves to exactly one declaration of its own annotation type; an explicitly given set is always the set that is reported back, an omitted set means the sole declared set for that type (the default), and every class given is read back verbatim under that set and no other. Declaring is idempotent per (annotation type, set), never changes what earlier annotations report, and annotations with a set or class that was not declared are declared automatically, unless automatic declaration is switched off: then they are refused with an error and nothing changes.",
 ["histories","inputs"],"all sequences of declarations and annotations over any annotation types, sets and classes, by parsing or through the API, in any order",
 "the tests declare a fixed handful of sets and query one or two annotations; interleavings of several sets per type, default sets and class reuse are not explored.",
 ["src/document.rs","src/metadata.rs","src/store.rs","src/element.rs"],
 [("declare()","src/document.rs"),("index_id, class/subset stores, default_mask, get_default_key","src/metadata.rs"),("encode()","src/document.rs")],
 [("declarationstore.items/index","declarations and (type,set) lookup","src/metadata.rs")], ["set(), class(), get_declaration(), get_default_set()"])

p("C07","Provenance: every processor and attribution is kept exactly",
 "Every processor added or loaded keeps all its fields, its place in the provenance chain or under its parent processor, and its order. Every annotation that states a set, class or processor is attributed to the processor given for it, otherwise to the only processor of its declaration, otherwise to the processor active when it was added, and to none when there is no such processor; annotations already attributed never change attribution, and every processor an annotation is attributed to is listed as annotator of its declaration; making a new declaration (or declaring an annotation type again without stating a set) lists the active processor as its annotator, declaring what is already declared with that very set changes nothing.",
 ["histories","inputs"],"all sequences of adding processors and subprocessors, activating processors, declaring and annotating, and all provenance blocks of loaded documents",
 "two tests add a processor with one subprocessor and read one annotator back; datetimes, nesting, several processors per declaration, and switching the active processor mid-way are not tested.",
 ["src/metadata.rs","src/document.rs","src/parser.rs","src/serialiser.rs"],
 [("Processor::parse / xml_processor","src/parser.rs; src/serialiser.rs"),("add_processor, add_subprocessor, activate_processor, declare, encode","src/document.rs")],
 [("provenancestore.chain","top-level processors in order","src/metadata.rs")], ["provenancestore.chain, get_processor, Element::processor/annotator/annotatortype"])

p("C08","Selection visits exactly the matching data, in document order",
 "Selecting under an element yields exactly the elements (and, if asked for, text and comments) under it that the selector matches, in depth-first document order, each data item once, descending exactly where the recursion policy allows (judged by the type of the element whose content is visited) and including the starting element only when asked to. With span references enabled, a span annotation is additionally yielded at the first of its words encountered and never twice; a union of selectors yields whatever any of its members matches.",
 ["inputs"],"every document, starting element, selector (by type, group, set, class, processor, kind of data, and unions of them), recursion policy and flag combination, including documents too large for naive recursion",
 "the tests run a few selections on one fixed document and check counts or the first hits; order, recursion policies, unions, duplicates and size are not covered.",
 ["src/select.rs","src/query.rs"],
 [("SelectIterator depth-first stack","src/select.rs: SelectIterator::next"),("already_returned bitmap","src/select.rs"),("Selector::matches, and()","src/select.rs"),("Recursion::eval","src/select.rs")],
 [], ["select, select_data, select_by_key, select_data_by_key, get_annotations"])

p("C09","A query selects exactly the elements that satisfy every criterion",
 "A query compiled against a document selects precisely the elements that satisfy all of its criteria: element type, element group, set, class, subset, processor, annotator, annotator type and confidence, where each criterion may ask for a specific value, any value, some value or no value. No criterion is ignored, and asking for a set, class, subset or processor that the document does not know selects nothing. (A set is asked for together with the element type it belongs to, a class or subset together with its set.)",
 ["inputs"],"every document and every conjunction of criteria, with known and unknown values",
 "the tests use queries by element type, set, class and subset only, with values that occur; annotator, annotator type and confidence criteria are never exercised.",
 ["src/query.rs","src/select.rs"],
 [("Selector::from_query","src/select.rs"),("Cmp::matches","src/query.rs"),("Selector::matches","src/select.rs")],
 [], ["Selector::from_query + select"])

p("C10","Ancestors and common ancestors are the true ones, nearest first",
 "The ancestors of an element are exactly the chain of its parents up to the body, nearest first, filtered by the selector without skipping or stopping early; the common ancestors of several elements are exactly the elements that are ancestors of all of them, nearest first. The single-result shortcuts (parent, first ancestor by type or group, first annotation by type and set) agree with the first result of the corresponding full iteration, and an element's index is its position among its parent's data.",
 ["inputs"],"every document, element, selector and list of elements",
 "one test checks ancestors of a word and one checks common ancestors of two words in a fixed sentence.",
 ["src/select.rs","src/element.rs"],
 [("AncestorIterator","src/select.rs"),("common_ancestors","src/select.rs"),("get_ancestor*, get_annotation*, get_parent, get_index","src/element.rs")],
 [], ["ancestors, common_ancestors, get_ancestor, get_parent, get_index"])

p("C11","Span annotations and the words they cover agree in both directions",
 "A word is covered by a span annotation in the annotation's word references if and only if the annotation is found from that word, regardless of whether the document was parsed or built, whether the annotation layer comes before or after the words, and how deeply span roles are nested. A reference to an identifier that does not exist in the document is an error, never a silently dropped or misdirected link.",
 ["inputs","histories"],"every arrangement of words, layers, nested spans and word references, by parsing or through the API",
 "the tests query a single chunk or entity from one word in a fixed document.",
 ["src/document.rs","src/parser.rs","src/select.rs","src/element.rs"],
 [("post_add adds back-references","src/document.rs: post_add"),("SpanReference items in selection","src/select.rs"),("resolve(), idref()","src/element.rs")],
 [("DataType::SpanReference","back-pointer from a word to the span that covers it","src/types.rs")], ["get_annotations on a word, resolve() on a word reference"])

p("C12","High-level span annotation puts each span in the right layer",
 "Adding a span annotation through the high-level interface places it in the annotation layer of its type and set directly under the nearest structural element that contains all its words and may hold such a layer (or under the structural element it was invoked on), reusing that layer if it exists and creating exactly one otherwise. No other element of the document is added, moved or changed, and spans added from different words of the same context share one layer.",
 ["histories","inputs"],"every document structure, every choice of words, annotation type and set, and every sequence of such additions",
 "two tests add one chunk/entity to a sentence with two words; reuse of layers, several sets, and words in different sentences are not tested.",
 ["src/document.rs"],
 [("annotate, annotate_span","src/document.rs"),("get_layer_key","src/document.rs"),("common_ancestors","src/select.rs")],
 [], ["annotate, annotate_span then tree comparison"])

p("C13","Extracted text is the document's text, correctly delimited",
 "The text of an element is the text of its parts in document order joined by the delimiters the specification assigns to each part (a word's delimiter is left out when the word is marked as not followed by a space, unless tokenisation is to be retained), or its own text content of the requested text class when its parts carry no text. Non-printable and hidden elements and text of other classes never contribute, markup inside text content contributes its characters exactly once, and text obtained through word references equals the text of the referenced words.",
 ["inputs","configurations"],"every document structure, text class, and combination of text parameters",
 "four tests check text of fixed sentences; text classes other than the default, nested structure, markup and reference-based text are hardly varied.",
 ["src/text.rs","src/specification.rs"],
 [("text_by_key, get_textdelimiter","src/text.rs"),("textdelimiter, printable, hidden, textcontainer properties","src/specification.rs")],
 [], ["Element::text, Document::text, Display for Element"])

p("C14","The element tree stays a tree under every edit",
 "After any sequence of adding, attaching, moving and detaching elements, every element has at most one parent, parent and child links always agree, every child is listed exactly once at the place it was last attached (as last child), unrelated elements are untouched, and no element is its own ancestor. An operation that cannot be carried out (missing element, would create a cycle) is refused with an error and leaves the document unchanged; a detached element keeps its content and can be attached again.",
 ["histories"],"all sequences of add, attach, detach and construct-with-children operations over valid and invalid targets",
 "the tests attach a few children once; re-attaching, detaching, moving subtrees and invalid operations are not tested in combination.",
 ["src/document.rs","src/element.rs","src/store.rs"],
 [("attach_element, detach_element","src/document.rs"),("add_element_to, add_children","src/document.rs"),("ElementData::push/remove/index","src/element.rs")],
 [("ElementData.parent / data","both directions of the tree relation","src/element.rs")], ["get_parent, get_data_at, select"])

p("C15","Only what the FoLiA specification allows can be annotated",
 "The validating interface accepts an annotation under an element if and only if the FoLiA specification allows an element of that type there, for every pair of element types and every kind of structural, inline or span annotation. An annotation that is refused leaves the document exactly as it was.",
 ["inputs","histories"],"every (parent type, child type) pair of the vocabulary and every sequence of accepted and refused additions",
 "one test tries one disallowed addition; the acceptance relation has thousands of pairs.",
 ["src/document.rs","src/specification.rs"],
 [("check_element_addable","src/document.rs"),("accepted_data","src/specification.rs"),("ElementGroup::contains","src/types.rs")],
 [], ["annotate, check_element_addable"])

p("C16","Identifiers are unique and always resolve to their own element",
 "Looking up an identifier gives the element that carries it and no other, for as long as the element exists, including when it has been moved; looking up an identifier that was never given finds nothing. Adding or loading a second element with an identifier that is already in use is refused with an error, and never silently discards, merges or redirects either element.",
 ["inputs","histories"],"all documents and all sequences of additions with fresh, repeated and unusual identifiers",
 "the tests look up a few known identifiers; repeated identifiers are never tried.",
 ["src/store.rs","src/document.rs","src/elementstore.rs"],
 [("Store::add, index","src/store.rs"),("get_element_by_id, get_element_key_by_id","src/document.rs")],
 [("elementstore.index","identifier to key","src/elementstore.rs")], ["get_element_by_id, get_element_key_by_id"])

p("C17","The vocabulary tables are mutually consistent and match FoLiA",
 "Every element type has exactly one XML tag name and every known tag name maps back to its element type; element types, annotation types, layer types and declaration names correspond one to one where FoLiA says so, and an annotation type's own element type has that annotation type. Every element type has the properties the FoLiA specification gives it (accepted children, attributes, delimiters, printability, grouping), and names outside the vocabulary are refused.",
 ["inputs"],"every element type, annotation type, attribute type, group and name, exhaustively, and all other names by generation",
 "the tests touch only the types occurring in their example documents.",
 ["src/types.rs","src/specification.rs","src/attrib.rs"],
 [("ElementType/AnnotationType conversions and groups","src/types.rs"),("Properties::new","src/specification.rs")],
 [], ["ElementType::from_str/to_string, annotationtype(), layertype(), ElementGroup::contains, Properties::new"])

p("C18","Document metadata and submetadata are preserved",
 "The document identifier, metadata type and source, all metadata fields, and every submetadata block with its own type, source and fields are loaded exactly as written, belong only to the block they were written in, and are written back so that loading and saving preserves them. Field names and values may be any text, including empty values and markup characters.",
 ["inputs"],"every set of metadata fields and submetadata blocks with arbitrary names and values",
 "no test reads or writes metadata fields of a document beyond one fixed title; submetadata is never tested.",
 ["src/parser.rs","src/serialiser.rs","src/metadata.rs","src/document.rs"],
 [("metadata loop","src/parser.rs: parse"),("xml_metadata","src/serialiser.rs")],
 [("Document.metadata, Document.submetadata","key/value stores","src/metadata.rs")], ["doc.metadata, doc.submetadata, Document::xml"])

p("C19","Attribute values are read, stored, edited and written exactly",
 "Each attribute of the FoLiA vocabulary is read into a value of its own kind, written back as an equal value, and is found, replaced and removed by its own kind only: setting an attribute keeps exactly one value of that kind and leaves all others alone. A value that is not valid for its kind (boolean, number, date-time, annotator type) and an unknown attribute is refused with an error.",
 ["inputs","histories"],"every attribute kind with all its values, valid and invalid, and all sequences of set, get and remove on an element",
 "the tests read a handful of identifiers and classes; typed attributes and edits are not covered.",
 ["src/attrib.rs","src/element.rs","src/parser.rs"],
 [("Attribute::parse, to_string, as_str, attribtype","src/attrib.rs"),("attrib, set_attrib, del_attrib, has_attrib","src/element.rs")],
 [], ["Attribute, ElementData::attrib/set_attrib/del_attrib, from_str/xml"])

p("C20","Features keep their subset and class and stay with their annotation",
 "Every feature of an annotation, whether written as a feature element, through its attribute shortcut or added through the API, is found again from its own annotation with exactly its subset and class, in order, and from no other annotation; its vocabulary is that of its annotation's set and does not mix with ordinary classes. Reading features never depends on how many sets or other features the document declares.",
 ["inputs","histories"],"every combination of annotation types, sets, subsets and classes, by parsing or through the API",
 "two tests read one feature from one fixed annotation.",
 ["src/document.rs","src/element.rs","src/metadata.rs","src/parser.rs"],
 [("encode() for features","src/document.rs"),("get_features, get_feature","src/element.rs"),("subset and subclass stores","src/metadata.rs"),("attribute shortcut","src/parser.rs: parse_attributes")],
 [], ["get_features, get_feature, subset(), class()"])

p("C21","The command-line linter accepts exactly loadable files and echoes them",
 "For every input file, the command-line linter prints the document as XML equivalent to what was loaded exactly when the library can load the file, and otherwise reports the error on standard error and prints no document; it never modifies the input, never crashes, and handles every file argument independently of the others.",
 ["inputs","configurations"],"every file content (valid, malformed, missing) and every list of file arguments",
 "no test runs the command-line programs.",
 ["src/bin/folialintr.rs","src/document.rs","src/serialiser.rs"],
 [("main loop over arguments","src/bin/folialintr.rs"),("from_file","src/document.rs")],
 [], ["stdout, stderr and exit status of folialintr"])

p("C22","Stores never lose, move or confuse items",
 "Every key handed out by a document stays valid and keeps denoting the same element, declaration, class, subset or processor through all later additions; adding a value that is already present in a vocabulary returns the existing key and two different values never share a key. Looking up by key and looking up by identifier always agree, and lookups of keys or names that were never handed out find nothing.",
 ["histories"],"all sequences of additions and lookups over the element, declaration, processor, class and subset stores",
 "the tests add one or two items to a store and read them back immediately.",
 ["src/store.rs","src/metadata.rs","src/document.rs"],
 [("Store and StringStore default methods","src/store.rs"),("ClassStore, SubsetStore, DeclarationStore, ProvenanceStore","src/metadata.rs")],
 [], ["add/get/get_key/id_to_key, add_class/class_key"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P: assert len(x['title'])<=80,x['title']
print(len(P))
