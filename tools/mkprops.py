#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the wording is reviewed in one place)."""
import json, os
DE="static-xml/src/de/mod.rs"; SER="static-xml/src/ser/mod.rs"; LIB="static-xml/src/lib.rs"
DDE="static-xml-derive/src/deserialize.rs"; DSER="static-xml-derive/src/serialize.rs"; DC="static-xml-derive/src/common.rs"
DP="static-xml-derive/src/parse.rs"; DT="static-xml-derive/src/to_text.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    P.append(d)

p("C01","A handler sees exactly the content of its own element",
 "For every well-formed document and every combination of handler choices (read a child, read it as text, ignore it, give up on it partway, discard an error raised inside it), a handler reading an element is given that element's attributes and then its direct child elements and character data in document order, each exactly once, and never content belonging to another element. Whatever a handler leaves unread in a child is skipped, and reading resumes right after that child. Child handlers are told the child's correct name, depth, and in-scope namespace mappings.",
 ["inputs","histories"],
 "All well-formed documents, all sequences of handler decisions at every callback (decline, read, read as text, fail, swallow, re-wrap), at every depth.",
 "The repository has no test of handlers that ignore, abandon or recover (its only TODO about it says so); the combinations of document shape and decision sequence are unbounded.",
 [DE],[("return_to_depth skipping and stack trimming",DE+" Reader::return_to_depth"),("read_to event loop",DE+" ElementReader::read_to"),("deferred stack pop",DE+" ErasedReader::next")],
 ["ElementVisitor callbacks and ElementReader accessors"],
 [("depth","number of open elements consumed from the parser",DE+" Reader.depth"),("stack","open elements plus possibly the one just ended",DE+" Reader.stack")])
p("C02","Errors carry the right element path, position and cause",
 "Every error returned for a document lists exactly the path of elements, root first, from the root to the element that was being processed when the error arose, each with its qualified name and the position of its start tag, and its text shows the message, the line and column of the failing construct, and that path. The original cause is reachable as the error's source. Passing an error on through any number of enclosing handlers changes none of this.",
 ["inputs","histories"],
 "All documents, all handler/type definitions, every point at which a parse, missing-item, duplicate, user or XML error can arise, any nesting depth.",
 "No test looks at the path or position of an error at all; where the path must include a just-closed element depends on event timing.",
 [DE],[("stack snapshot at error creation",DE+" Error::deserializer/msg/xml"),("wrap vs propagate",DE+" VisitorError::wrap"),("Display",DE+" impl Display for Error"),("source",DE+" ErrorKind::source")],
 ["static_xml::de::Error: stack(), Display, source()"])
p("C03","Broken input always yields an error, never a value, panic or hang",
 "Reading a document that is truncated at any byte before its root element is closed, is not well-formed, or whose byte source reports a failure before the end, returns an error; it never returns a value, panics, or fails to return. The result for any document does not depend on how the byte source divides the bytes into reads. Comments, processing instructions, an XML declaration and white space around the root element never turn a good document into an error.",
 ["inputs","fault_sequences","crash_points"],
 "All documents, all truncation points, all single malformations, all I/O failure points, all ways of splitting the source into reads, all handler behaviours including those that swallow errors.",
 "Tests only read complete in-memory documents; no test truncates, splits or fails a source.",
 [DE],[("end-of-document check",DE+" Reader::end"),("error propagation from every parser call",DE+" Reader::next/root/return_to_depth")],
 ["static_xml::de::read / from_str results"])
p("C04","Element fields: each occurrence counted, defaults only when absent",
 "In a struct read from an element, a field for a child element takes the value of the matching child: a plain or optional field accepts at most one occurrence (a second is an error), a repeated field collects every occurrence in document order. An absent child is an error for a plain field, the default value for a field so marked, none for an optional field and empty for a repeated one; a field type which the user implements is asked for the first occurrence, for each later one, or for a substitute if there is none. Children that match no field, in any position and with any content, have no effect on the result.",
 ["inputs","programs"],
 "All struct definitions with any mix of plain, optional, repeated and defaulted element fields, and all documents.",
 "Tests cover one or two hand-written structs; absent/duplicate/unknown combinations, orders and nesting are unbounded.",
 [DDE,DE],[("generated match and presence flags",DDE+" element_match_branches"),("finalize",DDE+" finalize_visitor_fields"),("cardinality",DE+" DeserializeElementField impls")],
 ["value or error returned by reading a derived struct"])
p("C05","Attribute fields: value, absence, duplicates and defaults",
 "In a struct read from an element, an attribute field takes the parsed value of the attribute with its expanded name on that element itself, never of an ancestor or descendant, and never of a child element of the same name. An absent attribute is an error for a plain field, the default for a field so marked, and none for an optional one (a field type which the user implements decides for itself); two attributes with the same expanded name are an error. Attributes matching no field have no effect on the result.",
 ["inputs","programs"],
 "All struct definitions with attribute fields (including prefixed ones and the built-in xml prefix), all documents.",
 "Tests use a couple of attributes in one struct; interaction of names, namespaces, defaults and duplicates is unbounded.",
 [DDE,DE],[("generated attribute match",DDE+" attribute_match_branches"),("DeserializeAttrField impls",DE),("expanded names",LIB+" ExpandedNameRef::from_xml_name")],
 ["value or error returned by reading a derived struct"])
p("C06","Names match by namespace URL and local name, never by prefix",
 "Elements and attributes are matched to fields and variants by their namespace URL and local name only. Renaming prefixes, moving or repeating namespace declarations, shadowing a prefix or the default namespace, and using or not using the default namespace never change the result of reading a document as long as expanded names stay the same, and any change of URL or local name makes it a different name. An unprefixed attribute is in no namespace, and the prefix xml is always bound to its fixed URL.",
 ["inputs","programs"],
 "All documents and all re-declarations/renamings of prefixes in them, all types whose names share local names or URLs in any order.",
 "Tests contain a few fixed prefixes; scoping, shadowing and name-lookup order (a binary search over sorted names) depend on unbounded combinations.",
 [LIB,DE,DC,DDE],[("expanded name",LIB+" ExpandedNameRef::from_xml_name"),("sorted lookup",DE+" find; "+DC+" sorted_elements/sorted_attributes/variants sort"),("prefix resolution at derive time",DC+" Namespaces::process_prefix")],
 ["value or error returned by reading a document and its prefix-renamed variants"])
p("C07","An enum takes exactly one alternative",
 "An enum read from an element, or flattened into a struct, yields the variant whose name matches the child element found, with that child's content as its value; several children of the same repeatable variant accumulate in order. A child of a different known variant after the first, a second occurrence of a single-valued variant, and the absence of any known child are errors. Names of skipped variants and unknown names are ignored, and serializing a skipped variant is an error.",
 ["inputs","programs"],
 "All enum definitions (unit, single, optional, repeated payloads; renamed, prefixed, skipped variants in any declaration order), all documents and values.",
 "Tests read one or two enums with one or two children; variant order, repetition and skipping combine without bound.",
 [DDE,DSER,DC,DE],[("generated enum visitor",DDE+" do_enum"),("variant sort",DC+" ElementEnum::new"),("enum serialization",DSER+" do_enum")],
 ["value or error returned by reading / writing a derived enum"])
p("C08","Flattened fields get exactly what the container does not take",
 "Children, attributes and text of an element that match none of a struct's own fields are offered to its flattened fields in declaration order, and the first one that recognizes the name takes it, to any depth of flattening. The struct's own fields always win, an item is never given to two fields, and an item that one flattened field does not recognize still reaches the next. A flattened field that is incomplete, or that rejects an item, makes the whole element an error.",
 ["inputs","programs"],
 "All struct definitions with any number and nesting of flattened structs and enums, overlapping or disjoint names, and all documents.",
 "Tests flatten one enum; offering order, overlap and nested flattening are only decided over all combinations.",
 [DE,DDE],[("delegation helpers",DE+" delegate_element/delegate_attribute/delegate_characters"),("generated fallthrough",DDE+" do_struct")],
 ["value or error returned by reading a derived struct"])
p("C09","Successful output is well-formed XML saying exactly what was written",
 "Whenever serialization of elements and attributes with valid XML names reports success, the bytes delivered are one well-formed, namespace-well-formed UTF-8 XML document whose elements, attributes and character data, as any conforming parser reports them, are exactly those requested, in the order requested, character for character. Content that no XML document could carry leads to an error instead, and no other content does.",
 ["inputs","histories"],
 "All sequences of serialization calls (nested elements, namespaces, attributes, texts) with all strings, including markup, quotes, white space, control and non-BMP characters.",
 "Tests compare a few short outputs; no test feeds special characters or re-parses with an independent parser.",
 [SER],[("escaping",SER+" escape"),("start/end/text writing",SER+" ElementBuilder::start, ElementWriter"),("namespace declarations",SER+" Namespaces::declarations")],
 ["bytes written by Serializer::to / to_string"])
p("C10","Writing a value and reading it back gives the same value",
 "For every value of a derived type whose names are unambiguous (each name is taken by one field only, each text by one variant only, and an enum holds at least one item), reading back its serialized form yields an equal value: every field, attribute, text, optional, repeated and flattened part, and every primitive, with all of its strings character for character.",
 ["inputs","programs"],
 "All unambiguous type definitions and all their values (extreme numbers, empty and white-space strings, arbitrary characters, empty and long lists, deep nesting).",
 "Tests round-trip no value at all; equality for all types and values needs a model of both directions.",
 [SER,DE,DSER,DDE],[("derive both directions",DSER+" / "+DDE),("text forms",SER+" ToText; "+DE+" ParseText")],
 ["from_str(serialize(v).to_string()) == v"])
p("C11","Serialization is all or error",
 "Serialization reports success only if the complete document was accepted by the sink in order, without loss or repetition, and the sink was flushed after the last byte. Any sink failure, and any element left unstarted or unfinished, makes the overall result an error even if the code producing the content ignores the error it was given, and every later write reports that first error and adds nothing to the output. Short writes and interrupted writes never alter the output.",
 ["fault_sequences","crash_points","histories"],
 "All programs of serialization calls, all positions and kinds of sink failure (write error at any byte, zero-length write, short write, interruption, flush error), all misuse points, with errors propagated or ignored.",
 "Two tests drop one builder/writer; no test has a failing sink or a serializer that ignores an error.",
 [SER],[("poison",SER+" WrappedWriter::write/poison"),("drop guards",SER+" Drop for ElementBuilder/ElementWriter"),("final flush",SER+" Serializer::to")],
 ["results of ElementWriter calls and of Serializer::to; bytes seen by the sink"])
p("C12","Every prefix written is declared and means the requested URL",
 "In output reported as successful, every prefix used on an element or attribute is declared in scope at that point and bound to the URL requested for that name; names requested in no namespace are in none, namespaced attributes always carry a prefix, and no element has two attributes with the same expanded name. This holds for any nesting in which descendants re-map prefixes, reuse URLs under other prefixes, or change the default namespace. A requested prefix is the one written when nothing else in scope or on that element competes for that prefix or URL (a prefix that the URL already has outside competes only on an element which is itself named in that URL).",
 ["inputs","histories"],
 "All trees of elements with any namespace mappings (colliding prefixes, several prefixes for one URL, default namespaces set, overridden or avoided, generated prefixes colliding with requested ones) and any namespaced attributes.",
 "Tests pin three small documents; prefix assignment depends on the whole chain of ancestors' mappings.",
 [SER],[("prefix assignment",SER+" NamespacesBuilder::finalize"),("inheritance",SER+" Namespaces::child"),("declarations",SER+" Namespaces::declarations"),("resolution",SER+" resolve_element/resolve_attribute")],
 ["bytes written, resolved by an independent namespace-aware reading"],
 [("by_prefix","prefix to URL in scope",SER+" Namespaces.by_prefix")])
p("C13","White space normalization follows XML Schema",
 "For every string, preserve returns it unchanged; replace turns each tab, line feed and carriage return into one space and changes nothing else; collapse additionally reduces each run of spaces to a single one and removes leading and trailing ones. No other character, however encoded, is touched, and a text type declaring a white space mode parses the normalized string.",
 ["inputs"],"All strings, including every arrangement of the four white space characters and multi-byte characters.",
 "One doc example with one string; the in-place algorithm has many alignments of runs which only systematic enumeration reaches.",
 [DE,DP],[("normalize",DE+" normalize"),("derive whitespace",DP+" normalize")],["static_xml::de::normalize; derived text types"])
p("C14","Text enums: restriction, union and std modes",
 "A restriction type accepts exactly its listed strings (after its white space mode), giving the variant declared for each, and otherwise yields its unknown variant with the text, or an error if it has none; writing a variant gives its string back. A union type yields the first variant in declaration order whose type accepts the text and an error only if all reject it; writing delegates to the variant held. A std type parses and prints with the wrapped type's own conversions, after its white space mode.",
 ["inputs","programs"],"All such type definitions (renames, order, nested unions, white space modes) and all strings/values.",
 "Tests check two enums with two strings each.",
 [DP,DT,DC],[("restriction",DP+" do_restriction; "+DT+" do_restriction"),("union",DP+" do_union"),("std",DP+" do_std")],["ParseText/ToText of derived types"])
p("C15","Booleans and integers: exact lexical space and value",
 "A boolean is read from exactly true, false, 1 and 0, and an integer of each width from exactly an optional sign and decimal digits whose value is in range, each optionally surrounded by XML white space only; every other text is an error, and the value read is the one denoted. Every boolean and integer is written in a form which denotes it and is valid XML Schema. This holds equally for element content and attributes.",
 ["inputs"],"All strings near and outside the lexical space (signs, leading zeros, boundaries of each of the ten widths and one beyond, other white space and digits), all values.",
 "Tests use a handful of values of one or two types.",
 [DE,SER],[("bool",DE+" impl ParseText for bool"),("numbers",DE+" text_for_num!"),("ToText",SER+" text_from_display!")],["ParseText::parse, ToText::to_text; elements and attributes read"])
p("C16","Text content is assembled completely and in order",
 "The text of an element read as a text value, or as a struct's text field, is the concatenation in document order of all character data directly inside that element: entities and character references expanded, CDATA sections, white-space-only parts, and parts separated by comments or processing instructions all included, and nothing from elsewhere. A text value's element with a child element is an error, while a text field ignores the content of unknown children. The division of text into sections, references and parts never affects the result.",
 ["inputs"],"All documents and all ways of writing the same character data (entities, references, CDATA, comments and processing instructions in between, nested unknown elements in between).",
 "Tests read texts written in one way only.",
 [DE,DDE],[("read_string",DE+" ElementReader::read_string"),("characters events",DE+" Reader::next"),("text fields",DDE+" ElementFieldMode::Text")],["values read"])
p("C17","Every value created while reading is dropped exactly once",
 "Every field value constructed while reading a document is either part of the returned value or dropped exactly once when reading fails or is unwound by a panic of user code, at whatever point; no value is leaked, dropped twice, or used without having been constructed. A returned value owns exactly the values constructed for it, and dropping it drops each exactly once.",
 ["inputs","programs","crash_points"],"All derived types (plain, optional, repeated, defaulted, attribute, text, flattened, enum parts), all documents, every point at which reading can fail or user code can panic.",
 "No test observes drops; the generated code writes uninitialized memory and tracks presence by hand, so an error at each point is a different path.",
 [DDE,DE],[("presence flags and unsafe writes",DDE+" element_match_branches/attribute_match_branches/finalize_visitor_fields"),("visitor Drop",DDE+" do_struct/do_enum Drop"),("hand-off",DE+" impl_deserialize_via_raw!")],
 ["construction and drop of an instrumented leaf type"],
 [("<field>_present","field is initialized",DDE)])
p("C18","Derived output: names, order, omission and namespaces as declared",
 "A derived type is written with the element, attribute, variant and root names declared for it (Rust name without any raw-identifier marker, or its rename, in the namespace of its declared prefix, or of no prefix), with own attributes before those of flattened fields, own text and elements before those of flattened fields, and each group in declaration order. Absent optionals are omitted, repeated fields produce one element per item in order, text and attribute values are the text forms of the values. Every valid combination of the documented options compiles.",
 ["programs","inputs"],"All derivable type definitions using the documented attributes and all their values.",
 "Tests derive a handful of types and compare one output each.",
 [DSER,DC,SER],[("struct output",DSER+" write_struct_attributes/write_struct_elements"),("enum output",DSER+" do_enum"),("names",DC+" Name/ElementAttr/ElementField"),("field output",SER+" SerializeField/SerializeAttr impls")],["bytes written for derived values"])
p("C19","Serializer options never change what the document says",
 "Turning indentation or the document declaration on or off, and writing to a sink instead of a string, never change the document's elements, attributes, or the text of elements that contain only text; indentation adds white space only between tags of elements with child elements and no text of their own. The declaration appears exactly once at the start if enabled and not at all if disabled. Writing to a sink delivers exactly the bytes of the string form.",
 ["configurations","inputs"],"All values/trees without mixed content, all four option combinations, both output methods, with default and chosen root names.",
 "No test uses the options or a sink other than a string.",
 [SER],[("options",SER+" Serializer::perform_indent/write_document_declaration/to/to_string")],["bytes written under each option combination"])
p("C20","Declarations without a meaning are compile errors, all others compile",
 "A type declaration to which the documentation gives no meaning is rejected by each derive macro with a compile error inside the declaration, wherever and in whichever order its options are written: an option not known at its place (any place except inside of std text types), a value of the wrong kind or not among those listed, options that exclude each other (attribute, flatten and text; default with flatten or text; unknown with rename), a missing or second mode, a second text field or unknown variant, a second prefix of one field or variant, a prefix that is not mapped or is mapped twice, and a shape of type or of (not skipped) variant that the macro or mode does not support. Every declaration made of the documented options that has none of these faults compiles and implements the trait.",
 ["programs","inputs"],"All declarations of types with the derive macros: all shapes, options, values and their orders and groupings.",
 "No test compiles a wrong declaration, and the ways of combining options, shapes and places are unbounded.",
 [DC,DDE,DSER,DP,DT],[("options of types",DC+" ElementAttr::new, TextAttr::new"),("options of members",DC+" ElementField::new, ElementEnum::new, TextEnum::parse_restriction_fields/parse_union_fields"),("prefixes",DC+" Namespaces"),("collected errors",DC+" Errors; static-xml-derive/src/lib.rs derive")],
 ["result and error positions of compiling the declaration"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P:
        assert len(d["title"])<=80,d["title"]
        assert d["statement"].count(". ")<=2,(d["id"])
        f.write(json.dumps(d)+"\n")
print(len(P))
