CHECK = {
 "C01": ("TLA+/TLC: exhaustive state machine of the pull reader, behaviours replayed on the real reader, recorded runs trace-validated",
   "Every behaviour of the reader machine over all documents of up to 4 elements (5 thorough) and 2 (3) deviating handler decisions, checked against a declarative reading of the document and replayed on the real code; seeded random larger documents (depth 300, skipped 1000; 1100 siblings, 360 attributes, 70 KB texts) trace-validated. Handlers may also return errors of other documents or kept from earlier. Trusts the XML parser below the crate, TLC, and the document renderer."),
 "C02": ("TLA+/TLC: error path, position and cause as part of the reader state machine; behaviours replayed and recorded errors trace-validated",
   "As C01, for behaviours that end in or pass through errors: handlers' errors (also of other documents, and ones kept from earlier), parser errors at generated malformed constructs, source failures. Positions inside xml-rs's own unreliable spots (end tags, tags right after references) are unspecified."),
 "C03": ("TLA+ trace validation of every truncation, source failure, malformed construct and division into reads against the reader state machine (TLC)",
   "Every byte offset of small documents for truncation and source failure (five error kinds), 22 malformed constructs at every tag, all surroundings of the root; equality of runs under different divisions into reads. Documents that xml-rs itself accepts although malformed are listed as known findings."),
}

SCH = "TLA+/TLC: declarative reading/writing semantics of derived types (spec/Schema.tla); recorded runs of the derived code trace-validated"
GEN = "Fixed corpus and seeded random universe of derived types (all field kinds, options, nestings to depth 4; to 72 fields, 70 variants, 14 namespaces, names of 60 characters), all small documents by TLC (MCSchema) and generated ones with targeted mutations, some with 1100 occurrences; every run of the derived code is compared with the specification's answer. "
WR = "TLA+/TLC: serialization state machine (spec/Writer.tla); recorded runs of the real serializer (calls, sink, output) trace-validated"
TX = "TLA+/TLC: text semantics (spec/Text.tla); laws checked exhaustively over all short strings, each replayed on the real code, larger ones trace-validated"
CHECK.update({
 "C04": (SCH, GEN + "For element fields: every count 0..3 of each field, unknown children at every position with hostile content, defaults, nested and flattened owners. Ownership log of every value compared."),
 "C05": (SCH, GEN + "For attribute fields: presence, absence, duplicates under two prefixes, same names on ancestors, descendants and child elements."),
 "C06": (SCH, GEN + "For names: each document rendered under several prefix assignments, shadowing, default namespaces and redundant declarations; changed URLs and local names."),
 "C07": (SCH, GEN + "For enums: every sequence of up to 3 children over the variants, unknown and skipped names; root, field and flattened enums; writing skipped variants."),
 "C08": (SCH, GEN + "For flattening: struct and enum containers to depth 3, own fields shadowing flattened ones, two flattened fields competing for a name, optional, repeated and boxed ones."),
 "C09": (WR, "Every special character alone and in pairs in text and attributes at several places, random programs, long and deep ones; output read back by expat and compared with what was requested, token by token. Values of derived types as well. Trusts expat."),
 "C10": (SCH, GEN + "For unambiguous types: random values written by the real code and read back by the real code, equality decided on the canonical value; the specification's own reading of the written document must agree."),
 "C11": (WR, "Sink failures of several kinds at every byte offset of small documents, failing flushes, short and interrupted writes, dropped builders and writers and bad content at every element, with and without content that ignores the errors; all small programs with misdeeds by TLC (MCWriter)."),
 "C12": (WR, "All nestings of two elements over 13 namespace request lists and all names and attributes they allow, crowds of 40 namespaces asking for one prefix, all small programs by TLC (MCWriter), random programs nested to depth 5; scopes recomputed from the tags as written."),
 "C13": (TX, "All strings up to length 5 over the characters with a role, and random long ones; preserve, replace and collapse directly and through text types declaring a mode."),
 "C14": (TX, "Generated restriction, union and std types over all modes; listed strings, near misses, white space variants and random strings; union members in every order."),
 "C15": (TX, "All strings up to length 4 over digits, signs and white space, boundary values of every width with variations; printed forms of boundary and random values; as element content and as attributes."),
 "C16": (SCH, GEN + "For text: the same content divided into references, CDATA sections, comments, processing instructions and children in many ways, in text values, text fields and flattened ones."),
 "C17": (SCH, GEN + "For ownership: every value counts its constructions and drops; truncations, failing parsers, duplicates and errors at every point, and panics of the caller's code while values are made; live counts compared before and after."),
 "C18": (SCH, GEN + "For output: names, renames, raw identifiers, namespaces, order, omission, text forms; compared with the specification's document as read by expat. Types which do not compile are violations."),
 "C19": (WR, "Random programs and derived values under all four option combinations, to a string and to sinks with short writes; byte equality per option set and structural equality across them."),
})

CHECK["C20"] = ("TLA+/TLC: machine reading a declaration item by item (spec/Declare.tla), agreeing with a declarative meaning on all small declarations; printed declarations compiled with the real macros and the verdicts trace-validated",
   "All declarations over pools of every option, form and shape with two to four options (about 39,000 per run; TLC), of which several thousand, and random larger ones, are compiled by rustc with the real macros; each verdict (compiles, error inside, error elsewhere) must be the specification's. Error messages themselves are not compared; repeated options and options without effect (rename on text fields) are left open.")
