------------------------------- MODULE Declare -------------------------------
(* Which declarations of types have a meaning.  The machine reads a           *)
(* declaration the way a derive macro has to: the options of the type, then   *)
(* its members (fields or variants), each with its options; Faults says what  *)
(* is wrong with what was read.                                              *)
(*                                                                          *)
(* An option: [n: name, f: form, k: kind of literal, v: value, p: prefix].    *)
(*   f: "path" (name alone), "nv" (name = literal), "list" (name(x)),        *)
(*      "lit" (a literal), "bare" and "eq" (an attribute without a list)     *)
(*   namespace: p is the prefix ("" if none) and v the URL                   *)
(* A declaration: [tr: trait, sh: shape of the type, opts, mem];             *)
(*   a member: [f: shape, opts]                                              *)
EXTENDS Naturals, Sequences, FiniteSets

XmlUrl == "http://www.w3.org/XML/1998/namespace"
Reserved == {"xml", "xmlns", "xmlfoo"}   \* prefixes that start like this belong to XML

Element == {"Deserialize", "Serialize"}
Text == {"ParseText", "ToText"}

\* The options each place knows.
Flags(tr, place, mode) ==
  IF tr \in Element THEN CASE place = "type" -> {}
                           [] place = "field" -> {"attribute", "default", "flatten", "text"}
                           [] place = "variant" -> {"skip"}
  ELSE IF place = "variant" /\ mode = "restriction" THEN {"unknown"} ELSE {}
Valued(tr, place, mode) ==
  IF tr \in Element THEN IF place = "type" THEN {"rename", "prefix", "namespace", "default_namespace"} ELSE {"rename", "prefix"}
  ELSE CASE place = "type" -> {"mode", "whitespace"}
         [] place = "variant" /\ mode = "restriction" -> {"rename"}
         [] OTHER -> {}
Values(n) == CASE n = "mode" -> {"std", "restriction", "union"}
               [] n = "whitespace" -> {"preserve", "replace", "collapse"}

Known(tr, place, mode, o) ==
  \/ o.f = "path" /\ o.n \in Flags(tr, place, mode)
  \/ o.f = "nv" /\ o.k = "str" /\ o.n \in Valued(tr, place, mode) /\ (o.n \in {"mode", "whitespace"} => o.v \in Values(o.n))

\* ---------------------------------------------------------------- the machine
Start(tr, sh) == [tr |-> tr, sh |-> sh, open |-> "type", mode |-> "none", ns |-> {}, want |-> {}, faults |-> {},
                  f |-> "", has |-> {}, texts |-> 0, unknowns |-> 0]
Blame(s, cond, why) == IF cond THEN [s EXCEPT !.faults = @ \cup {why}] ELSE s

ReadTypeOption(s, o) ==
  IF ~Known(s.tr, "type", "none", o) THEN Blame(s, TRUE, "not understood")
  ELSE CASE o.n = "mode" -> [Blame(s, s.mode # "none", "second mode") EXCEPT !.mode = IF @ = "none" THEN o.v ELSE @]
         [] o.n = "prefix" -> [s EXCEPT !.want = @ \cup {o.v}]
         [] o.n = "namespace" /\ o.p \in Reserved -> Blame(s, o.p # "xml" \/ o.v # XmlUrl, "reserved prefix")
         [] o.n \in {"namespace", "default_namespace"} -> [Blame(s, o.p \in s.ns, "prefix mapped twice") EXCEPT !.ns = @ \cup {o.p}]
         [] OTHER -> s

\* The options of the type are over.
CloseType(s) ==
  LET a == Blame(s, s.want \ (s.ns \cup {"", "xml"}) # {}, "unknown prefix")
      b == Blame(a, s.tr \in Element /\ s.sh \notin {"named", "enum"}, "unsupported type")
      c == Blame(b, s.tr \in Text /\ s.mode = "none", "no mode")
  IN Blame(c, s.tr \in Text /\ s.mode \in {"restriction", "union"} /\ s.sh # "enum", "unsupported type")

\* A member is over.
CloseOpen(s) ==
  LET kinds == s.has \cap {"attribute", "flatten", "text"} IN
  CASE s.open = "type" -> CloseType(s)
    [] s.open = "free" -> s
    [] s.open = "field" ->
         LET a == Blame(s, Cardinality(kinds) > 1, "exclusive options")
             b == Blame(a, "default" \in s.has /\ kinds \cap {"flatten", "text"} # {}, "exclusive options")
             c == Blame(b, "text" \in s.has /\ s.texts > 0, "second text field")
         IN [c EXCEPT !.texts = @ + (IF "text" \in s.has THEN 1 ELSE 0)]
    [] s.open = "variant" /\ s.tr \in Element -> Blame(s, "skip" \notin s.has /\ s.f \notin {"unit", "one"}, "unsupported variant")
    [] s.open = "variant" /\ s.mode = "union" -> Blame(s, s.f # "one", "unsupported variant")
    [] s.open = "variant" /\ s.mode = "restriction" ->
         LET u == "unknown" \in s.has
             a == Blame(s, u /\ "rename" \in s.has, "exclusive options")
             b == Blame(a, s.f # (IF u THEN "one" ELSE "unit"), "unsupported variant")
             c == Blame(b, u /\ s.unknowns > 0, "second unknown variant")
         IN [c EXCEPT !.unknowns = @ + (IF u THEN 1 ELSE 0)]

\* How the members of a type are looked at (those of unsupported types are not).
Looks(s) == IF s.tr \in Element THEN IF s.sh = "named" THEN "field" ELSE IF s.sh = "enum" THEN "variant" ELSE "free"
            ELSE IF s.mode \in {"restriction", "union"} /\ s.sh = "enum" THEN "variant" ELSE "free"
ReadMember(s, f) == [CloseOpen(s) EXCEPT !.open = Looks(s), !.f = f, !.has = {}]

ReadMemberOption(s, o) ==
  IF s.open = "free" THEN s
  ELSE IF ~Known(s.tr, s.open, s.mode, o) THEN Blame(s, TRUE, "not understood")
  ELSE LET a == IF o.n = "prefix" THEN Blame(Blame(s, o.v \notin s.ns \cup {"", "xml"}, "unknown prefix"),
                                             "prefix" \in s.has, "second prefix") ELSE s
       IN [a EXCEPT !.has = @ \cup {o.n}]

Faults(s) == CloseOpen(s).faults

\* ------------------------------------------------ the meaning, all at once
\* (The same rules, stated about the declaration as a whole: independent of the
\* order in which anything is read.)
Items(q) == {q[i] : i \in DOMAIN q}
Named(q, n) == {i \in DOMAIN q : q[i].n = n}
Mode(d) == LET m == Named(d.opts, "mode") IN IF d.tr \in Text /\ Cardinality(m) = 1 THEN d.opts[CHOOSE i \in m : TRUE].v ELSE "none"
Mapped(d) == {i \in DOMAIN d.opts : d.opts[i].n \in {"namespace", "default_namespace"} /\ d.opts[i].p \notin Reserved}
MappedPrefixes(d) == {d.opts[i].p : i \in Mapped(d)} \cup {"", "xml"}
Place(d) == IF d.sh = "enum" THEN "variant" ELSE "field"

HeadMeans(d) ==
  /\ \A o \in Items(d.opts) : Known(d.tr, "type", "none", o)
  /\ \A i, j \in Mapped(d) : i # j => d.opts[i].p # d.opts[j].p
  /\ \A o \in Items(d.opts) : o.n = "namespace" /\ o.p \in Reserved => o.p = "xml" /\ o.v = XmlUrl
  /\ \A o \in Items(d.opts) : o.n = "prefix" => o.v \in MappedPrefixes(d)
  /\ d.tr \in Element => d.sh \in {"named", "enum"}
  /\ d.tr \in Text => Mode(d) # "none" /\ (Mode(d) # "std" => d.sh = "enum")
FieldMeans(m) ==
  LET has == {o.n : o \in Items(m.opts)} IN
  /\ {"attribute", "flatten"} \subseteq has => FALSE
  /\ {"attribute", "text"} \subseteq has => FALSE
  /\ {"flatten", "text"} \subseteq has => FALSE
  /\ "default" \in has => {"flatten", "text"} \cap has = {}
VariantMeans(d, m) ==
  LET has == {o.n : o \in Items(m.opts)} IN
  CASE d.tr \in Element -> "skip" \in has \/ m.f \in {"unit", "one"}
    [] Mode(d) = "union" -> m.f = "one"
    [] OTHER -> IF "unknown" \in has THEN m.f = "one" /\ "rename" \notin has ELSE m.f = "unit"
Only(d, n) == Cardinality({i \in DOMAIN d.mem : Named(d.mem[i].opts, n) # {}}) <= 1
Means(d) ==
  /\ HeadMeans(d)
  /\ \/ d.tr \in Text /\ Mode(d) = "std"
     \/ /\ \A i \in DOMAIN d.mem :
             LET m == d.mem[i] IN
             /\ \A o \in Items(m.opts) : Known(d.tr, Place(d), Mode(d), o) /\ (o.n = "prefix" => o.v \in MappedPrefixes(d))
             /\ Cardinality(Named(m.opts, "prefix")) <= 1
             /\ IF Place(d) = "field" THEN FieldMeans(m) ELSE VariantMeans(d, m)
        /\ Only(d, IF Place(d) = "field" THEN "text" ELSE "unknown")
=============================================================================
