------------------------------- MODULE Names -------------------------------
(* Namespaces in XML: scopes of prefix declarations and expanded names.    *)
(* A scope is a function from the declared prefixes to URLs; "" is the      *)
(* default namespace's prefix, and the URL "" means "no namespace".         *)
EXTENDS Sequences, Naturals, FiniteSets

XmlUrl == "http://www.w3.org/XML/1998/namespace"

NoScope == [p \in {} |-> ""]

\* decls: a sequence of <<prefix, url>>
Declare(scope, decls) ==
  LET P == {decls[i][1] : i \in DOMAIN decls}
      Url(p) == decls[CHOOSE i \in DOMAIN decls : decls[i][1] = p][2]
  IN  IF decls = <<>> THEN scope
      ELSE [p \in (DOMAIN scope) \cup P |-> IF p \in P THEN Url(p) ELSE scope[p]]

IsDeclared(scope, p) == p \in {"", "xml"} \/ (p \in DOMAIN scope /\ scope[p] # "")

Lookup(scope, p) ==
  IF p = "xml" THEN XmlUrl ELSE IF p \in DOMAIN scope THEN scope[p] ELSE ""

ElementUrl(scope, p) == Lookup(scope, p)
\* Unprefixed attributes are in no namespace, whatever the default is.
AttributeUrl(scope, p) == IF p = "" THEN "" ELSE Lookup(scope, p)

\* The mappings in scope, as a set of pairs.
Mappings(scope) == {<<p, scope[p]>> : p \in {q \in DOMAIN scope : scope[q] # ""}}
=============================================================================
