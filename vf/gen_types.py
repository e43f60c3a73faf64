"""Derived types: a fixed corpus that covers the documented options and seeded random ones. Each is given
both as Rust source and as the record spec/Schema.tla reads."""
import itertools
import json
import random

RUST_PRIM = {"str": "String", "bool": "bool", "f32": "f32", "f64": "f64", "probe": "vfcore::probe::Probe",
             **{s + str(w): s + str(w) for s in "iu" for w in (8, 16, 32, 64, 128)}}
URLX = "http://www.w3.org/XML/1998/namespace"


def cps(s):
    return [ord(c) for c in s]


def prim_spec(n):
    if n in ("str", "bool", "probe"):
        return {"k": n}
    if n in ("f32", "f64"):
        return {"k": "float"}
    return {"k": "int", "sg": n[0] == "i", "w": int(n[1:])}


PRIM_DV = {"str": ["s", []], "bool": ["b", 0], "f32": ["f", [48]], "f64": ["f", [48]], "probe": ["p", cps("dflt")]}


def rs(s):
    """A Rust string literal."""
    return '"' + "".join(c if " " <= c <= "~" and c not in '"\\' else "\\u{%x}" % ord(c) for c in s) + '"'


OPTS = ["Option<%s>", "::std::option::Option<%s>", "vfcore::schema::Maybe<%s>"]
VECS = ["Vec<%s>", "std::vec::Vec<%s>", "vfcore::schema::Many<%s>"]
MINE = {"last": "vfcore::schema::Last<%s>", "first": "vfcore::schema::First<%s>", "two": "vfcore::schema::Two<%s>", "nil": "vfcore::schema::Nil<%s>"}


def wrapped(c, rt, k):
    """The Rust type of a field; in a library which users extend, nothing may depend on how it is spelled."""
    if c in MINE:
        return MINE[c] % rt
    k = max(0, k % 5 - 2)
    return {"one": rt, "opt": OPTS[k] % rt, "vec": VECS[k] % rt}[c]


class Universe:
    def __init__(self):
        self.spec = []     # TLA+ records; index i is type number i + 1
        self.rust = []     # Rust type names
        self.code = []     # Rust source per type, or None
        self.tags = []     # sets of features
        self.prim = {}
        for n in RUST_PRIM:
            d = dict(prim_spec(n), dv=PRIM_DV.get(n, ["i", [48]]), name=n)
            self.spec.append(d)
            self.rust.append(RUST_PRIM[n])
            self.code.append(None)
            self.tags.append({"prim"})
            self.prim[n] = len(self.spec)
        self.uses = {}     # type -> types in its definition

    def __getitem__(self, i):
        return self.spec[i - 1]

    def ty(self, x):
        return self.prim[x] if isinstance(x, str) else x

    def istext(self, i):
        return self[i]["k"] not in ("struct", "enum")

    def add(self, spec, code, tags, uses=(), tn=None):
        self.spec.append(spec)
        i = len(self.spec)
        self.rust.append(tn or "T%d" % i)
        self.code.append(code)
        self.tags.append(set(tags))
        self.uses[i] = set(uses)
        return i

    def next(self):
        return len(self.spec) + 1

    # -- text types -------------------------------------------------------------------------

    def restr(self, variants, ws=0, vis="pub"):
        """variants: [(ident, rename or None)] or (ident, True) for the unknown variant."""
        i = self.next()
        v, c, enc, dec = [], [], [], []
        for j, (ident, ren) in enumerate(variants):
            if ren is True:
                v.append({"known": False, "s": []})
                c.append("#[static_xml(unknown)] %s(String)," % ident)
                enc.append("T%d::%s(x) => ev(%d, x.enc())," % (i, ident, j + 1))
                dec.append("%d => T%d::%s(Val::dec(&j.arr()[2]))," % (j + 1, i, ident))
            else:
                name = ren if ren is not None else ident.replace("r#", "")
                v.append({"known": True, "s": cps(name)})
                c.append(("#[static_xml(rename = %s)] " % rs(ren) if ren is not None else "") + ident + ",")
                enc.append("T%d::%s => ev(%d, unit())," % (i, ident, j + 1))
                dec.append("%d => T%d::%s," % (j + 1, i, ident))
        return self.finish_text(i, {"k": "restr", "ws": ws, "vars": v}, "restriction", ws,
                                "%s enum T%d { %s }" % (vis, i, " ".join(c)), enc, dec)

    def union(self, variants, ws=0, vis="pub"):
        """variants: [(ident, type)]"""
        i = self.next()
        v, c, enc, dec = [], [], [], []
        for j, (ident, t) in enumerate(variants):
            t = self.ty(t)
            v.append(t)
            c.append("%s(%s)," % (ident, self.rust[t - 1]))
            enc.append("T%d::%s(x) => ev(%d, x.enc())," % (i, ident, j + 1))
            dec.append("%d => T%d::%s(Val::dec(&j.arr()[2]))," % (j + 1, i, ident))
        return self.finish_text(i, {"k": "union", "ws": ws, "vars": v}, "union", ws,
                                "%s enum T%d { %s }" % (vis, i, " ".join(c)), enc, dec, uses=v)

    def finish_text(self, i, spec, mode, ws, body, enc, dec, uses=()):
        w = ["", ', whitespace = "replace"', ', whitespace = "collapse"'][ws]
        code = "#[derive(ParseText, ToText)]\n#[static_xml(mode = \"%s\"%s)]\n%s\n" % (mode, w, body)
        code += "impl Val for T%d { fn enc(&self) -> J { match self { %s } }\n" % (i, " ".join(enc))
        code += "  fn dec(j: &J) -> Self { match j.arr()[1].int() { %s _ => panic!(\"harness: variant\") } } }\n" % " ".join(dec)
        return self.add(spec, code, {"text", mode}, uses)

    def std(self, by, ws=0, vis="pub", explicit=False):
        i = self.next()
        w = ["", ', whitespace = "replace"', ', whitespace = "collapse"'][ws]
        if explicit and ws == 0:
            w = ', whitespace = "preserve"'
        code = "#[derive(ParseText, ToText)]\n#[static_xml(mode = \"std\"%s)]\n" % w
        if by == "br":
            code += "%s struct T%d(String);\n" % (vis, i)
            code += ("impl std::str::FromStr for T%d { type Err = vfcore::errs::UserError; fn from_str(s: &str) -> Result<Self, Self::Err> {"
                     " if s.contains('x') { Err(vfcore::errs::UserError(\"x\".to_owned())) } else { Ok(T%d(s.to_owned())) } } }\n" % (i, i))
            code += "impl std::fmt::Display for T%d { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, \"[{}]\", self.0) } }\n" % i
            code += "impl Val for T%d { fn enc(&self) -> J { tag(\"x\", json::text(&self.0)) } fn dec(j: &J) -> Self { T%d(j.arr()[1].text()) } }\n" % (i, i)
        else:
            code += "%s struct T%d { n: i32 }\n" % (vis, i)
            code += ("impl std::str::FromStr for T%d { type Err = std::num::ParseIntError; fn from_str(s: &str) -> Result<Self, Self::Err> {"
                     " Ok(T%d { n: s.parse()? }) } }\n" % (i, i))
            code += "impl std::fmt::Display for T%d { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, \"{}\", self.n) } }\n" % i
            code += ("impl Val for T%d { fn enc(&self) -> J { tag(\"x\", json::text(&self.n.to_string())) }"
                     " fn dec(j: &J) -> Self { T%d { n: j.arr()[1].text().parse().unwrap() } } }\n" % (i, i))
        return self.add({"k": "std", "ws": ws, "by": by}, code, {"text", "std"})

    # -- element types ----------------------------------------------------------------------

    def type_attrs(self, ns, default, name, style=0):
        """The type-level attributes; ns: [(prefix, url)]."""
        out = []
        for p, u in ns:
            out.append('namespace = %s' % rs(p + ": " + u))
        if default is not None:
            out.append(("namespace = %s" if style == 1 and ": " not in default else "default_namespace = %s") % rs(default))
        if name.get("rename") is not None:
            out.append("rename = %s" % rs(name["rename"]))
        if name.get("prefix") is not None:
            out.append("prefix = %s" % rs(name["prefix"]))
        if style == 2:
            out.reverse()
        return "#[static_xml(%s)]\n" % ", ".join(out) if out else ""

    def url(self, prefix, ns, default):
        if prefix is None:
            return ""
        if prefix == "xml":
            return URLX
        if prefix == "":
            return default or ""
        return dict(ns)[prefix]

    def struct(self, fields, ns=(), default=None, rename=None, prefix=None, vis="pub", style=0, tags=(), tn=None):
        """fields: dicts m, ident, ty ("self" allowed under vec), c, def, rename, prefix, split"""
        i = self.next()
        tn = tn or "T%d" % i
        fs, code, enc, dec, uses = [], [], [], [], set()
        for f in fields:
            m = f["m"]
            t = i if f["ty"] == "self" else self.ty(f["ty"])
            uses.add(t)
            c = f.get("c", "one")
            rt = tn if t == i else self.rust[t - 1]
            rt = wrapped(c, rt, i + len(fs))
            at = []
            if m == "attr":
                at.append("attribute")
            if m == "flat":
                at.append("flatten")
            if m == "text":
                at.append("text")
            if f.get("def"):
                at.append("default")
            if f.get("rename") is not None:
                at.append("rename = %s" % rs(f["rename"]))
            if f.get("prefix") is not None:
                at.append("prefix = %s" % rs(f["prefix"]))
            if f.get("split"):
                a = " ".join("#[static_xml(%s)]" % x for x in reversed(at))
            else:
                a = "#[static_xml(%s)]" % ", ".join(at) if at else ""
            code.append("    %s %s%s: %s," % (a, f.get("vis", ""), f["ident"], rt))
            l = f["rename"] if f.get("rename") is not None else f["ident"].replace("r#", "")
            fs.append({"m": m, "n": self.url(f.get("prefix"), ns, default) if m in ("attr", "elem") else "",
                       "l": l if m in ("attr", "elem") else "", "c": c, "ty": t, "def": bool(f.get("def"))})
            enc.append("self.%s.enc()" % f["ident"])
            dec.append("%s: Val::dec(&f[%d])," % (f["ident"], len(fs) - 1))
        name = rename if rename is not None else tn.replace("r#", "")
        allns = sorted(list(ns) + ([("", default)] if default is not None else []))
        spec = {"k": "struct", "n": self.url(prefix, ns, default), "l": name, "ns": [list(x) for x in allns], "fields": fs}
        src = "#[derive(Deserialize, Serialize)]\n" + self.type_attrs(ns, default, {"rename": rename, "prefix": prefix}, style)
        src += "%s struct %s {\n%s\n}\n" % (vis, tn, "\n".join(code))
        src += "impl Val for %s { fn enc(&self) -> J { tag(\"st\", J::A(vec![%s])) }\n" % (tn, ", ".join(enc))
        src += "  fn dec(j: &J) -> Self { let f = j.arr()[1].arr(); let _ = f; %s { %s } } }\n" % (tn, " ".join(dec))
        return self.add(spec, src, {"struct"} | set(tags), uses, tn)

    def enum(self, variants, ns=(), default=None, rename=None, prefix=None, vis="pub", style=0, tags=(), tn=None):
        """variants: dicts ident, ty or None, c, rename, prefix, skip"""
        i = self.next()
        tn = tn or "T%d" % i
        vs, code, enc, dec, uses = [], [], [], [], set()
        for j, v in enumerate(variants):
            at = []
            if v.get("skip"):
                at.append("skip")
            if v.get("rename") is not None:
                at.append("rename = %s" % rs(v["rename"]))
            if v.get("prefix") is not None:
                at.append("prefix = %s" % rs(v["prefix"]))
            a = "#[static_xml(%s)] " % ", ".join(at) if at else ""
            c = "unit" if v.get("ty") is None else v.get("c", "one")
            if c == "unit":
                t = self.prim["bool"]
                code.append("    %s%s," % (a, v["ident"]))
                enc.append("%s::%s => ev(%d, unit())," % (tn, v["ident"], j + 1))
                dec.append("%d => %s::%s," % (j + 1, tn, v["ident"]))
            else:
                t = i if v["ty"] == "self" else self.ty(v["ty"])
                uses.add(t)
                rt = self.rust[t - 1] if t != i else tn
                rt = wrapped(c, rt, i + j)
                code.append("    %s%s(%s)," % (a, v["ident"], rt))
                enc.append("%s::%s(x) => ev(%d, x.enc())," % (tn, v["ident"], j + 1))
                dec.append("%d => %s::%s(Val::dec(&j.arr()[2]))," % (j + 1, tn, v["ident"]))
            vs.append({"n": self.url(v.get("prefix"), ns, default),
                       "l": v["rename"] if v.get("rename") is not None else v["ident"].replace("r#", ""),
                       "c": c, "ty": t, "skip": bool(v.get("skip"))})
        name = rename if rename is not None else tn.replace("r#", "")
        allns = sorted(list(ns) + ([("", default)] if default is not None else []))
        spec = {"k": "enum", "n": self.url(prefix, ns, default), "l": name, "ns": [list(x) for x in allns], "vars": vs}
        src = "#[derive(Deserialize, Serialize)]\n" + self.type_attrs(ns, default, {"rename": rename, "prefix": prefix}, style)
        src += "%s enum %s {\n%s\n}\n" % (vis, tn, "\n".join(code))
        src += "impl Val for %s { fn enc(&self) -> J { match self { %s } }\n" % (tn, " ".join(enc))
        src += "  fn dec(j: &J) -> Self { match j.arr()[1].int() { %s _ => panic!(\"harness: variant\") } } }\n" % " ".join(dec)
        return self.add(spec, src, {"enum"} | set(tags), uses, tn)

    # -- values -----------------------------------------------------------------------------

    def value(self, r, i, depth=0, wild=True):
        """A random value; None if there is none worth having."""
        t = self[i]
        k = t["k"]
        if k == "str":
            return ["s", cps(rstring(r, wild))]
        if k == "bool":
            return ["b", r.randrange(2)]
        if k == "int":
            return ["i", cps(str(rint(r, t["sg"], t["w"])))]
        if k == "float":
            return ["f", cps(r.choice(FLOATS32 if t["name"] == "f32" else FLOATS64))]
        if k == "probe":
            return ["p", cps(r.choice(["p", "q q", "", "pé", "<&>", " z "]))]
        if k == "std":
            if t["by"] == "i32":
                return ["x", cps(str(rint(r, True, 32)))]
            return ["x", cps(rstring(r, wild).replace("x", "y"))]
        if k == "restr":
            j = r.randrange(len(t["vars"]))
            return ["e", j + 1, ["u"] if t["vars"][j]["known"] else ["s", cps(rstring(r, wild))]]
        if k == "union":
            j = r.randrange(len(t["vars"]))
            return ["e", j + 1, self.value(r, t["vars"][j], depth + 1, wild)]
        if k == "struct":
            return ["st", [self.fieldvalue(r, f["c"], f["ty"], depth, wild) for f in t["fields"]]]
        j = r.randrange(len(t["vars"]))
        if depth > 4:   # end recursion
            for x, v in enumerate(t["vars"]):
                if v["c"] not in ("one",):
                    j = x
        v = t["vars"][j]
        return ["e", j + 1, ["u"] if v["c"] == "unit" else self.fieldvalue(r, v["c"], v["ty"], depth, wild, enum=True)]

    def fieldvalue(self, r, c, t, depth, wild, enum=False):
        if c == "one":
            return self.value(r, t, depth + 1, wild)
        if c in ("opt", "nil"):
            return ["o", [self.value(r, t, depth + 1, wild)] if depth < 5 and r.random() < 0.6 else []]
        n = 0 if depth > 4 or r.random() < 0.25 else r.choice([1, 2, 3])
        if depth <= 1 and r.random() < 0.02:
            n = 20
        return ["v", [self.value(r, t, depth + 1, wild) for _ in range(n)]]

    # -- output -----------------------------------------------------------------------------

    def closure(self, drop):
        """All types that use a dropped one."""
        drop = set(drop)
        while True:
            more = {i for i, u in self.uses.items() if i not in drop and u & drop}
            if not more:
                return drop
            drop |= more

    def uses_all(self, i):
        """Every type in the definition of i, at any depth."""
        seen, todo = set(), [i]
        while todo:
            for x in self.uses.get(todo.pop(), ()):
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
        return seen

    def emit(self, drop=()):
        """Rust source, and for each line number range the type it belongs to."""
        out = ["// Generated.", "use static_xml_derive::{Deserialize, ParseText, Serialize, ToText};",
               "use vfcore::json::{self, J};", "use vfcore::text::{tag, Val};", "use vfcore::schema::{ev, unit};"]
        ranges = []
        for n, c in enumerate(self.code):
            i = n + 1
            if c is None or i in drop:
                continue
            dv = self.spec[n].get("dv")
            if dv is not None:
                c += "impl Default for %s { fn default() -> Self { Val::dec(&json::parse(%s)) } }\n" % (self.rust[n], rs(json.dumps(dv)))
            lines = c.rstrip("\n").split("\n")
            ranges.append((len(out) + 1, len(out) + len(lines), i))
            out.extend(lines)
        out.append("pub fn dispatch(case: &J) {")
        out.append("    match case.at(\"ty\").int() {")
        for n, s in enumerate(self.spec):
            i = n + 1
            if i in drop:
                continue
            if s["k"] in ("struct", "enum"):
                out.append("        %d => vfcore::schema::ops::<%s>(case, |v| static_xml::serialize(v))," % (i, self.rust[n]))
            else:
                out.append("        %d => if case.at(\"k\").str() == \"text\" { vfcore::text::ops::<%s>(case) } else { vfcore::schema::ops::<%s>(case, |v| vfcore::schema::named(v)) }," % (i, self.rust[n], self.rust[n]))
        out.append("        _ => panic!(\"harness: type\"),")
        out.append("    }\n}")
        return "\n".join(out) + "\n", ranges

    def finish(self, r):
        """Gives every type a default value."""
        for i in range(1, len(self.spec) + 1):
            s = self[i]
            if "dv" not in s:
                for _ in range(20):
                    v = self.value(r, i, 3, wild=False)
                    if v is not None:
                        break
                s["dv"] = v
            for f in s.get("fields", []):
                pass
        return self


CHARS = list("ab xyz<>&\"'\t\n\r ") + ["é", "名", "\U0001f600", " ", "\x85", "\ufffd", "]]>", "&amp;", "  ", "!", "\x7f", "\u2028", "true", "12", "x"]


def rstring(r, wild=True):
    if not wild:
        return "".join(r.choice("abc d") for _ in range(r.randint(1, 4))).strip() or "a"
    m = r.random()
    if m < 0.1:
        return ""
    if m < 0.4:
        return "".join(r.choice("abc") for _ in range(r.randint(1, 4)))
    return "".join(r.choice(CHARS) for _ in range(r.randint(1, 7)))


def rint(r, sg, w):
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
    m = r.random()
    if m < 0.3:
        return r.choice([lo, hi, 0, 1, lo + 1, hi - 1])
    if m < 0.6:
        return max(lo, min(hi, r.randint(-300, 300)))
    return r.randint(lo, hi)


FLOATS64 = ["0", "-0", "1", "-1.5", "0.1", "100000000000000000000000", "0.000001", "inf", "-inf", "NaN", "1.7976931348623157e308".replace("1.7976931348623157e308", "3.141592653589793"), "5000000", "123456789.12345679"]
FLOATS32 = ["0", "-0", "1", "-1.5", "0.1", "16777216", "0.000001", "inf", "-inf", "NaN", "3.1415927", "340282350000000000000000000000000000000"]


# ---------------------------------------------------------------------------------------------
# The fixed corpus.

def E(ident, ty, c="one", **k):
    return dict(k, m="elem", ident=ident, ty=ty, c=c)


def A(ident, ty, c="one", **k):
    return dict(k, m="attr", ident=ident, ty=ty, c=c)


def TX(ident, ty, **k):
    return dict(k, m="text", ident=ident, ty=ty)


def FL(ident, ty, **k):
    return dict(k, m="flat", ident=ident, ty=ty)


def V(ident, ty=None, c="one", **k):
    return dict(k, ident=ident, ty=ty, c=c)


LONG = "a-rather-long-name-with-a-common-beginning-%d-and-a-common-end"
LONGURL = "http://example.com/a/rather/long/name/with/a/common/beginning/%d/and/a/common/end"


def texts(u):
    T = {}
    T["size"] = u.restr([("Small", "small"), ("Medium", "medium"), ("Large", "large")])
    T["sizeU"] = u.restr([("Small", "small"), ("Other", True), ("r#type", None)])
    T["coll"] = u.restr([("A", "a b"), ("B", "b"), ("C", None), ("E", "")], ws=2)
    T["collU"] = u.restr([("A", "a b"), ("B", "b"), ("U", True)], ws=2)
    T["repl"] = u.restr([("A", "a b"), ("AA", "a  b"), ("S", " "), ("T", "\t")], ws=1)
    T["replU"] = u.restr([("U", True), ("A", "a b"), ("AA", " a")], ws=1, vis="pub(crate)")
    T["presW"] = u.restr([("A", " a "), ("B", "a"), ("C", "a\n"), ("D", "é\u00a0"), ("F", "A")], vis="")
    T["onlyU"] = u.restr([("U", True)])
    T["raw"] = u.restr([("r#fn", None), ("r#match", None), ("Case", None), ("case", None)])
    T["many"] = u.restr([("V%d" % i, "%d" % (i * 7 % 23)) for i in range(20)])
    T["stdbr"] = u.std("br")
    T["stdbrP"] = u.std("br", explicit=True)
    T["stdbrR"] = u.std("br", ws=1)
    T["stdbrC"] = u.std("br", ws=2)
    T["stdi"] = u.std("i32")
    T["stdiC"] = u.std("i32", ws=2, vis="pub(crate)")
    T["uis"] = u.union([("Int", "i32"), ("Str", "str")])
    T["usi"] = u.union([("Str", "str"), ("Int", "i32")])
    T["unum"] = u.union([("A", "u8"), ("B", "i8"), ("C", "i16"), ("D", "bool"), ("E", "i128")])
    T["ubool"] = u.union([("B", "bool"), ("I", "u8")])
    T["usize"] = u.union([("S", T["size"]), ("I", "u16")])
    T["ucoll"] = u.union([("S", T["size"]), ("C", T["presW"]), ("I", "u16")], ws=2)
    T["urepl"] = u.union([("R", T["repl"]), ("X", T["stdbr"])], ws=1)
    T["unest"] = u.union([("N", T["unum"]), ("S", T["usize"]), ("T", T["stdbr"])])
    T["unest2"] = u.union([("C", T["coll"]), ("N", T["unest"]), ("S", "str")], ws=2, vis="")
    T["ustd"] = u.union([("I", T["stdi"]), ("B", T["stdbrC"])])
    T["uone"] = u.union([("A", "bool")])
    # Many values and alternatives.
    T["bigr"] = u.restr([("V%d" % k, LONG % (k * 37 % 72)) for k in range(72)])
    T["bigrU"] = u.restr([("V%d" % k, LONG % (k * 37 % 72)) for k in range(36)] + [("Unk", True)] + [("V%d" % k, LONG % (k * 37 % 72)) for k in range(36, 72)], ws=2)
    T["bigu"] = u.union([("W%d" % k, t) for k, t in enumerate(["bool", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", T["size"], T["coll"], T["presW"],
                                                             T["raw"], T["bigr"], T["stdbrC"]])])
    return T


X, Y, Z, W = "urn:x", "urn:y", "http://e.com/?q=1&r=<2>", "urn:é"


def corpus(u):
    """The fixed corpus of element types; every documented option occurs."""
    T = texts(u)
    S = {}
    P = "probe"
    S["empty"] = u.struct([])
    # C04: element fields
    S["cards"] = u.struct([E("a", P), E("b", P, "opt"), E("c", P, "vec")], tags={"c04"})
    S["defs"] = u.struct([E("a", P, **{"def": 1}), E("b", P, "opt", **{"def": 1}), E("c", P, "vec", **{"def": 1}), E("d", "i32", **{"def": 1})], tags={"c04"})
    S["inner"] = u.struct([E("a", P), E("z", "str", "vec")], tags={"c04"})
    S["nest"] = u.struct([E("a", S["inner"]), E("b", S["inner"], "opt"), E("inner", S["inner"], "vec"), E("d", S["inner"], **{"def": 1})], tags={"c04"})
    S["tree"] = u.struct([E("name", P, "opt"), E("child", "self", "vec")], tags={"c04"})
    S["order"] = u.struct([E("z", "i8", rename="b"), E("y", "str", "vec", rename="a"), E("x", "bool", "opt", rename="d"), E("w", "u16", rename="c", **{"def": 1})], tags={"c04"})
    S["wide"] = u.struct([E("f%d" % k, ["i32", "str", P][k % 3], ["one", "opt", "vec"][k // 3 % 3], **({"def": 1} if k % 9 == 0 else {})) for k in range(18)], tags={"c04"})
    S["raws"] = u.struct([E("r#type", P), E("r#match", "i32", "opt"), A("r#fn", "str", "opt")], rename="raws", tags={"c04"})
    S["prims"] = u.struct([E(n, n, rename="e-" + n) for n in RUST_PRIM if n != "probe"] + [A("a_" + n, n) for n in RUST_PRIM if n != "probe"], tags={"c10"})
    # C05: attribute fields
    S["attrs"] = u.struct([A("a", P), A("b", P, "opt"), A("c", P, **{"def": 1}), A("d", "i32", "opt", **{"def": 1})], tags={"c05"})
    S["attrns"] = u.struct([A("a", P, "opt"), A("b", P, "opt", rename="a", prefix="p"), A("c", P, rename="a", prefix="q"), A("lang", "str", "opt", prefix="xml"), A("space", "str", prefix="xml", **{"def": 1})],
                           ns=[("p", X), ("q", Y)], tags={"c05", "c06"})
    S["attrel"] = u.struct([A("a", P), E("e", P, "opt", rename="a"), E("b", S["attrs"], "vec"), A("x", "bool", "opt", rename="b")], tags={"c05"})
    S["attrx"] = u.struct([A("zz", "i16"), A("y", T["size"], "opt"), A("x", T["uis"], rename="a"), A("w", T["stdbrC"], "opt", rename="B")], tags={"c05"})
    # C06: names
    S["nsel"] = u.struct([E("a", P, "opt"), E("ax", P, "vec", rename="a", prefix="x"), E("ay", P, "opt", rename="a", prefix="y"), E("b", "i32", "opt", prefix="y"), E("bx", "str", "vec", rename="b", prefix="x")],
                         ns=[("x", X), ("y", Y)], rename="root", prefix="y", tags={"c06"})
    S["nsdef"] = u.struct([E("a", P, "opt", prefix=""), E("b", P, "opt", rename="a"), E("c", P, "vec", prefix="p"), A("d", "str", "opt", prefix="p"), A("e", "str", "opt")],
                          ns=[("p", Z)], default=X, rename="r", prefix="", tags={"c06"})
    S["nsurl"] = u.struct([E("a", P, "opt", prefix="z"), E("b", P, "opt", prefix="w"), A("c", "str", "opt", prefix="w"), A("a2", P, "opt", rename="a", prefix="z")],
                          ns=[("z", Z), ("w", W)], style=2, tags={"c06"})
    S["nsnest"] = u.struct([E("a", S["nsdef"], "vec", prefix="x"), E("b", S["nsel"], "opt", prefix="x"), E("c", S["nsurl"], "opt")], ns=[("x", Y)], default=Y, style=1, tags={"c06"})
    S["nscolon"] = u.struct([E("a", P, "opt", prefix=""), E("b", P, "opt", prefix="p"), A("c", P, "opt", prefix="p")], ns=[("p", "urn:b: c d: e")], default="urn:a: b",
                            prefix="", tags={"c06", "c18"})
    S["same"] = u.struct([E("a", P, "opt", prefix="p"), A("b", P, "opt", prefix="q")], ns=[("p", X), ("q", X)], tags={"c06"})
    S["nsloc"] = u.struct([E("f%d" % k, P, "vec", rename=l, prefix=p) for k, (l, p) in enumerate((l, p) for l in ["a", "A", "ab", "é", "x-y.z", "_1", "名"] for p in [None, "x", "y"])],
                          ns=[("x", X), ("y", "urn:w")], rename="x-y", tags={"c06"})
    # C16: text
    S["txt"] = u.struct([TX("t", P)], tags={"c16"})
    S["txta"] = u.struct([A("a", P, "opt"), TX("t", "str"), E("e", "str", "vec")], tags={"c16"})
    S["txti"] = u.struct([TX("t", "i32"), E("e", "str", "opt")], tags={"c16"})
    S["txtu"] = u.struct([TX("r#in", T["collU"]), A("r#as", T["size"], "opt"), E("n", S["txt"], "vec")], tags={"c16"})
    S["strs"] = u.struct([E("s", "str", "vec"), E("o", "str", "opt"), E("p", P, "vec"), E("t", T["presW"], "opt")], tags={"c16"})
    # C07: enums
    S["en"] = u.enum([V("A", P), V("B", P, "vec"), V("C"), V("D", P, "opt")], tags={"c07"})
    S["ensk"] = u.enum([V("Z", P), V("A", P, skip=1), V("M", "str", "vec"), V("B", skip=1), V("C")], tags={"c07"})
    S["ensk1"] = u.enum([V("A", S["en"], skip=1), V("B", "str")], tags={"c07"})
    S["enns"] = u.enum([V("D", P, rename="a"), V("C", P, "vec", rename="a", prefix="y"), V("B", P, rename="a", prefix="x"), V("A", rename="b", prefix=""), V("E", "i32", "opt", rename="zz")],
                       ns=[("x", X), ("y", Y)], default=Z, rename="choice", prefix="x", tags={"c07", "c06"})
    S["enst"] = u.enum([V("S", S["cards"]), V("T", S["inner"], "vec"), V("r#in", "str"), V("N", S["en"], "opt")], vis="pub(crate)", tags={"c07"})
    S["enmany"] = u.enum([V("V%d" % k, [P, "i32", None][k % 3], ["one", "vec", "opt"][k // 3 % 3], rename="n%d" % (k * 5 % 14)) for k in range(14)], tags={"c07"})
    S["encase"] = u.enum([V("A", P), V("a", P, "vec"), V("AB", P), V("B", P, "vec", rename="Aa")], tags={"c07"})
    S["enone"] = u.enum([V("Only", P)], vis="", tags={"c07"})
    S["rawt"] = u.struct([E("a", P, "opt"), A("r#type", "str", "opt")], tn="r#async", tags={"c18", "c04"})
    S["rawe"] = u.enum([V("A", P), V("r#fn", "str"), V("B")], ns=[("p", X)], prefix="p", tn="r#match", tags={"c18", "c07"})
    S["raws2"] = u.struct([E("r#loop", S["rawt"], "vec"), FL("r#dyn", S["rawe"])], tn="lower_case", tags={"c18", "c08"})
    S["enunit"] = u.enum([V("Only")], tags={"c07"})
    S["enunits"] = u.enum([V("A"), V("B", skip=1), V("C"), V("D", P, skip=1)], tags={"c07"})
    S["enus"] = u.struct([E("a", S["enunit"], "opt"), E("b", S["enunit"], "vec"), E("c", S["enunits"]), FL("f", S["enunit"])], tags={"c07", "c08"})
    S["enskall"] = u.enum([V("X", P), V("Y", P, skip=1)], tags={"c07"})
    S["enf"] = u.struct([E("x", P, "opt"), E("e", S["en"], "opt"), E("es", S["ensk"], "vec"), E("d", S["enns"], **{"def": 1})], tags={"c07"})
    # C08: flattening
    S["fl1"] = u.struct([E("a", P), FL("f", S["en"])], tags={"c08", "c07"})
    S["f_st"] = u.struct([E("a", P, "opt"), E("b", P, "vec"), A("x", P, "opt"), A("y", P, **{"def": 1}), TX("t", "str")], tags={"c08"})
    S["f_st2"] = u.struct([E("b", "str", "opt"), E("c", P), A("y", "str", "opt"), A("z", P, "opt")], tags={"c08"})
    S["fl2"] = u.struct([FL("f", S["f_st"]), E("a", P, "opt"), FL("g", S["f_st2"])], tags={"c08"})
    S["fl3"] = u.struct([FL("g", S["f_st2"]), TX("t", P), A("x", "str", "opt"), FL("f", S["f_st"])], tags={"c08"})
    S["fl4"] = u.struct([E("c", "str", "vec"), FL("deep", S["fl2"]), FL("en", S["ensk"])], tags={"c08"})
    S["fl5"] = u.struct([FL("a", S["enone"]), FL("b", S["en"]), FL("c", S["encase"])], tags={"c08", "c07"})
    S["fl6"] = u.struct([FL("d", S["fl4"]), FL("e", S["fl1"])], tags={"c08"})
    S["flns1"] = u.struct([E("a", P, "opt", prefix="p"), A("a1", P, "opt", rename="a", prefix="p"), E("n", P, "opt", rename="a")], ns=[("p", X)], tags={"c08", "c06"})
    S["flns2"] = u.struct([E("a", P, "vec", prefix="p"), A("a1", P, "opt", rename="a", prefix="p")], ns=[("p", Y)], default=X, tags={"c08", "c06"})
    S["flns"] = u.struct([FL("f", S["flns1"]), FL("g", S["flns2"]), A("b", P, "opt", prefix="p"), E("e", S["flns1"], "opt", prefix="p")], ns=[("p", Z)], rename="F", prefix="p", tags={"c08", "c06"})
    S["fltt"] = u.struct([FL("a", S["txt"]), FL("b", S["f_st"]), FL("c", S["txta"])], tags={"c08"})
    S["fltd"] = u.struct([FL("e", S["empty"]), FL("a", S["fltt"]), FL("b", S["txta"]), E("x", P, "opt")], tags={"c08"})
    S["flempty"] = u.struct([FL("e", S["empty"]), FL("t", S["txt"]), FL("a", S["attrs"])], tags={"c08", "c05"})
    S["flel"] = u.struct([E("one", S["fl1"]), E("many", S["fl5"], "vec"), E("opt", S["fl3"], "opt")], tags={"c08"})
    # Many of everything, with long names.
    c3 = ["one", "opt", "vec", "opt", "vec"]
    S["bige"] = u.struct([E("f%d" % k, [P, "str", "i32"][k % 3], c3[k % 5], rename=LONG % (k * 41 % 70), **({"def": 1} if k % 5 == 0 else {})) for k in range(70)]
                         + [E("g0", P, rename="b" + (LONG % 1)[1:]), E("g1", P, "opt", rename=(LONG % 1)[:-1] + "s")], tags={"big"})
    S["biga"] = u.struct([A("f%d" % k, [P, "str", "i32"][k % 3], ["opt", "one", "opt"][k % 3], rename=LONG % (k * 41 % 70), **({"def": 1} if k % 9 == 1 else {})) for k in range(70)]
                         + [A("g0", P, rename="b" + (LONG % 1)[1:])], tags={"big"})
    S["bigv"] = u.enum([V("V%d" % k, [P, "i32", None, "str"][k % 4], ["one", "vec", "one", "opt", "vec"][k % 5], rename=LONG % (k * 41 % 70), skip=k % 11 == 5) for k in range(70)], tags={"big"})
    S["bign"] = u.struct([E("f%d" % k, P, ["opt", "vec"][k % 2], rename="a%d" % (k % 3), prefix="p%d" % (k % 14)) for k in range(42)]
                         + [A("g%d" % k, P, "opt", rename="a", prefix="p%d" % k) for k in range(14)],
                         ns=[("p%d" % k, LONGURL % k) for k in range(14)], rename="big", prefix="p13", tags={"big"})
    # Long names and URLs, each unlike the others from the beginning.
    S["longs"] = u.struct([E("f%d" % k, P, ["opt", "vec"][k % 2], rename="%s-%s" % ("abcdefgh"[k], LONG % k), prefix=["w", "z", None][k % 3]) for k in range(4)]
                          + [A("g%d" % k, P, "opt", rename="%s-%s" % ("abcdefgh"[k], LONG % k), prefix=["w", "z", None][k % 3]) for k in range(2, 6)],
                          ns=[("w", "w:" + LONGURL % 1), ("z", LONGURL % 2)], tags={"big", "c06"})
    S["longv"] = u.enum([V("V%d" % k, P, ["one", "vec"][k % 2], rename="%s-%s" % ("abcdefgh"[k], LONG % k), prefix=["w", "z", None][k % 3]) for k in range(6)],
                        ns=[("w", "w:" + LONGURL % 1), ("z", LONGURL % 2)], tags={"big", "c06"})
    S["bigf1"] = u.struct([E("a", P, "opt"), A("x", P, "opt")], tags={"big"})
    chain = S["bigf1"]
    for k in range(6):
        chain = S["bigc%d" % k] = u.struct([FL("f", chain), E("c%d" % k, P, "vec"), A("y%d" % k, P, "opt"), *([TX("t", "str")] if k == 2 else [])], tags={"big"})
    parts = [u.struct([E("e%d" % k, P, ["opt", "vec", "one"][k % 3]), A("b%d" % k, P, "opt")], tags={"big"}) for k in range(12)]
    S["bigf"] = u.struct([FL("chain", chain)] + [FL("p%d" % k, p) for k, p in enumerate(parts)] + [FL("e", S["bigv"])], tags={"big"})
    # every combination of the options of a field or variant
    NS = dict(ns=[("p", X), ("q", Y)], default=Z)
    combos = lambda *axes: list(itertools.product(*axes))
    named = lambda k, ren: {"rename": "%s%d" % ("nmlk"[k % 4], k)} if ren else {}
    S["optel"] = u.struct([E("f%d" % k, [P, "i32", "str"][k % 3], c, prefix=p, split=k % 5 == 0, **named(k, ren), **({"def": 1} if d else {}))
                           for k, (c, d, p, ren) in enumerate(combos(["one", "opt", "vec", "last", "two"], [0, 1], [None, "p", ""], [0, 1])) if c != "one" or d or k % 4 == 0], tags={"c04", "opts"}, **NS)
    S["optat"] = u.struct([A("f%d" % k, [P, "i32", "str"][k % 3], c, prefix=p, split=k % 5 == 0, **named(k, ren), **({"def": 1} if d else {}))
                           for k, (c, d, p, ren) in enumerate(combos(["one", "opt", "nil"], [0, 1], [None, "p", "q"], [0, 1])) if c == "opt" or d or k % 4 == 0], tags={"c05", "opts"}, **NS)
    S["opten"] = u.enum([V("V%d" % k, [P, "i32", S["inner"]][k % 3] if c != "unit" else None, c if c != "unit" else "one", prefix=p, skip=s, **named(k, ren))
                         for k, (c, p, ren, s) in enumerate(combos(["unit", "one", "opt", "vec", "last"], [None, "p", ""], [0, 1], [0, 1]))], tags={"c07", "opts"}, **NS)
    S["optfl"] = u.struct([FL("a", S["optat"]), FL("e", S["optel"]), FL("v", S["opten"]), TX("t", P)], tags={"opts"})
    # field types which a user has written
    S["mine"] = u.struct([E("a", P, "last"), E("b", P, "first"), E("c", P, "two"), E("d", P, "opt"), A("x", P, "nil"), A("y", "i32", "nil"), A("z", "str", "opt")], tags={"c04", "c05", "mine"})
    S["mines"] = u.struct([E("a", S["mine"], "last"), E("b", S["inner"], "first"), E("c", S["cards"], "two"), E("d", "i32", "last", **{"def": 1}),
                           E("e", "self", "first"), A("x", P, "nil", **{"def": 1}), TX("t", "str")], tags={"c04", "c16", "mine"})
    S["minev"] = u.enum([V("A", P, "last"), V("B", P, "first"), V("C", P, "two"), V("D", S["inner"], "last"), V("E", S["inner"], "first"), V("F"), V("G", "i32", "two", skip=1)], tags={"c07", "mine"})
    S["mineus"] = u.struct([E("one", S["minev"]), E("many", S["minev"], "two"), FL("f", S["minev"])], tags={"c07", "mine"})
    S["minef1"] = u.struct([E("p", P, "first", prefix="p"), E("q", S["inner"], "last"), A("y", P, "nil")], ns=[("p", X)], tags={"mine"})
    S["minef"] = u.struct([E("a", P, "last", prefix="p"), E("b", "str", "two", rename="a"), FL("f", S["mine"]), FL("g", S["minef1"]), A("x", "str", "nil")], ns=[("p", Y)], tags={"c06", "c08", "mine"})
    # text types as elements and attributes
    S["tx"] = u.struct([E("e%d" % k, t, ["opt", "vec", "one"][k % 3], **({"def": 1} if k % 3 == 2 else {})) for k, t in enumerate(T.values())]
                       + [A("a%d" % k, t, "opt") for k, t in enumerate(T.values())], tags={"c10", "c18"})
    return T, S


# ---------------------------------------------------------------------------------------------
# Random types.

IDENTS = ["alpha", "beta", "gamma", "delta", "eps", "zeta", "r#type", "r#use", "CamelCase", "_under", "x1", "x10", "x2", "self_", "value", "out", "name", "child", "s", "p", "f", "present"]
LOCALS = ["a", "b", "c", "A", "ab", "x-y", "item.1", "é", "_u", "d"]
PFX = ["p", "q", "x.y", "n1"]
URLS = [X, Y, Z, W, "u"]


def random_ns(r):
    ns = [(p, r.choice(URLS)) for p in r.sample(PFX, r.choice([0, 0, 1, 2, 3]))]
    default = r.choice([None, None, None] + URLS)
    return ns, default


def pick_name(r, ns, default, used, kind):
    for _ in range(50):
        prefix = r.choice([None, None] + [p for p, _ in ns] + ([""] if default and kind == "elem" else []) + (["xml"] if kind == "attr" and r.random() < 0.2 else []))
        rename = r.choice(LOCALS + [None])
        if prefix == "xml":
            rename = r.choice(["lang", "space", "id"])
        u = dict(ns).get(prefix, URLX if prefix == "xml" else (default if prefix == "" else "")) if prefix is not None else ""
        if rename is not None and (kind, u, rename) not in used:
            used.add((kind, u, rename))
            return prefix, rename
        if rename is None:
            return prefix, None
    return None, None


def random_text(u, r, pool):
    m = r.choice(["restr", "union", "std"])
    ws = r.choice([0, 0, 1, 2])
    if m == "std":
        return u.std(r.choice(["br", "i32"]), ws)
    if m == "restr":
        words = r.sample(["a", "b", "a b", " a", "a  b", "", "\t", "true", "1", "é", "A", "-1", "longer text", "x"], r.randint(0, 6))
        vs = [("V%d" % k, w) for k, w in enumerate(words)]
        if r.random() < 0.4 or not vs:
            vs.insert(r.randint(0, len(vs)), ("Unk", True))
        return u.restr(vs, ws)
    return u.union([("V%d" % k, r.choice(pool + ["i8", "u16", "bool", "str", "i32", "u64", "i128"])) for k in range(r.randint(1, 4))], ws)


def random_struct(u, r, texts_, elems, unambiguous=False):
    ns, default = random_ns(r)
    n = r.choice([1, 2, 3, 4, 5, 7])
    idents = r.sample(IDENTS, n)
    used, fields, hastext = set(), [], False
    prim = ["probe", "probe", "str", "i32", "bool", "u8", "i64", "f64", "u128"]
    for k in range(n):
        m = r.choice(["elem"] * 5 + ["attr"] * 3 + ["text", "flat", "flat"])
        if m == "text" and hastext:
            m = "attr"
        if m == "flat" and not elems:
            m = "elem"
        tt = r.choice(prim + prim + texts_[-12:])
        if m == "flat":
            fields.append(FL(idents[k], r.choice(elems[-14:])))
            continue
        if m == "text":
            hastext = True
            fields.append(TX(idents[k], tt))
            continue
        p, ren = pick_name(r, ns, default, used, m)
        if ren is None:   # the field's own name
            key = (m, dict(ns).get(p, URLX if p == "xml" else (default if p == "" else "")) if p is not None else "", idents[k].replace("r#", ""))
            if key in used:
                continue
            used.add(key)
        d = {"def": 1} if r.random() < 0.25 else {}
        if m == "attr":
            fields.append(A(idents[k], tt, r.choice(["one", "opt", "opt", "one", "opt", "nil"]), rename=ren, prefix=p, split=r.random() < 0.3, **d))
        else:
            t = tt if r.random() < 0.5 or not elems else r.choice(elems)
            c = r.choice(["one", "opt", "opt", "vec", "vec"] * 3 + ["last", "first", "two"])
            if c == "vec" and r.random() < 0.1:
                t = "self"
            fields.append(E(idents[k], t, c, rename=ren, prefix=p, split=r.random() < 0.3, vis=r.choice(["", "pub "]), **d))
    rename = r.choice([None, "root", "R-1"])
    prefix = r.choice([None] + [p for p, _ in ns] + ([""] if default else []))
    return u.struct(fields, ns, default, rename, prefix, style=r.choice([0, 0, 1, 2]), vis=r.choice(["pub", "pub(crate)", ""]) if False else "pub", tags={"random"})


def random_enum(u, r, texts_, elems):
    ns, default = random_ns(r)
    used, vs = set(), []
    prim = ["probe", "probe", "str", "i32", "u8"]
    for k in range(r.choice([1, 2, 3, 4, 6])):
        p, ren = pick_name(r, ns, default, used, "elem")
        ident = "V%d" % k
        c = r.choice(["one", "one", "vec", "opt", "unit"] * 3 + ["last", "first", "two"])
        t = None if c == "unit" else r.choice(prim + texts_[-6:] + elems[-10:])
        vs.append(V(ident, t, c if c != "unit" else "one", rename=ren, prefix=p, skip=r.random() < 0.15 and k > 0))
    return u.enum(vs, ns, default, r.choice([None, "root"]), r.choice([None] + [p for p, _ in ns]), style=r.choice([0, 1, 2]), tags={"random"})


def build(seed, n_text=8, n_elem=24):
    u = Universe()
    T, S = corpus(u)
    r = random.Random("types-%s" % seed)
    texts_ = list(T.values())
    elems = [S[k] for k in ("cards", "attrs", "en", "f_st", "nsel")]
    for _ in range(n_text):
        texts_.append(random_text(u, r, texts_[-10:]))
    for k in range(n_elem):
        elems.append(random_enum(u, r, texts_, elems) if k % 3 == 2 else random_struct(u, r, texts_, elems))
    u.finish(random.Random("defaults"))
    u.T, u.S = T, S
    return u
