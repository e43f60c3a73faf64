"""Declarations: what the compiler says about them with the real macros against spec/Declare.tla."""
import json
import os
import random
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

import lib

WHAT = {"odd": "an observation of a kind which the specification does not know",
        "refused": "a declaration that has a meaning does not compile",
        "accepted": "a declaration without a meaning compiles",
        "elsewhere": "a declaration without a meaning gives no error inside it"}
ELEMENT, TEXT = ("Deserialize", "Serialize"), ("ParseText", "ToText")
XML = "http://www.w3.org/XML/1998/namespace"


def opt(n, f="path", v="", p="", k="str"):
    return {"n": n, "f": f, "k": k, "v": v, "p": p}


def nv(n, v, k="str"):
    return opt(n, "nv", v, k=k)


def ns(p, u):
    return opt("namespace", "nv", u, p)


# Options that have no meaning anywhere.
JUNK = [opt("bogus"), nv("bogus", "x"), opt("Rename"), nv("static_xml::rename", "x"), opt("rename", "list"),
        opt("", "lit"), opt("", "bare"), opt("", "eq"), opt("", "junk"), nv("rename_all", "lowercase"), opt("rename", "path")]
TYPE_E = [nv("rename", "n"), nv("rename", "1", "int"), nv("prefix", "p"), nv("prefix", "q"), nv("prefix", ""),
          nv("prefix", "xml"), nv("prefix", "true", "bool"), ns("p", "u1"), ns("p", "u2"), ns("q", "u1"), ns("", "u3"),
          nv("namespace", "1", "int"), nv("default_namespace", "u4"), nv("default_namespace", "'x'", "char"), ns("xml", XML), ns("xml", "u1"), ns("xmlfoo", "u1")]
NOT_TYPE_E = [opt("attribute"), opt("skip"), opt("flatten"), opt("namespace"), nv("mode", "std"), nv("whitespace", "collapse"), opt("default"), opt("text"), opt("unknown")]
FIELD = [opt("attribute"), opt("default"), opt("flatten"), opt("text"), nv("rename", "n"), nv("rename", "1", "int"),
         nv("prefix", "p"), nv("prefix", "q"), nv("prefix", "xml"), nv("prefix", ""), nv("prefix", "b\"x\"", "bytes")]
NOT_FIELD = [opt("skip"), opt("unknown"), nv("attribute", "x"), nv("default", "x"), opt("default", "list"), nv("text", "true", "bool"),
             nv("flatten", "x"), ns("p", "u1"), nv("default_namespace", "u1"), nv("whitespace", "collapse"), nv("mode", "std"), opt("prefix"), opt("skip_serializing")]
VARIANT = [opt("skip"), nv("rename", "n"), nv("rename", "1", "int"), nv("prefix", "p"), nv("prefix", "q"), nv("prefix", "xml"), nv("prefix", "")]
NOT_VARIANT = [opt("attribute"), opt("default"), opt("flatten"), opt("text"), opt("unknown"), nv("skip", "x"), ns("p", "u1"), opt("prefix")]
TYPE_T = [nv("mode", "std"), nv("mode", "restriction"), nv("mode", "union"), nv("mode", "Std"), nv("mode", ""),
          nv("mode", "1", "int"), opt("mode"), nv("whitespace", "preserve"), nv("whitespace", "replace"), nv("whitespace", "collapse"),
          nv("whitespace", "trim"), nv("whitespace", "Collapse"), nv("whitespace", " collapse"), nv("whitespace", ""), nv("mode", "restriction "), nv("whitespace", "true", "bool"), opt("whitespace")]
NOT_TYPE_T = [nv("rename", "n"), nv("prefix", ""), ns("p", "u1"), nv("default_namespace", "u1"), opt("unknown"), opt("std"), opt("restriction")]
TEXTVAR = [opt("unknown"), nv("rename", "n"), nv("rename", "1", "int")]
NOT_TEXTVAR = [nv("unknown", "x"), opt("skip"), nv("prefix", ""), opt("default"), nv("mode", "union"), nv("whitespace", "collapse"), opt("unknown", "list")]
SHAPES = ["unit", "one", "two", "brace", "zero"]
SAME = {"prefix": 0, "mode": 1, "namespace": 1, "default_namespace": 1}   # names that may be repeated


def pools(tr, deep):
    """Small pools, enumerated completely: (name, pool)."""
    def pool(shs, topts, tmax, fs, mopts, omax, mmax, mn, same=("mode", "namespace", "default_namespace", "bogus", "")):
        return {"tr": tr, "shs": shs, "topts": topts, "tmax": tmax, "fs": fs, "mopts": mopts, "omax": omax, "mmax": mmax, "min": mn, "same": list(same)}
    P, U = ns("p", "u1"), opt("bogus")
    if tr in ELEMENT:
        yield "types", pool(["named", "tuple", "unitstruct", "rustunion"], TYPE_E + NOT_TYPE_E + JUNK, 2, ["field"], [], 0, 1, 1)
        yield "types-deep", pool(["named"], [nv("prefix", "p"), nv("prefix", "q"), ns("p", "u1"), ns("q", "u1"), ns("", "u3"), nv("default_namespace", "u4"), nv("rename", "n"), U],
                                 4 if deep else 3, ["field"], [nv("prefix", "q"), nv("prefix", "")], 1, 1, 0)
        yield "enum-types", pool(["enum"], TYPE_E + NOT_TYPE_E + JUNK, 1, ["one"], [], 0, 1, 1)
        yield "field", pool(["named"], [P], 1, ["field"], FIELD + NOT_FIELD + JUNK, 2, 1, 1, ("prefix", "bogus"))
        for sh, f in (("named", "field"), ("enum", "one")):
            yield "prefixes-" + sh, pool([sh], [P, ns("q", "u1"), ns("q", "u2"), nv("default_namespace", "u1"), nv("prefix", "q")], 3 if deep else 2, [f],
                                         [nv("prefix", x) for x in ("p", "q", "", "xml")] + [nv("rename", "n")], 3 if deep else 2, 1, 1, ("prefix", "namespace"))
        yield "fields", pool(["named"], [P], 1, ["field"], [opt("attribute"), opt("default"), opt("flatten"), opt("text"), nv("prefix", "p"), U],
                             2, 3 if deep else 2, 0, ("prefix",))
        yield "fields-far", pool(["named"], [], 0, ["field"], [opt("attribute"), opt("text"), opt("flatten")], 1, 5 if deep else 4, 2, ())
        yield "variants-far", pool(["enum"], [P], 1, ["unit", "one", "two"], [opt("skip"), nv("prefix", "p")], 1, 4 if deep else 3, 3, ())
        yield "field-deep", pool(["named"], [P], 1, ["field"], [opt("attribute"), opt("default"), opt("flatten"), opt("text"), nv("rename", "n"), nv("prefix", "p"), nv("prefix", "q"), U],
                                 4 if deep else 3, 1, 1, ())
        yield "variant", pool(["enum"], [P], 1, SHAPES, VARIANT + NOT_VARIANT + JUNK, 2 if deep else 1, 1, 1, ("prefix", "bogus"))
        yield "variants", pool(["enum"], [P], 1, ["unit", "one", "two", "brace"], [opt("skip"), nv("rename", "n"), nv("prefix", "p"), nv("prefix", "q"), U], 2, 2 if deep else 1, 1, ("prefix",))
        yield "variants-wide", pool(["enum"], [P], 0, SHAPES, [opt("skip"), U], 1, 3 if deep else 2, 1, ())
    else:
        yield "types", pool(["named", "enum", "tuple", "unitstruct"], TYPE_T + NOT_TYPE_T + JUNK, 2, ["one"], [], 0, 1, 1, ("mode", "bogus", ""))
        for m in ("restriction", "union"):
            yield m + "-deep", pool(["enum"], [nv("mode", m), nv("whitespace", "collapse")], 2, SHAPES, TEXTVAR + NOT_TEXTVAR + JUNK, 2 if deep else 1, 1, 0 if m == "restriction" else 1, ())
            yield m, pool(["enum"], [nv("mode", m)], 1, ["unit", "one", "two"], [opt("unknown"), nv("rename", "n"), U], 2 if deep else 1, 3 if deep else 2, 0 if m == "restriction" else 1, ())
            yield m + "-far", pool(["enum"], [nv("mode", m)], 1, ["unit", "one"], [opt("unknown"), nv("rename", "n")], 1, 4 if deep else 3, 3, ())


def decode(pool, s):
    d = {"tr": pool["tr"], "sh": s[0], "opts": [], "mem": []}
    for k in range(1, len(s), 2):
        if s[k] == "t":
            d["opts"].append(pool["topts"][s[k + 1] - 1])
        elif s[k] == "m":
            d["mem"].append({"f": s[k + 1], "opts": []})
        else:
            d["mem"][-1]["opts"].append(pool["mopts"][s[k + 1] - 1])
    return d


def settled(d):
    """Whether the documentation settles what the declaration is."""
    modes = [o["v"] for o in d["opts"] if o["n"] == "mode" and o["f"] == "nv"]
    names = [o["n"] for o in d["opts"] if o["n"] in ("rename", "prefix", "whitespace")]
    if len(names) != len(set(names)):
        return False
    if d["tr"] in TEXT and "std" in modes and any(m["opts"] for m in d["mem"]):
        return False
    if d["tr"] in TEXT and "union" in modes and not d["mem"]:
        return False
    if d["tr"] in ELEMENT and d["sh"] == "enum" and not d["mem"]:
        return False
    for m in d["mem"]:
        has = {o["n"] for o in m["opts"]}
        if m["f"] == "field" and has & {"text", "flatten"} and has & {"rename", "prefix"}:
            return False
        names = [o["n"] for o in m["opts"] if o["n"] not in ("prefix", "bogus", "")]
        if len(names) != len(set(names)):
            return False
    return True


def wild(r, tr, settle=True):
    """A bigger declaration, mostly one that has a meaning or nearly so."""
    while True:
        good = r.random() < 0.6
        def take(known, other, n):
            q = []
            for _ in range(n):
                x = r.random()
                q.append(r.choice(known if good or x < 0.9 else other if x < 0.95 else JUNK))
            return q
        if tr in ELEMENT:
            sh = r.choice(["named", "named", "enum", "enum", "enum", "tuple", "unitstruct"] if not good else ["named", "enum"])
            ok = [o for o in TYPE_E if o["k"] == "str" and o["p"] not in ("xmlfoo", "xml")] if good else TYPE_E
            top = take(ok, NOT_TYPE_E, r.randrange(5))
        else:
            sh = r.choice(["enum", "enum", "enum", "named", "tuple", "unitstruct"])
            top = take(TYPE_T, NOT_TYPE_T, r.randrange(2)) + [r.choice(TYPE_T[:3])]
            r.shuffle(top)
            if good:
                top = [o for o in top if o["v"] in ("preserve", "replace", "collapse")][:1] + [r.choice(TYPE_T[:3])]
        mode = ([o["v"] for o in top if o["n"] == "mode"] + [""])[0]
        mapped = {o["p"] for o in top if o["n"] in ("namespace", "default_namespace")} | {"", "xml"}
        mem = []
        for _ in range(r.randrange(5)):
            if sh != "enum":
                f, a, b = "field", FIELD, NOT_FIELD
                if tr in TEXT:
                    a = b = []
            elif tr in ELEMENT:
                f, a, b = r.choice(SHAPES if not good and r.random() < 0.3 else ["unit", "one"]), VARIANT, NOT_VARIANT
            else:
                f, a, b = r.choice(SHAPES if not good and r.random() < 0.3 else {"union": ["one"]}.get(mode, ["unit", "unit", "one"])), TEXTVAR, NOT_TEXTVAR
                if mode != "restriction":
                    a = []
            a = [o for o in a if o["k"] == "str" and (o["n"] != "prefix" or o["v"] in mapped)] if good else a
            opts = take(a, b or JUNK, r.randrange(4)) if a else []
            if good and mode == "restriction":
                f = "one" if any(o["n"] == "unknown" for o in opts) else "unit"
            mem.append({"f": f, "opts": opts})
        d = {"tr": tr, "sh": sh, "opts": top, "mem": mem}
        if sh == "tuple" and not mem or sh == "unitstruct" and mem:
            continue
        if settled(d):
            return d


def nearly(r, tr):
    """A big declaration that has a meaning but perhaps for one thing, somewhere in it."""
    while True:
        d = wild(r, tr)
        while d["mem"] and len(d["mem"]) < 6 and r.random() < 0.7:
            d["mem"].insert(r.randrange(len(d["mem"]) + 1), {"f": r.choice(d["mem"])["f"], "opts": []})
        mem = [m for m in d["mem"]]
        x = r.random()
        if x < 0.25 or not mem:
            d["opts"].insert(r.randrange(len(d["opts"]) + 1), r.choice((TYPE_E + NOT_TYPE_E if tr in ELEMENT else TYPE_T + NOT_TYPE_T) + JUNK))
        elif x < 0.4:
            r.choice(mem)["f"] = r.choice(SHAPES) if d["sh"] == "enum" else "field"
        elif x < 0.9:
            # The same flag on one more member, or another option.
            m = r.choice(mem)
            known = (FIELD if d["sh"] == "named" else VARIANT) if tr in ELEMENT else TEXTVAR
            other = (NOT_FIELD if d["sh"] == "named" else NOT_VARIANT) if tr in ELEMENT else NOT_TEXTVAR
            used = [o for k in mem for o in k["opts"]]
            o = r.choice(used if used and r.random() < 0.4 else known if r.random() < 0.7 else other + JUNK)
            m["opts"].insert(r.randrange(len(m["opts"]) + 1), o)
        else:
            r.shuffle(mem)
            d["mem"] = mem
        if settled(d):
            return d


# ------------------------------------------------------------------ source text
def render_opt(o, n):
    if o["f"] == "path":
        return o["n"]
    if o["f"] == "list":
        return "%s(x)" % o["n"]
    if o["f"] == "lit":
        return '"rename"'
    v = o["v"]
    if o["k"] == "str":
        if o["n"] == "rename":
            v = "%s%d" % (v, n)
        if o["n"] == "namespace" and o["p"]:
            v = o["p"] + ": " + v
        v = '"%s"' % v
    return "%s = %s" % (o["n"], v)


def render_opts(r, opts, n, ind):
    out, cur = [], []

    def flush():
        if cur:
            out.append("#[static_xml(%s%s)]" % (", ".join(cur), "," if r.random() < 0.1 else ""))
            cur.clear()
    for o in opts:
        if o["f"] == "bare":
            flush()
            out.append("#[static_xml]")
        elif o["f"] == "eq":
            flush()
            out.append('#[static_xml = "x"]')
        elif o["f"] == "junk":
            flush()
            out.append(r.choice(['#[static_xml(rename = "x" rename = "y")]', "#[static_xml(rename =)]", "#[static_xml(=)]", "#[static_xml[a b]]"]))
        else:
            if r.random() < 0.4:
                flush()
            cur.append(render_opt(o, n))
    flush()
    for extra in ("/// Documentation.", "#[allow(dead_code)]", "#[static_xml()]"):
        if r.random() < 0.05:
            out.insert(r.randrange(len(out) + 1), extra)
    return "".join(ind + x + "\n" for x in out)


def field_type(r, d, m):
    has = {o["n"] for o in m["opts"]}
    if "flatten" in has:
        return "Fl"
    if "text" in has:
        return "String"
    if "attribute" in has:
        return r.choice(["String", "u32", "Option<bool>"])
    return r.choice(["String", "u32", "Option<String>", "Vec<i8>", "Fl", "Option<Fl>"]) if d["tr"] in ELEMENT else "String"


def render(r, d):
    vis = r.choice(["", "pub ", "pub(crate) "])
    s = "#[derive(%s)]\n" % d["tr"]
    s += render_opts(r, d["opts"], 0, "")
    mem = d["mem"]
    sh = d["sh"]
    if sh == "enum":
        s += vis + "enum T {\n"
        for i, m in enumerate(mem):
            s += render_opts(r, m["opts"], i + 1, "    ")
            t = "String" if d["tr"] in TEXT else r.choice(["String", "Vec<u8>", "Option<u32>", "Fl"])
            s += "    V%d%s,\n" % (i, {"unit": "", "one": "(%s)" % t, "two": "(%s, u8)" % t, "brace": " { x: %s }" % t, "zero": "()"}[m["f"]])
        s += "}\n"
    elif sh in ("named", "rustunion"):
        s += vis + ("struct" if sh == "named" else "union") + " T {\n"
        for i, m in enumerate(mem):
            s += render_opts(r, m["opts"], i + 1, "    ")
            s += "    f%d: %s,\n" % (i, field_type(r, d, m) if sh == "named" else "u32")
        s += "}\n"
    elif sh == "tuple":
        s += vis + "struct T(\n"
        for i, m in enumerate(mem):
            s += render_opts(r, m["opts"], i + 1, "    ") + "    String,\n"
        s += ");\n"
    else:
        s += vis + "struct T;\n"
    return s


HEAD = """#![allow(warnings)]
mod help {
    use static_xml_derive::*;
    #[derive(Deserialize, Serialize, Default)]
    pub struct Fl { pub fl: Option<String> }
    #[derive(Debug)] pub struct Bad;
    impl std::fmt::Display for Bad { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
    impl std::error::Error for Bad {}
    pub fn is_deserialize<T: static_xml::de::Deserialize>() {}
    pub fn is_serialize<T: static_xml::ser::Serialize + static_xml::ser::SerializeRoot>() {}
    pub fn is_parsetext<T: static_xml::de::ParseText>() {}
    pub fn is_totext<T: static_xml::ser::ToText>() {}
}
"""


def module(i, d, code):
    """Source of the module of a declaration, and the lines of the declaration in it."""
    before = "mod d%d {\nuse super::help::{self, Fl}; use static_xml_derive::%s;\n" % (i, d["tr"])
    after = "fn is() { help::is_%s::<T>() }\n" % d["tr"].lower()
    if d["tr"] in TEXT:
        after += "impl std::str::FromStr for T { type Err = help::Bad; fn from_str(_: &str) -> Result<T, help::Bad> { Err(help::Bad) } }\n"
        after += "impl std::fmt::Display for T { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }\n"
    a = before.count("\n")
    return before + code + after + "}\n", (a, a + code.count("\n"))


class Compiler:
    """rustc with the two crates, as cargo builds them from the current tree."""

    def __init__(self, wd):
        self.wd = wd
        self.env = lib.cargo_env()
        self.env.pop("RUSTFLAGS")
        e = dict(lib.cargo_env())
        p = subprocess.run(["cargo", "build", "--offline", "-q", "-p", "vfdeclared", "--message-format=json"],
                           cwd=os.path.join(lib.VERIF, "harness"), env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
        files = {}
        for l in p.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") == "compiler-artifact":
                for f in m["filenames"]:
                    if f.endswith((".rlib", ".so")):
                        files[m["target"]["name"].replace("-", "_")] = f
        if p.returncode or "static_xml" not in files or "static_xml_derive" not in files:
            raise lib.ToolError("cannot build the crates:\n" + p.stderr[-3000:])
        self.args = ["rustc", "--edition=2021", "--crate-type=lib", "--crate-name=x", "--emit=metadata", "--error-format=json", "--cap-lints=allow",
                     "-L", "dependency=" + os.path.dirname(files["static_xml"]) + ("" if files["static_xml"].count("/deps/") else "/deps"),
                     "--extern", "static_xml=" + files["static_xml"], "--extern", "static_xml_derive=" + files["static_xml_derive"]]

    def once(self, name, ds):
        """Compiles declarations {i: (d, code)} together; returns (success, {i: message inside}, {i: message beside})."""
        src, n, where = HEAD, HEAD.count("\n"), []
        for i, (d, code) in ds.items():
            m, (a, z) = module(i, d, code)
            where.append((n + 1, n + m.count("\n"), n + a + 1, n + z, i))
            src += m
            n += m.count("\n")
        f = os.path.join(self.wd, name + ".rs")
        with open(f, "w") as o:
            o.write(src)
        try:
            p = subprocess.run(self.args + ["-o", os.path.join(self.wd, name + ".rmeta"), f], env=self.env, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, timeout=300, errors="replace")
        except subprocess.TimeoutExpired:
            raise lib.ToolError("the compiler takes too long")
        ins, out = {}, {}
        if p.returncode:
            by_line = {}
            for a, z, b, e, i in where:
                for k in range(a, z + 1):
                    by_line[k] = (i, b <= k <= e)
            for l in p.stderr.splitlines():
                if not l.startswith("{"):
                    continue
                m = json.loads(l)
                if m.get("level") != "error":
                    continue
                for s in m["spans"]:
                    if s["is_primary"] and s["file_name"].endswith(name + ".rs"):
                        i, inside = by_line.get(s["line_start"], (None, False))
                        if i is not None:
                            (ins if inside else out).setdefault(i, m["message"])
        return p.returncode == 0, ins, out

    def verdicts(self, name, ds):
        """{i: (verdict, message)}"""
        res = {}
        todo = dict(ds)
        for k in range(20):
            if not todo:
                return res
            ok, ins, out = self.once("%s-%d" % (name, k), todo)
            if ok:
                res.update({i: ("compiles", "") for i in todo})
                return res
            if ins:
                res.update({i: ("error", m) for i, m in ins.items()})
            elif out:
                res.update({i: ("elsewhere", m) for i, m in out.items()})
            elif len(todo) == 1:
                res[next(iter(todo))] = ("elsewhere", "?")
            else:
                items = list(todo.items())
                for h in (0, 1):
                    res.update(self.verdicts("%s-%d%s" % (name, k, "ab"[h]), dict(items[h::2])))
                return res
            todo = {i: x for i, x in todo.items() if i not in res}
        raise lib.ToolError("the compiler does not come to an end")


def compile_all(ctx, ds):
    wd = os.path.join(ctx.wd, "rustc")
    os.makedirs(wd, exist_ok=True)
    c = Compiler(wd)
    # Some in small files, so that the compiler also sees what it would skip after other errors.
    n = lib.NCPU * max(1, len(ds) // 1500)
    parts = [dict(list(ds.items())[k::n]) for k in range(n)]
    res = {}
    with ThreadPoolExecutor(lib.NCPU) as ex:
        for x in ex.map(lambda k: c.verdicts("p%d" % k, parts[k]), range(n)):
            res.update(x)
    return res


def check_c20(ctx, r):
    decls, seen = [], set()

    def add(d):
        k = json.dumps(d, sort_keys=True)
        if k not in seen and settled(d):
            seen.add(k)
            decls.append(d)
    for tr in ELEMENT + TEXT:
        for name, p in pools(tr, ctx.thorough):
            f = os.path.join(ctx.wd, "pool-%s-%s.ndjson" % (tr, name))
            with open(f, "w") as o:
                o.write(json.dumps(lib.esc_all(p)) + "\n")
            m = lib.model_check("MCDeclare", "MCDeclare", ctx.wd, env={"POOL": f}, workers=lib.NCPU)
            m["config"] = "MCDeclare %s %s" % (tr, name)
            ctx.model(m)
            found = re.findall(r'<<\s*"DECL",\s*<<(.*?)>>,\s*{(.*?)}\s*>>', m["out"], re.S)
            if not found:
                raise lib.ToolError("no declarations")
            ctx.detail["declarations enumerated"] = ctx.detail.get("declarations enumerated", 0) + len(found)
            # Sampled apart: those with a meaning, those with one fault of each kind, and the others.
            kinds = {}
            for x, why in found:
                why = sorted(re.findall(r'"([^"]*)"', why))
                kinds.setdefault("|".join(why) if len(why) < 2 else "several", []).append(x)
            for k in sorted(kinds):
                n = ctx.n(*{"": (130, 1500), "several": (40, 500)}.get(k, (max(45, 160 // len(kinds)), 1000)))
                some = [decode(p, json.loads("[%s]" % x)) for x in sorted(kinds[k])]
                some = [d for d in some if settled(d)]
                for d in some if len(some) <= n else r.sample(some, n):
                    add(d)
        for _ in range(ctx.n(600, 6000)):
            add(nearly(r, tr))
        for _ in range(ctx.n(500, 5000)):
            add(wild(r, tr))
    ds = {i: (d, render(random.Random("%d-%d" % (ctx.seed, i)), d)) for i, d in enumerate(decls)}
    res = compile_all(ctx, ds)
    if len(res) != len(ds):
        raise lib.ToolError("declarations without a verdict")
    lines = [{"id": i, "d": d, "got": res[i][0]} for i, (d, _) in ds.items()]
    can = []
    for g, w in (("compiles", "error"), ("error", "compiles"), ("error", "elsewhere")):
        for l in [l for l in lines if l["got"] == g][:2]:
            can.append(dict(l, id=-1 - len(can), got=w))
    rej, st = lib.validate("TraceDeclare", lines + can, os.path.join(ctx.wd, "v"))
    # (A canary made from a wrong verdict may be right.)
    wrong = {json.dumps(ds[i][0]) for i in rej if i >= 0}
    if [c for c in can if c["id"] not in rej and json.dumps(c["d"]) not in wrong]:
        raise lib.ToolError("corrupted verdicts were accepted")
    ctx.detail["corrupted_traces_rejected"] = len(can)
    ctx.validated("declarations", st)
    ctx.note(compiled={v: sum(1 for x in res.values() if x[0] == v) for v in ("compiles", "error", "elsewhere")})
    for i in list(ds)[:2] + list(ds)[-2:]:
        ctx.sample({"declaration": ds[i][1], "verdict": res[i]})
    for i, (_, cls) in sorted(rej.items()):
        if i >= 0:
            ctx.violation("%s: %s -> %s" % (WHAT[cls], ds[i][1], res[i][1][:200] or res[i][0]),
                          {"engine": "declare", "declaration": ds[i][0], "code": module(i, *ds[i])[0], "got": res[i]})


CHECKS = {"C20": [check_c20]}
