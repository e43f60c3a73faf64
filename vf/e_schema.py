"""Derived types: documents read and values written by the real code against spec/Schema.tla."""
import json
import os
import random

import derived
import docs
import errs
import gen_docs as gd
import gen_types as gt
import lib
import mc_docs
import xmlread

WHAT = {"odd": "an observation of a kind which the specification does not know",
        "crash": "panic, crash or hang", "value": "wrong value or error", "error": "error described wrongly",
        "own": "a value was lost, dropped twice or never constructed", "out": "wrong output", "wf": "output is not well-formed",
        "back": "read back differently", "options": "options change the document"}
NOERR = {"ok": False, "stack": [], "msg": "", "hr": 0, "hc": 0, "lines": [], "src": []}
NONE = ["none"]


class Batch:
    def __init__(self, ctx, name, binary, u, classes):
        self.ctx, self.name, self.bin, self.u, self.classes = ctx, name, binary, u, set(classes)
        self.cases, self.meta = [], []

    def de(self, ty, data, tokens, src=None, panic=0):
        c = {"id": len(self.cases), "k": "de", "ty": ty, "hex": data.hex()}
        if panic:
            c["panic"] = panic
        if src:
            c["src"] = src
        self.cases.append(c)
        self.meta.append({"k": "de", "ty": ty, "doc": tokens})

    def ser(self, ty, v, opts):
        t = self.u[ty]
        i = len(self.cases)
        n, l = (t["n"], t["l"]) if "l" in t else ("", "v")
        self.cases.append({"id": i, "k": "ser", "ty": ty, "v": v, "opts": opts})
        self.meta.append({"k": "ser", "ty": ty, "v": v, "n": n, "l": l, "opts": opts})

    def line(self, i, ev):
        m = self.meta[i]
        if m["k"] == "de":
            es = []
            for e in ev:
                if e["t"] == "ret":
                    e = dict(e, o=errs.parse(e["err"]) if e["err"] else NOERR)
                    del e["err"]
                es.append(e)
            return {"id": i, "k": "de", "ty": m["ty"], "doc": m["doc"], "ev": es}
        es = []
        outs = [bytes.fromhex(e["hex"]) if e["t"] == "out" and e["ok"] else None for e in ev]
        for j, e in enumerate(ev):
            if e["t"] != "out":
                es.append(e)
                continue
            o = m["opts"][j]
            b = outs[j]
            toks = xmlread.read(b) if b is not None else []
            opt = True
            if b is not None:
                opt = b.count(b"<?xml ") == o["decl"] and (o["decl"] == 0 or b.startswith(b"<?xml "))
            for k in range(len(ev)):   # the same bytes whatever the sink, the same success whatever the options
                if ev[k]["t"] != "out" or ev[k]["ok"] != e["ok"]:
                    opt = False
                elif m["opts"][k]["ind"] == o["ind"] and m["opts"][k]["decl"] == o["decl"] and outs[k] != b:
                    opt = False
            es.append({"t": "out", "ok": e["ok"], "wf": toks is not None, "ind": o["ind"], "opt": opt, "back": e["back"],
                       "toks": [dict(t, r=0, c=0) for t in toks or []] + [{"k": "Z"}]})
        return {"id": i, "k": "ser", "ty": m["ty"], "v": m["v"], "n": m["n"], "l": m["l"], "ev": es}

    def canaries(self, lines):
        """Runs made wrong on purpose; each must be rejected for the right reason."""
        out = []

        def add(l, cls, ev):
            out.append((dict(l, id=-1 - len(out), ev=ev), cls))
        done = set()
        for l in lines:
            es = l["ev"]
            if l["k"] == "de" and any(e["t"] == "unwound" for e in es):
                d = [n for n, e in enumerate(es) if e["t"] == "drop"]
                if d and "unwound" not in done:
                    done.add("unwound")
                    add(l, "own", es[:d[0]] + es[d[0] + 1:])
                    add(l, "own", es[:d[0] + 1] + es[d[0]:])
            elif l["k"] == "de" and es and es[-1]["t"] == "end":
                j = [n for n, e in enumerate(es) if e["t"] == "ret"][0]
                if es[j]["ok"] and "value" not in done:
                    done.add("value")
                    add(l, "value", es[:j] + [dict(es[j], v=["s", [1, 2]])] + es[j + 1:])
                if any(e["t"] == "drop" for e in es) and "own" not in done:
                    done.add("own")
                    d = [n for n, e in enumerate(es) if e["t"] == "drop"][0]
                    add(l, "own", es[:d] + es[d + 1:])
                    add(l, "own", es[:d + 1] + es[d:])
                if not es[j]["ok"] and len(es[j]["o"]["stack"]) > 1 and "error" not in done and l["doc"][-1]["k"] == "Z":
                    done.add("error")
                    add(l, "error", es[:j] + [dict(es[j], o=dict(es[j]["o"], stack=es[j]["o"]["stack"][:-1]))] + es[j + 1:])
            if l["k"] == "ser" and es and es[0]["t"] == "out" and es[0]["ok"] and es[0]["ind"] == 0:
                if "out" not in done and len(es[0]["toks"]) > 5:
                    done.add("out")
                    add(l, "out", [dict(es[0], toks=es[0]["toks"][:1] + [{"k": "T", "s": [1]}] + es[0]["toks"][1:])] + es[1:])
                    add(l, "options", [dict(es[0], opt=False)] + es[1:])
                    add(l, "wf", [dict(es[0], wf=False)] + es[1:])
        return out

    def run(self):
        ctx = self.ctx
        wd = os.path.join(ctx.wd, self.name)
        ev = lib.run_cases(self.bin, self.cases, wd)
        lines = [self.line(i, ev[i]) for i in range(len(self.cases)) if i in ev]
        if any("panic" in c for c in self.cases):
            ctx.detail["unwound"] = sum(1 for l in lines for e in l["ev"] if e["t"] == "unwound")
        can = self.canaries(lines)
        rej, st = lib.validate("TraceSchema", lines + [c for c, _ in can], wd, env={"TYPES": ctx.types_file})
        bad = [cls for c, cls in can if c["id"] not in rej or cls not in rej[c["id"]][1].split("_")]
        viol = 0
        other = {}
        for i, (_, cl) in sorted(rej.items()):
            if i < 0:
                continue
            cl = [c for c in cl.split("_") if c]
            mine = [c for c in cl if c in self.classes or c == "odd"]
            if not mine:
                for c in cl:
                    other[c] = other.get(c, 0) + 1
                continue
            viol += 1
            self.report(i, mine, ev[i])
        if bad and not [i for i in rej if i >= 0]:  # (where the code is wrong, a corruption of what it did may be right)
            raise lib.ToolError("corrupted runs were accepted: %s" % bad)
        ctx.detail["corrupted_traces_rejected"] = ctx.detail.get("corrupted_traces_rejected", 0) + len(can)
        st["traces"] -= len(can)
        ctx.validated(self.name, st)
        if other:
            d = ctx.detail.setdefault("rejected_for_other_properties", {})
            d[self.name] = other
        for i in [0, len(self.cases) // 2]:
            if i < len(self.cases) and i in ev:
                ctx.sample({"run": self.name, "case": self.show(i), "events": json.dumps(ev[i])[:300]})

    def show(self, i):
        c = self.cases[i]
        if c["k"] == "de":
            return {"type": c["ty"], "document": bytes.fromhex(c["hex"]).decode("utf-8", "replace")[:400], "source": c.get("src")}
        return {"type": c["ty"], "value": json.dumps(c["v"])[:400]}

    def report(self, i, cls, ev):
        u = self.u
        ty = self.cases[i]["ty"]
        s = "%s [%s]: type %s %s" % ("; ".join(WHAT[c] for c in cls), self.name, u.rust[ty - 1], json.dumps(self.show(i), ensure_ascii=False))
        used = sorted({ty} | u.uses_all(ty))
        self.ctx.violation(s, {"engine": "schema", "case": self.cases[i], "events": ev, "classes": cls, "document": self.show(i),
                               "code": {u.rust[j - 1]: u.code[j - 1] for j in used if u.code[j - 1]}})


# ---------------------------------------------------------------------------------------------
# What to read.

class Gen:
    def __init__(self, ctx, r, tags=(), random_types=True, **kw):
        self.ctx, self.r = ctx, r
        self.bin, self.u, self.failed, self.dropped = derived.universe(ctx, "all", **kw)
        u = self.u
        self.ok = [i for i in range(1, len(u.spec) + 1) if i not in self.dropped]
        self.tags = set(tags)
        want = self.tags | ({"random"} if random_types else set()) if self.tags else set()
        self.types = [i for i in self.ok if not u.istext(i) and (not want or u.tags[i - 1] & want)]
        for i, (msg, code) in sorted(self.failed.items()):
            if not want or u.tags[i - 1] & want or any(u.tags[j - 1] & want for j in u.uses if i in u.uses_all(j)):
                ctx.violation("a valid type does not compile: %s" % msg.strip().split("\n")[0],
                              {"engine": "schema", "type": code, "compiler": msg})

    def tree(self, i, muts=0, bad=0.0):
        r, u = self.r, self.u
        for _ in range(30):
            attrs, kids = gd.fill(u, r, i, bad)
            root = gd.N(r.choice(["", "", gt.X, gt.Y, "urn:root"]), r.choice(["r", "root", "a", "T"]), attrs, kids, i)
            for _ in range(muts):
                gd.mutate(u, r, root)
            if gd.floats_ok(u, root, i) and len(gd.nodes(root)) < 120:
                return root
        return gd.N("", "r", [], [], i)

    def textual(self, n):
        return bool(n.ty) and (self.u.istext(n.ty) or bool(gd.text_fields(self.u, n.ty)))

    def spelled(self, tree, style):
        """(bytes, tokens, ends, safe)"""
        r = self.r
        e = gd.spell(r, tree, {}, style, self.textual, self.u)
        pre, post = [], []
        if r.random() < style["inv"] * 2:
            pre = r.choice([[("m", "c")], [("w", "\n"), ("p", "pi x"), ("w", " ")], [("w", "  ")]])
            post = r.choice([[], [("w", "\n")], [("m", "end"), ("w", "\n")]])
        decl = r.choice([None, None, '<?xml version="1.0"?>', '<?xml version="1.0" encoding="utf-8" standalone="yes"?>\n'])
        return docs.render(e, pre, post, decl)


def reads(g, batch, types, per, muts=(0, 0, 1, 1, 2, 3), styles=(0, 1, 1, 2), bad=(0.0, 0.0, 0.03), spellings=1, chunk=0.15, same=None):
    r = g.r
    for i in types:
        for _ in range(per):
            t = g.tree(i, r.choice(muts), r.choice(bad))
            for _ in range(spellings):
                data, toks, _, _ = g.spelled(t, gd.STYLES[r.choice(styles)])
                batch.de(i, data, toks, chunks(r) if r.random() < chunk else None)


def small(ctx, g, b, types, quick=1500, styles=(0, 1, 3), rich=False):
    """Every small document of the types, by the model; those replayed go to the batch."""
    docs = mc_docs.documents(ctx, g, types, ctx.n(1200, 40000), rich)
    n = len(b.cases)
    mc_docs.replay(ctx, g, b, docs, ctx.n(quick, 40000), styles)
    ctx.note(small_documents=len(docs), small_documents_replayed=len(b.cases) - n)


def chunks(r):
    if r.random() < 0.3:
        return {"chunks": [], "fail": -1, "kind": 99}   # from a string
    return {"chunks": r.choice([[1], [2, 0, 3], [7], [0, 1], [1, 64], [3, 1, 0, 0, 5]]), "fail": -1, "kind": 0}


FIELD_CLASSES = ["crash", "value"]


# ---------------------------------------------------------------------------------------------
# Many of everything.

def plain(g, i, full=True):
    """An element of type i with one of each thing (the first variant of an enum), or only what is required."""
    u, r = g.u, g.r
    attrs, kids = [], []
    t = u[i]
    if u.istext(i):
        return [], [gd.text_for(u, r, i) or "1"]
    if t["k"] == "enum":
        v = next((v for v in t["vars"] if not v["skip"]), None)
        return [], [] if v is None else [one(g, v["n"], v["l"], None if v["c"] == "unit" else v["ty"], full)]
    for f in t["fields"]:
        need = full or (f["c"] in ("one", "nil") and not f["def"])
        if f["m"] == "flat":
            a, k = plain(g, f["ty"], full)
            attrs += [x for x in a if x[:2] not in [y[:2] for y in attrs]]
            kids += [x for x in k if not isinstance(x, gd.N) or (x.n, x.l) not in [(y.n, y.l) for y in kids if isinstance(y, gd.N)]]
        elif f["m"] == "text":
            kids.append(gd.text_for(u, r, f["ty"]) or "1")
        elif f["m"] == "attr" and need and (f["n"], f["l"]) not in [y[:2] for y in attrs]:
            attrs.append((f["n"], f["l"], gd.text_for(u, r, f["ty"])))
        elif f["m"] == "elem" and need:
            kids.append(one(g, f["n"], f["l"], f["ty"], full and f["ty"] != i))
    return attrs, kids


def one(g, n, l, ty, full=False):
    if ty is None:
        return gd.N(n, l)
    return gd.N(n, l, *plain(g, ty, full), ty)


def whole(g, i, full=True):
    return gd.N("", "r", *plain(g, i, full), i)


def many(g, b, i, n, unknown=0.2):
    """Each repeated item of type i, n times, between things nobody knows; then with one repetition too many of
    something else, far from the first, or with something bad in the last one."""
    u, r = g.u, g.r
    names = gd.names_of(u, i, "elem")
    paths = vec_names(u, i)
    for n_, l_, ty in paths:
        for how in range(3):
            t = whole(g, i, full=how != 1)
            if u[i]["k"] == "enum":
                t.kids = []
            items = [one(g, n_, l_, ty) for _ in range(n)]
            k = 0
            while k < len(items):
                if r.random() < unknown:
                    items.insert(k, gd.N("", "nobody-knows", [], ["1"] if r.random() < 0.5 else []))
                    k += 1
                k += 1
            at = r.randint(0, len(t.kids))
            t.kids[at:at] = items
            if how == 2:
                others = [x for x in names if x not in paths and x[2]]
                if others and r.random() < 0.7:
                    x = r.choice(others)
                    t.kids.append(one(g, *x))
                    if r.random() < 0.5:
                        t.kids.insert(0, one(g, *x))
                elif ty:
                    t.kids.append(gd.N(n_, l_, [], ["!"]))
            if gd.floats_ok(u, t, i):
                data, toks, _, _ = g.spelled(t, gd.STYLES[0])
                b.de(i, data, toks)


def vec_names(u, i):
    t = u[i]
    if t["k"] == "struct":
        out = []
        for f in t["fields"]:
            if f["m"] == "flat":
                out += vec_names(u, f["ty"])
            elif f["m"] == "elem" and f["c"] in ("vec", "last", "first"):
                out.append((f["n"], f["l"], f["ty"]))
        return out
    if t["k"] == "enum":
        return [(v["n"], v["l"], None if v["c"] == "unit" else v["ty"]) for v in t["vars"] if v["c"] in ("vec", "unit", "last", "first") and not v["skip"]]
    return []


def each(g, b, i, kinds=("elem", "attr")):
    """A complete and a minimal document, each thing there is absent, doubled, added, bad or under a name close to its own."""
    u, r = g.u, g.r

    def put(t):
        if gd.floats_ok(u, t, i):
            data, toks, _, _ = g.spelled(t, gd.STYLES[r.choice([0, 0, 2])])
            b.de(i, data, toks)
    for full in (True, False):
        put(whole(g, i, full))
    for m in kinds:
        for n, l, ty in gd.names_of(u, i, m):
            for how in range(6):
                t = whole(g, i, how in (0, 1, 4, 5))
                if m == "attr":
                    rest = [a for a in t.attrs if a[:2] != (n, l)]
                    v = gd.text_for(u, r, ty)
                    t.attrs = {0: rest, 1: rest + [(n, l, v + "!")], 2: rest + [(n, l, v)], 3: rest + [(n, close(r, l), v)],
                               4: rest + [(n + "x", l, v)] + [("", "nobody%d" % k, "!") for k in range(r.choice([3, 90]))],
                               5: rest + [(n, l, v)] * (2 if n not in ("", gd.URLX) else 1)}[how]
                else:
                    rest = [k for k in t.kids if not isinstance(k, gd.N) or (k.n, k.l) != (n, l)]
                    x = one(g, n, l, ty)
                    t.kids = {0: rest, 1: t.kids + [x], 2: rest + [x], 3: rest + [gd.N(n, close(r, l), x.attrs, x.kids, None)],
                              4: rest + [gd.N(n + "x", l, x.attrs, x.kids, None)], 5: [x] + rest + [x, x.copy()]}[how]
                    if how == 2:
                        r.shuffle(t.kids)
                put(t)


def close(r, l):
    """A name close to l."""
    k = r.randrange(len(l))
    return r.choice([l[:-1] or "zz", l + "a", l[:k] + ("q" if l[k] != "q" else "p") + l[k + 1:], l[:max(1, len(l) // 2)], l[:16], "a" + l, l[:-1] + ("q" if l[-1] != "q" else "p")])


def check_c04(ctx, r):
    g = Gen(ctx, r, ["c04"])
    b = Batch(ctx, "read", g.bin, g.u, FIELD_CLASSES)
    focus = [i for i in g.types if "c04" in g.u.tags[i - 1]]
    rest = [i for i in g.types if i not in focus]
    reads(g, b, focus, ctx.n(60, 500))
    reads(g, b, rest, ctx.n(25, 250))
    systematic_children(g, b, focus)
    small(ctx, g, b, focus)
    b.run()
    b = Batch(ctx, "many", g.bin, g.u, FIELD_CLASSES)
    for n in ("bige", "optel", "optfl"):
        each(g, b, g.u.S[n], ["elem"])
    for k, i in enumerate(focus + [g.u.S["bigf"]]):
        many(g, b, i, ctx.n([70, 300, 1100][k % 3] if i == g.u.S["cards"] or k > 5 else 40, 3000))
    many(g, b, g.u.S["cards"], ctx.n(1100, 5000))
    b.run()


def systematic_children(g, b, types):
    """Every multiset of up to two more or fewer occurrences of each field, in two orders."""
    r, u = g.r, g.u
    for i in types:
        names = [x for x in gd.names_of(u, i, "elem")]
        if not names or len(names) > 8:
            continue
        base = g.tree(i)
        for k, (n, l, ty) in enumerate(names):
            for count in (0, 1, 2, 3):
                t = base.copy()
                t.kids = [x for x in t.kids if not (isinstance(x, gd.N) and x.n == n and x.l == l)]
                for _ in range(count):
                    t.kids.insert(r.randint(0, len(t.kids)), gd.child(u, r, n, l, ty, 0, 2))
                if not gd.floats_ok(u, t, i):
                    continue
                data, toks, _, _ = g.spelled(t, gd.STYLES[r.choice([0, 1])])
                b.de(i, data, toks)


def check_c05(ctx, r):
    g = Gen(ctx, r, ["c05"])
    b = Batch(ctx, "read", g.bin, g.u, FIELD_CLASSES)
    u = g.u
    focus = [i for i in g.types if "c05" in u.tags[i - 1]]
    rest = [i for i in g.types if i not in focus and gd.names_of(u, i, "attr")]
    reads(g, b, focus, ctx.n(100, 800), styles=(0, 1, 2, 2))
    reads(g, b, rest, ctx.n(30, 300), styles=(0, 1, 2))
    small(ctx, g, b, focus, rich=True)
    # Each attribute alone absent, misplaced, misnamed, doubled.
    for i in focus + rest:
        names = gd.names_of(u, i, "attr")
        for n, l, ty in names:
            for how in range(6):
                t = g.tree(i)
                t.attrs = [a for a in t.attrs if a[:2] != (n, l)]
                v = gd.text_for(u, r, ty)
                fl = gd.uses_float(u, ty)
                if how == 1:
                    t.attrs.append((n, l, v))
                elif how == 2 and not fl:
                    t.attrs.append((r.choice([x for x in ("", gt.X, gt.Y, "urn:no") if x != n]), l, v))
                elif how == 3 and n not in ("", gd.URLX):
                    t.attrs += [(n, l, v), (n, l, v)]
                elif how == 4:
                    t.kids.append(gd.N(n if n != gd.URLX else "", l, [(n, l, v)] if not fl else [], [v] if not fl else []))
                elif how == 5 and not fl:
                    t.attrs.append((n, l, r.choice(["", "!", " ", v + "!", " " + v])))
                if not gd.floats_ok(u, t, i):
                    continue
                data, toks, _, _ = g.spelled(t, gd.STYLES[r.choice([0, 1, 2])])
                b.de(i, data, toks)
    b.run()
    b = Batch(ctx, "many", g.bin, g.u, FIELD_CLASSES)
    for _ in range(ctx.n(1, 4)):
        for i in [u.S["biga"], u.S["bigf"], u.S["optat"], u.S["optfl"]]:
            each(g, b, i, ["attr"])
    for i in focus + [u.S["biga"]]:       # among many others
        for n in ctx.n([40, 300], [40, 300, 3000]):
            for full in (True, False):
                t = whole(g, i, full)
                t.attrs += [("", "nobody%d" % k, "v") for k in range(n)]
                r.shuffle(t.attrs)
                if gd.floats_ok(u, t, i):
                    data, toks, _, _ = g.spelled(t, gd.STYLES[0])
                    b.de(i, data, toks)
    b.run()


def check_c06(ctx, r):
    g = Gen(ctx, r, ["c06"])
    b = Batch(ctx, "read", g.bin, g.u, FIELD_CLASSES)
    focus = [i for i in g.types if "c06" in g.u.tags[i - 1]]
    rest = [i for i in g.types if i not in focus]
    reads(g, b, focus, ctx.n(25, 250), muts=(0, 0, 0, 1, 1, 2), styles=(0, 2, 3, 3), spellings=4, chunk=0)
    reads(g, b, rest, ctx.n(6, 60), muts=(0, 0, 1), styles=(0, 2, 3, 3), spellings=4, chunk=0)
    small(ctx, g, b, focus, styles=(0, 2, 3, 3))
    # Every name one step away from one the type knows.
    u = g.u
    near_urls = lambda n: {"", gt.X, gt.Y, gt.Z, gt.W, n + "x", n[:-1], n + "/", n + "//", n + "#", n + "?", n.rstrip("/"), n.upper(), n.title(), n + "é", n.replace("e", "%65", 1),
                           n.replace("http:", "https:"), " " + n, n + " ", n.split("#")[0].split("?")[0], n + "\u0301",
                           n[:-1] + "q", n[:16], n[:32], n[:len(n) // 2], n[:len(n) // 2] + "q" + n[len(n) // 2 + 1:], "q" + n[1:]} - {n}
    near_locals = lambda l: {l + "a", l.upper(), l.lower(), l.swapcase(), l[:-1] or "q", "é" + l, l + "-", l + ".", "_" + l, l + "_", l.replace("-", "_"), l.replace("_", "-"),
                             l.replace("é", "e\u0301"), l[1:] or "q", l + "s", l.replace("_", ""),
                             l[:-1] + "q", l[:16], l[:32], l[:len(l) // 2], l[:len(l) // 2] + "q" + l[len(l) // 2 + 1:], "q" + l[1:]} - {l}
    okname = lambda l: l and (l[0].isalpha() or l[0] == "_")
    big = [u.S[x] for x in ("bige", "biga", "bign", "bigv")]
    for i in focus + big:
        for m in ("elem", "attr"):
            ns = gd.names_of(u, i, m)
            for n, l, ty in r.sample(ns, min(len(ns), ctx.n(4, 70))) if i in big else ns:
                for n2, l2 in [(x, l) for x in sorted(near_urls(n))] + [(n, x) for x in sorted(near_locals(l)) if okname(x)]:
                    if gd.URLX in (n, n2) or (m == "attr" and ty and gd.uses_float(u, ty)):
                        continue
                    t = whole(g, i, r.random() < 0.2) if i in big else g.tree(i)
                    if m == "attr":
                        t.attrs = [a for a in t.attrs if a[:2] != (n2, l2)] + [(n2, l2, gd.text_for(u, r, ty))]
                    else:
                        t.kids.insert(r.randint(0, len(t.kids)), gd.child(u, r, n2, l2, ty, 0, 3))
                    if gd.floats_ok(u, t, i):
                        data, toks, _, _ = g.spelled(t, gd.STYLES[r.choice([0, 2, 3])])
                        b.de(i, data, toks)
    for n in ("bign", "optel", "optat"):
        each(g, b, u.S[n])
    b.run()


def check_c07(ctx, r):
    g = Gen(ctx, r, ["c07"])
    u = g.u
    b = Batch(ctx, "read", g.bin, g.u, FIELD_CLASSES)
    focus = [i for i in g.types if "c07" in u.tags[i - 1]]
    rest = [i for i in g.types if i not in focus and (u[i]["k"] == "enum" or any(u[j]["k"] == "enum" for j in u.uses_all(i)))]
    reads(g, b, focus, ctx.n(60, 500))
    reads(g, b, rest, ctx.n(25, 250))
    # Every sequence of up to three known, skipped or unknown names (two for the larger ones).
    import itertools
    for i in focus + rest:
        if u[i]["k"] != "enum":
            continue
        vs = [(v["n"], v["l"], None if v["c"] == "unit" else v["ty"]) for v in u[i]["vars"]]
        pool = vs + [("", "unknown", None)]
        n = 3 if len(pool) <= 5 else 2
        for k in range(n + 1):
            for combo in itertools.product(pool, repeat=k):
                t = gd.N("", "r", [], [gd.child(u, r, *c, 0, 3) for c in combo], i)
                if gd.floats_ok(u, t, i):
                    data, toks, _, _ = g.spelled(t, gd.STYLES[r.choice([0, 0, 1])])
                    b.de(i, data, toks)
    small(ctx, g, b, focus)
    b.run()
    b = Batch(ctx, "many", g.bin, g.u, FIELD_CLASSES)
    i = u.S["bigv"]
    vs = gd.names_of(u, i, "elem")
    for x in vs:
        for seq in [[x], [x, x], [x, r.choice(vs)], [r.choice(vs), x], [(x[0], close(r, x[1]), x[2])], [x, (x[0], close(r, x[1]), x[2]), x]]:
            t = gd.N("", "r", [], [one(g, *y) for y in seq], i)
            data, toks, _, _ = g.spelled(t, gd.STYLES[r.choice([0, 0, 1])])
            b.de(i, data, toks)
    for k, i in enumerate(focus + rest):
        if u[i]["k"] == "enum" and vec_names(u, i):
            many(g, b, i, ctx.n([40, 70, 300][k % 3], 1100))
    many(g, b, u.S["en"], ctx.n(1100, 5000))
    b.run()
    w = Batch(ctx, "write", g.bin, g.u, ["crash", "out", "wf"])
    each_variant(g, w, [u.S["bigv"]] + focus + rest, ctx.n(1, 8))
    w.ser(u.S["en"], ["e", 2, ["v", [["p", gt.cps("x%d" % k)] for k in range(ctx.n(1100, 5000))]]], OPTS[:1])
    writes(g, w, focus + rest, ctx.n(8, 60), OPTS[:1])
    w.run()


def check_c08(ctx, r):
    g = Gen(ctx, r, ["c08"])
    u = g.u
    b = Batch(ctx, "read", g.bin, g.u, FIELD_CLASSES)
    focus = [i for i in g.types if "c08" in u.tags[i - 1]]
    rest = [i for i in g.types if i not in focus and u[i]["k"] == "struct" and any(f["m"] == "flat" for f in u[i]["fields"])]
    reads(g, b, focus, ctx.n(110, 900), muts=(0, 0, 1, 1, 2, 3, 4))
    reads(g, b, rest, ctx.n(50, 400))
    systematic_children(g, b, focus + rest)
    small(ctx, g, b, focus)
    b.run()
    b = Batch(ctx, "many", g.bin, g.u, FIELD_CLASSES)
    each(g, b, u.S["bigf"])
    for k in range(6):
        each(g, b, u.S["bigc%d" % k])
        many(g, b, u.S["bigc%d" % k], ctx.n([40, 300][k == 5], 1100))
    many(g, b, u.S["fl4"], ctx.n(300, 1100))
    each(g, b, u.S["optfl"])
    b.run()


def check_c16(ctx, r):
    g = Gen(ctx, r, ["c16"], random_types=False)
    u = g.u
    b = Batch(ctx, "read", g.bin, g.u, FIELD_CLASSES)
    rest = [i for i in g.ok if not u.istext(i) and "random" in u.tags[i - 1] and (gd.text_fields(u, i))]
    reads(g, b, g.types + rest, ctx.n(60, 500), styles=(2, 2, 2, 1), muts=(0, 0, 0, 1, 2), chunk=0.4)
    reads(g, b, [i for i in g.ok if u.istext(i) and not gd.uses_float(u, i)], ctx.n(14, 100), styles=(2, 2, 1), muts=(0, 0, 0, 5), chunk=0.4)
    small(ctx, g, b, [i for i in g.types if "c16" in u.tags[i - 1]], styles=(1, 2, 2))
    # Texts as every sequence of pieces, for a text value, a text field, and a field's text.
    import itertools
    texts = [u.prim["str"], u.prim["probe"], u.S["txt"], u.S["txta"], u.S["fltt"], u.S["fltd"]]
    pieces = [("t", "a"), ("t", " "), ("c", "b "), ("c", "<"), ("c", " "), ("r", "c"), ("r", " "), ("e", "&"), ("m", "x"), ("p", "y"), ("t", "\n\t")]
    n = ctx.n(3, 4)
    for i in texts:
        if i in g.dropped:
            continue
        for k in range(n + 1):
            for combo in itertools.product(pieces, repeat=k):
                kids = list(combo)
                if u[i]["k"] == "struct" and r.random() < 0.4:
                    kids.insert(r.randint(0, len(kids)), docs.El("", "unk", [], [], [("t", "inside")], False, 0))
                if k == 3 and r.random() > ctx.n(0.3, 1):
                    continue
                data, toks, _, _ = docs.render(docs.El("", "r", [], [], kids, False, 0))
                b.de(i, data, toks, chunks(r) if r.random() < 0.2 else None)
    # Long texts, in one piece and in many.
    for i in texts:
        for n, m in [(100, 70), (5000, 1), (30, 300), (1, 70000), (9000, 8), (33000, 3)] + ctx.n([], [(1, 70001), (300, 300), (70, 3000)]):
            for how in range(2):
                kids = []
                for k in range(n if n < 400 else m if m < 400 else 1):
                    size = m if n < 400 else n
                    kind = "c" if k % 2 == how else r.choice("ttr") if size < 1000 else "t"
                    kids.append((kind, "".join(r.choice("abcdefghij klmnopqrstuvwxyz<é") for _ in range(size))))
                    if u[i]["k"] == "struct" and r.random() < 0.1:
                        kids.append(docs.El("", "unk", [], [], [("t", "inside")], False, 0))
                data, toks, _, _ = docs.render(docs.El("", "r", [], [], kids, False, 0))
                b.de(i, data, toks, chunks(r) if r.random() < 0.2 and len(data) < 20000 else None)
    b.run()


def check_c17(ctx, r):
    g = Gen(ctx, r)
    u = g.u
    hold = [i for i in g.types if u.prim["probe"] in u.uses_all(i)]
    b = Batch(ctx, "read", g.bin, g.u, ["own", "crash"])
    reads(g, b, hold, ctx.n(25, 250), muts=(0, 1, 1, 2, 3, 4), bad=(0.0, 0.03, 0.1), chunk=0)
    # Failure at every byte: the document ends there, or its source fails, or something malformed is in the way.
    per = ctx.n(40, 12)
    for i in hold:
        for rep in range(ctx.n(1, 4)):
            t = g.tree(i)
            data, toks, ends, safe = g.spelled(t, gd.STYLES[r.choice([0, 1])])
            for k in sorted(r.sample(range(len(data)), min(len(data), ctx.n(24, 400)))):
                d, tk = docs.cut(data, toks, ends, safe, k)
                b.de(i, d, tk)
            for k in sorted(r.sample(range(len(data)), min(len(data), ctx.n(5, 60)))):
                d, tk = docs.cut(data, toks, ends, safe, k, fault=True)
                b.de(i, data, tk, {"chunks": [], "fail": k, "kind": r.randrange(5)})
            for j in r.sample(range(len(toks) - 2), min(len(toks) - 2, ctx.n(5, 60))):
                if toks[j]["k"] in "SE" and not (j and False):
                    d, tk = docs.poison(data, toks, ends, j, r.choice(docs.POISON))
                    b.de(i, d, tk)
    b.run()
    # Many values, all of which are dropped when the last one is bad.
    b = Batch(ctx, "many", g.bin, g.u, ["own", "crash"])
    for k, i in enumerate(hold):
        if "big" in u.tags[i - 1] or "random" not in u.tags[i - 1]:
            many(g, b, i, ctx.n([20, 20, 70][k % 3], 300))
    many(g, b, u.S["cards"], ctx.n(600, 3000))
    many(g, b, u.S["en"], ctx.n(600, 3000))
    for i in (u.S["bige"], u.S["biga"], u.S["bigf"]):
        each(g, b, i)
    b.run()
    # User code (conversions, defaults) panics at every call.
    b = Batch(ctx, "unwinding", g.bin, g.u, ["own", "crash"])
    for i in hold:
        for rep in range(ctx.n(4, 40)):
            t = g.tree(i, (0, 1, 0, 2)[rep % 4])
            data, toks, ends, safe = g.spelled(t, gd.STYLES[0])
            for k in range(1, ctx.n(7, 12)):
                b.de(i, data, toks, panic=k)
    b.run()
    if not ctx.detail.get("unwound") and not ctx.viol:
        raise lib.ToolError("no call was unwound")


def check_c02(ctx, r):
    """Errors of derived code."""
    g = Gen(ctx, r, [])
    b = Batch(ctx, "derived-errors", g.bin, g.u, ["error", "crash"])
    reads(g, b, g.types, ctx.n(12, 150), muts=(1, 1, 2, 2, 3), styles=(0, 1, 1, 3), bad=(0.0, 0.05, 0.2))
    b.run()


# ---------------------------------------------------------------------------------------------
# What to write.

OPTS = [{"ind": 0, "decl": 0, "sink": 0}, {"ind": 0, "decl": 1, "sink": 0}, {"ind": 1, "decl": 0, "sink": 0}, {"ind": 1, "decl": 1, "sink": 0},
        {"ind": 0, "decl": 0, "sink": 1}, {"ind": 0, "decl": 1, "sink": 1}, {"ind": 1, "decl": 0, "sink": 1}, {"ind": 1, "decl": 1, "sink": 1}]


def writes(g, b, types, per, opts):
    for i in types:
        for _ in range(per):
            v = g.u.value(g.r, i)
            for _ in range(20):
                if len(json.dumps(v)) < 6000:
                    break
                v = g.u.value(g.r, i)
            else:
                continue
            b.ser(i, v, opts)


def each_variant(g, b, types, per):
    for i in types:
        for j, v in enumerate(g.u[i]["vars"] if g.u[i]["k"] == "enum" else []):
            for _ in range(per):
                b.ser(i, ["e", j + 1, ["u"] if v["c"] == "unit" else g.u.fieldvalue(g.r, v["c"], v["ty"], 0, True, enum=True)], OPTS[:1])


def large(g, b, n, opts):
    """Values of n items, or with long texts."""
    u, S = g.u, g.u.S
    p = lambda k: ["p", gt.cps("x%d" % k)]
    b.ser(S["cards"], ["st", [p(0), ["o", []], ["v", [p(k) for k in range(n)]]]], opts)
    b.ser(S["en"], ["e", 2, ["v", [p(k) for k in range(n)]]], opts)
    b.ser(S["strs"], ["st", [["v", [["s", gt.cps("<%d>" % k)] for k in range(n // 2)]], ["o", [["s", gt.cps("a&b " * n)]]], ["v", [p(k) for k in range(n // 2)]], ["o", []]]], opts)
    b.ser(S["txt"], ["st", [["p", gt.cps("<text> " * n)]]], opts)
    b.ser(S["attrs"], ["st", [p(0), ["o", [["p", gt.cps("<'text'&\"> " * n)]]], p(1), ["o", []]]], opts)
    t = ["st", [["o", []], ["v", []]]]
    for k in range(45):      # (the JSON reader of TLC has a limit)
        t = ["st", [["o", [p(k)] if k % 3 else []], ["v", [t, ["st", [["o", []], ["v", []]]]][:1 + k % 2]]]]
    b.ser(S["tree"], t, opts)


def check_c09(ctx, r):
    g = Gen(ctx, r, [])
    b = Batch(ctx, "derived", g.bin, g.u, ["wf", "out", "crash"])
    writes(g, b, g.types, ctx.n(15, 150), OPTS[:1])
    large(g, b, ctx.n(600, 3000), OPTS[:1])
    b.run()


def check_c10(ctx, r):
    g = Gen(ctx, r, [])
    b = Batch(ctx, "roundtrip", g.bin, g.u, ["back", "value", "crash"])
    writes(g, b, g.types, ctx.n(40, 400), OPTS[:1])
    each_variant(g, b, g.types, ctx.n(1, 8))
    large(g, b, ctx.n(600, 3000), OPTS[:1])
    writes(g, b, [i for i in g.ok if g.u.istext(i)], ctx.n(12, 100), OPTS[:1])
    b.run()


def check_c18(ctx, r):
    g = Gen(ctx, r, [])
    b = Batch(ctx, "written", g.bin, g.u, ["out", "wf", "crash"])
    writes(g, b, g.types, ctx.n(25, 250), OPTS[:1])
    each_variant(g, b, g.types, ctx.n(1, 8))
    large(g, b, ctx.n(600, 3000), OPTS[:1])
    writes(g, b, [i for i in g.ok if g.u.istext(i)], ctx.n(5, 50), OPTS[:1])
    b.run()


def check_c19(ctx, r):
    g = Gen(ctx, r, [])
    b = Batch(ctx, "options", g.bin, g.u, ["options", "crash"])
    large(g, b, ctx.n(300, 1100), OPTS)
    for how in range(4):
        opts = [dict(o, how=how) for o in OPTS]
        writes(g, b, g.types, ctx.n(2, 15), opts)
        writes(g, b, [i for i in g.ok if g.u.istext(i)], ctx.n(1, 5), opts)
    b.run()


CHECKS = {"C02": [check_c02], "C04": [check_c04], "C05": [check_c05], "C06": [check_c06], "C07": [check_c07], "C08": [check_c08],
          "C09": [check_c09], "C10": [check_c10], "C16": [check_c16], "C17": [check_c17], "C18": [check_c18], "C19": [check_c19]}
