"""The writer: scripted content and sinks on the real serializer, checked against spec/Writer.tla."""
import json
import os

import lib
import mc_writer as mw
import xmlread
from e_reader import core
from gen_types import URLX, X, Y, Z, W, cps

WHAT = {"odd": "an observation of a kind which the specification does not know",
        "crash": "panic, crash or hang", "result": "success or error reported wrongly", "first": "another error than the first is reported",
        "adds": "output after a failure", "flush": "success without a flush", "wf": "output is not well-formed", "out": "wrong output",
        "names": "wrong names in the output", "prefix": "wrong prefixes in the output", "options": "options change the document"}
PLAIN = {"ind": 0, "decl": 0}
ALL = [{"ind": i, "decl": d} for i in (0, 1) for d in (0, 1)]


class Batch:
    def __init__(self, ctx, name, classes):
        self.ctx, self.name, self.classes = ctx, name, set(classes)
        self.cases, self.group = [], []

    def add(self, prog, opts=PLAIN, sink=None, group=None):
        """group: runs which must agree (see C19)."""
        c = {"id": len(self.cases), "k": "write", "prog": prog, "opts": opts}
        if sink is not None:
            c["sink"] = dict({"plan": [], "fail": -1, "kind": 0, "flush": -1}, **sink)
        self.cases.append(c)
        self.group.append(group)

    def line(self, i, ev, evs):
        es = []
        o = self.cases[i]["opts"]
        for e in ev:
            if e["t"] == "ret":
                b = bytes.fromhex(e["hex"])
                toks = xmlread.read(b) if e["ok"] else []
                opt = True
                if e["ok"]:
                    opt = b.count(b"<?xml ") == o["decl"] and (o["decl"] == 0 or b.startswith(b"<?xml "))
                if self.group[i] is not None:
                    for j in self.members[self.group[i]]:
                        x = [y for y in evs.get(j, []) if y["t"] == "ret"]
                        q = self.cases[j]["opts"]
                        if not x or x[0]["ok"] != e["ok"] or (e["ok"] and (q["ind"], q["decl"]) == (o["ind"], o["decl"]) and x[0]["hex"] != e["hex"]):
                            opt = False
                e = {"t": "ret", "ok": e["ok"], "m": e["m"], "opt": opt, "wf": toks is not None, "toks": [dict(t, r=0, c=0) for t in toks or []]}
            es.append(e)
        return {"id": i, "ind": o["ind"], "ev": es}

    def canaries(self, lines):
        out, done = [], set()

        def add(l, cls, ev):
            done.add(cls)
            out.append((dict(l, id=-1 - len(out), ev=ev), cls))
        for l in lines:
            es = l["ev"]
            if not es or es[-1]["t"] != "ret":
                continue
            r = es[-1]
            if r["ok"] and l["ind"] == 0 and len(r["toks"]) > 3:
                if "out" not in done:
                    add(l, "out", es[:-1] + [dict(r, toks=r["toks"][:1] + [{"k": "T", "s": [120, 1]}] + r["toks"][1:])])
                    add(l, "names", es[:-1] + [dict(r, toks=[dict(r["toks"][0], l="zz")] + r["toks"][1:])])
                    add(l, "prefix", es[:-1] + [dict(r, toks=[dict(r["toks"][0], p="undeclared")] + r["toks"][1:])])
                    add(l, "wf", es[:-1] + [dict(r, wf=False)])
                f = [k for k, e in enumerate(es) if e["t"] == "f"]
                if f and "flush" not in done:
                    add(l, "flush", es[:f[-1]] + es[f[-1] + 1:])
            if not r["ok"] and "result" not in done and any(e["t"] == "x" for e in es):
                add(l, "result", es[:-1] + [dict(r, ok=True, wf=True)])
                k = [k for k, e in enumerate(es) if e["t"] == "x"][0]
                add(l, "adds", es[:k + 1] + [{"t": "w", "n": 1}] + es[k + 1:])
        return out

    def run(self):
        ctx = self.ctx
        wd = os.path.join(ctx.wd, self.name)
        self.members = {}
        for i, g in enumerate(self.group):
            if g is not None:
                self.members.setdefault(g, []).append(i)
        ev = lib.run_cases(core(ctx), self.cases, wd)
        lines = [self.line(i, ev[i], ev) for i in range(len(self.cases)) if i in ev]
        can = self.canaries(lines)
        rej, st = lib.validate("TraceWriter", lines + [c for c, _ in can], wd)
        bad = [cls for c, cls in can if c["id"] not in rej or cls not in rej[c["id"]][1].split("_")]
        st["traces"] -= len(can)
        ctx.validated(self.name, st)
        ctx.detail["corrupted_traces_rejected"] = ctx.detail.get("corrupted_traces_rejected", 0) + len(can)
        viol, other = 0, {}
        for i, (_, cl) in sorted(rej.items()):
            if i < 0:
                continue
            cl = [c for c in cl.split("_") if c]
            mine = [c for c in cl if c in self.classes or c == "odd"]
            if not mine:
                for c in cl:
                    other[c] = other.get(c, 0) + 1
                continue
            viol += 1
            ret = [e for e in ev[i] if e["t"] == "ret"]
            got = bytes.fromhex(ret[0]["hex"]).decode("utf-8", "replace") if ret else json.dumps(ev[i][-1:])
            s = "%s [%s]: program %s options %s sink %s: %s %r" % (
                "; ".join(WHAT[c] for c in mine), self.name, show(self.cases[i]["prog"]), self.cases[i]["opts"], self.cases[i].get("sink"),
                ("success" if ret[0]["ok"] else "error %r" % ret[0]["m"]) if ret else "", got)
            ctx.violation(s, {"engine": "writer", "case": self.cases[i], "events": ev[i], "classes": mine, "output": got})
        if bad and not [i for i in rej if i >= 0]:  # (where the code is wrong, a corruption of what it did may be right)
            raise lib.ToolError("corrupted runs were accepted: %s" % bad)
        if other:
            ctx.detail.setdefault("rejected_for_other_properties", {})[self.name] = other
        for i in (0, len(self.cases) // 2):
            if i < len(self.cases) and i in ev:
                ctx.sample({"run": self.name, "program": show(self.cases[i]["prog"]), "sink": self.cases[i].get("sink"), "events": json.dumps(ev[i])[:300]})
        return ev


def show(p):
    """A program, readably."""
    if "t" in p:
        return json.dumps("".join(map(chr, p["t"])), ensure_ascii=False)
    o = "{%s}%s" % (p["n"], p["l"])
    if p["ns"]:
        o += " ns" + json.dumps(p["ns"], ensure_ascii=False)
    if p["at"]:
        o += " @" + ",".join("{%s}%s=%s" % (a, b, json.dumps("".join(map(chr, c)), ensure_ascii=False)) for a, b, c in p["at"])
    f = "".join(["" if not p["sw"] else "swallow ", ["", "drops-builder ", "drops-writer ", "fails-before-start ", "fails-before-finish "][p["end"]], "via-field " if p["via"] else ""])
    return "%s%s(%s)" % (f, o, ", ".join(show(k) for k in p["kids"]))


# ---------------------------------------------------------------------------------------------
# Programs.

def el(l="a", n="", ns=(), at=(), kids=(), sw=0, end=0, via=0):
    return {"n": n, "l": l, "ns": [list(x) for x in ns], "at": [[a, b, cps(c)] for a, b, c in at], "kids": list(kids), "sw": sw, "end": end, "via": via}


def tx(s):
    return {"t": cps(s)}


LOCALS = ["a", "b", "c", "é", "x-y.z", "_1", "lang", "名", "A"]
PFX = ["p", "q", "r", "", "", "ns1", "ns2", "p2", "x.y", "P"]
URLS = [X, Y, Z, W, "u", "urn:a b'\"<>&", "http://e.com/#é"]
CHARS = list("abc  <>&'\"\t\n\r]") + ["]]>", "&amp;", "<![CDATA[", "<!--", "é", "名", "\U0001f600", "\u00a0", "\ufffd", "\x7f", "\x85", "\u2028", "\ue000", "\U0010ffff", "\ud7ff"]
NOXML = ["\x00", "\x01", "\x0b", "\x0c", "\x1f", "\ufffe", "\uffff", "\x08"]


def rtext(r, bad=0.0, n=8):
    s = "".join(r.choice(CHARS) for _ in range(r.choice([0, 1, 2, 3, n])))
    if r.random() < bad:
        k = r.randint(0, len(s))
        s = s[:k] + r.choice(NOXML) + s[k:]
    return s


def nears(u):
    """URLs which are easily taken for u."""
    return sorted({v for v in (u + "/", u + "#", u.upper(), u.rstrip("/"), u + " ", u[:-1], "/" + u, u + u, u.replace(":", ""), u + "?", u.capitalize(), u.replace("http:", "https:"), "urn:" + u) if v and v != u})


def near(r, u):
    return r.choice(nears(u) or [u])


def alike():
    """Elements with names that differ in nothing but URLs which are easily taken for each other."""
    for u in ["http://x/y", "urn:a"] + [v for v in URLS if v]:
        for v in nears(u):
            for a, b in ((u, v), (v, u)):
                yield el(ns=[("p", a), ("q", b)], n=a, at=[(a, "k", "1"), (b, "k", "2")], kids=[el("b", n=b), el("b", n=a), el("c", ns=[("q", b)], n=b), el("d", ns=[("p", b)], at=[(b, "k", "3")])])


def crowds(r, sizes):
    """Many who ask for the same prefix, on one element, below each other, and side by side; and many of everything."""
    for n in sizes:
        url = [r.choice(["urn:u%d", "http://example.com/a/rather/long/name/with/a/common/beginning/%d/and/end"]) % k for k in range(n)]
        for p in ("p", "", "ns1", "p2"):
            reqs = [(p, u) for u in url]
            at = [(u, "k%d" % (k % 3), "v%d" % k) for k, u in enumerate(url)]
            yield el(ns=reqs, n=url[0] if p == "" else url[-1], at=at, kids=[el("b", n=u) for u in url])
            yield el(ns=reqs[:1], n=url[0], kids=[el("b", ns=reqs, n=url[n // 2], at=at, kids=[el("c", n=u, at=[(u, "k", "1")] if p and u == url[0] else []) for u in url])])
            q = el("e", n=url[-1])
            for k in reversed(range(n)):      # below each other
                q = el("d%d" % (k % 2), ns=[(p, url[k])], n=url[k], at=at[k:k + 1], kids=[q])
            yield q
            yield el(ns=[(p, "urn:outside")], kids=[el("s", ns=[(p, u)], n=u, at=[(u, "k", "1")], kids=[el("t", n=u)]) for u in url])
            some = r.sample(PFX, 4)
            yield el(ns=[(r.choice(some), u) for u in url], at=r.sample(at, n // 2), kids=[el("b", n=u, ns=[(r.choice(some), u)], at=[(u, "k", "1")]) for u in r.sample(url, n // 2)])


def conflicts(p, u, reqs):
    return any((a == p) != (b == u) for a, b in reqs)


def program(r, depth=0, safe=(), maxdepth=4, bad=0.0, nsrate=1.0, misuse=0.0, attrrate=1.0, width=3, seen=(), sure=()):
    """safe: mappings outside that surely still hold here.  seen: mappings requested outside.
    sure: URLs the parent requested, which a child's name may be in whatever the mappings are."""
    reqs = []
    for _ in range(r.choice([0, 0, 1, 1, 2, 3]) if r.random() < nsrate else 0):
        q = [r.choice(PFX), r.choice(URLS[:4] if r.random() < 0.8 else URLS + [""])]
        if reqs and r.random() < 0.15:
            q[1] = near(r, r.choice(reqs)[1])
        reqs.append(q)
    reqs = [q for q in reqs if q[1] != "" or r.random() < 0.5]
    usable = [u for p, u in reqs if u] + [u for p, u in safe if not conflicts(p, u, reqs)]
    n = r.choice([""] + usable * 2 + list(sure)) if r.random() < nsrate else ""
    attrs, had = [], set()
    for _ in range(r.choice([0, 0, 1, 2, 3]) if r.random() < attrrate else 0):
        a = (r.choice(["", ""] + usable + ([URLX] if r.random() < 0.2 else [])), r.choice(LOCALS))
        if attrs and r.random() < 0.3:
            a = (a[0], r.choice(attrs)[1])
        if a[0] == URLX:
            a = (URLX, r.choice(["lang", "space", "id"]))
        if a in had and r.random() >= misuse:
            continue
        had.add(a)
        attrs.append((a[0], a[1], rtext(r, bad)))
    inner = []
    for p, u in list(safe) + [tuple(q) for q in reqs]:
        if not u or p[-1:].isdigit() or conflicts(p, u, reqs) or conflicts(p, u, seen):
            continue
        if p == "" and (n == "" or any(a[0] == u for a in attrs)):
            continue
        inner.append((p, u))
    kids = []
    if depth < maxdepth:
        for _ in range(r.choice([0, 1, 1, 2, width]) if depth else r.choice([1, 2, width])):
            if r.random() < 0.4:
                kids.append(tx(rtext(r, bad)))
            else:
                kids.append(program(r, depth + 1, tuple(inner), maxdepth, bad, nsrate, misuse, attrrate, width, tuple(seen) + tuple(map(tuple, reqs)),
                                    tuple(sorted({u for _, u in reqs if u}))))
    elif r.random() < 0.5:
        kids.append(tx(rtext(r, bad)))
    via = int(r.random() < 0.4)
    end = 0
    if r.random() < misuse:
        end = r.choice([2, 3, 4] if via or depth == 0 else [1, 2, 3, 4])
        if (via or depth == 0) and end == 2:
            end = 4
    return el(r.choice(LOCALS), n, reqs, attrs, kids, int(r.random() < (0.5 if misuse else 0.2)), end, via)


def size(p):
    return 1 + sum(size(k) for k in p.get("kids", []))


def elements(p):
    if "t" in p:
        return []
    return [p] + [x for k in p["kids"] for x in elements(k)]


# ---------------------------------------------------------------------------------------------
# C09

def check_c09(ctx, r):
    b = Batch(ctx, "content", ["wf", "out", "result", "crash"])
    # Every single character of interest in text and attributes, alone and between others.
    one = sorted({c for s in CHARS for c in s} | set(map(chr, range(0, 0x30))) | {chr(c) for c in (0x7e, 0x7f, 0x80, 0x9f, 0xa0, 0xd7ff, 0xe000, 0xfdd0, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1fffe, 0x1ffff, 0x10fffe, 0x10ffff)})
    for c in one:
        for s in (c, "a" + c + "b", c + c, " " + c, c + ">"):
            b.add(el(kids=[tx(s)]))
            b.add(el(at=[("", "x", s)]))
            b.add(el(kids=[el("b", at=[("", "x", "ok"), ("", "y", s)], kids=[tx("t"), tx(s), el("c")])]))
    # Every pair of the characters with a role.
    role = list("<>&'\"\t\n\r ]-a") + ["]]", "é"]
    for x in role:
        for y in role:
            b.add(el(kids=[tx(x + y), tx(y + x)], at=[("", "x", x + y)]))
    for p in list(alike()) + list(crowds(r, [14])):
        b.add(p)
    for k in (250, 1000, 4090, 8190, 16380, 65530):      # long texts with something to escape at any place
        for c in ("<", "&", "é", "\"", "]]>"):
            t = "x" * k + "".join(r.choice(["y", c]) for _ in range(20)) + "z" * r.choice([0, 100])
            b.add(el(kids=[tx(t)]))
            b.add(el(at=[("", "k", t)], kids=[el("b", kids=[tx(c + "z" * k), tx(c), tx("z" * k + c)])]))
    for _ in range(ctx.n(1500, 20000)):
        b.add(program(r, bad=r.choice([0, 0, 0, 0.05]), nsrate=r.choice([0, 0.3, 1])))
    for n in (100, 1000):   # depth and length
        p = el("x", kids=[tx("end")])
        for k in range(n):
            p = el("a%d" % (k % 7), kids=[p] if k % 3 else [tx("t"), p])
        b.add(p)
        b.add(el(kids=[el("b", kids=[tx("<%d>" % k)]) for k in range(n)], at=[("", "a%d" % k, "v&%d" % k) for k in range(min(n, 300))]))
        b.add(el(kids=[tx("x<é>&" * n)]))
    b.run()
    s = Batch(ctx, "small", b.classes)
    for k in range(ctx.n(1, 4)):
        t = r.sample(sorted(set(CHARS) | {"", " "}), 3)
        p = mw.pool(("a", "b")[:ctx.n(1, 2)], (), [("", "k", r.choice(t)), ("", "j", r.choice(t)), (URLX, "lang", "en")][:ctx.n(2, 3)], t, ctx.n(2, 3), 0, 2, ctx.n(2, 2))
        mw.replay(ctx, s, r, mw.programs(ctx, p, "content-%d" % k), ctx.n(2000, 30000), ALL[:2])
    s.run()


# ---------------------------------------------------------------------------------------------
# C11

def basics():
    return [
        el(),
        el(kids=[tx("hi")]),
        el(kids=[tx("x"), el("b", kids=[tx("y")]), tx("z")], at=[("", "k", "v")]),
        el(n=X, ns=[("p", X)], kids=[el("b", n=X, via=1, kids=[tx("<é>")]), el("c", ns=[("", Y)], n=Y)]),
        el(kids=[el("b", kids=[el("c", kids=[tx("deep"), el("d")]), tx("t")]), el("e", at=[("", "a", "1"), ("", "b", "2")])]),
    ]


def swallowed(p, sw=1, deep=True):
    q = dict(p, sw=sw)
    q["kids"] = [k if "t" in k else swallowed(k, sw) if deep else k for k in p["kids"]]
    return q


def check_c11(ctx, r):
    C = ["result", "first", "adds", "flush", "crash", "wf", "out"]
    b = Batch(ctx, "faults", C)
    progs = basics()
    for _ in range(ctx.n(6, 60)):
        while True:
            p = program(r, maxdepth=2, nsrate=0.5)
            if size(p) < 9:
                break
        progs.append(p)
    # How long are they?
    probe = Batch(ctx, "lengths", C)
    for p in progs:
        for o in (0, 1):
            probe.add(swallowed(p, 0), {"ind": 0, "decl": o}, {})
    ev = probe.run()
    for i, p in enumerate(progs):
        for o in (0, 1):
            e = ev.get(2 * i + o, [{}])[-1]
            if e.get("t") != "ret" or not e["ok"]:
                continue
            n = len(e["hex"]) // 2
            for k in range(n):
                kinds = [0, 1, 2, 3, 4, -1] if i < 3 and o == 0 or ctx.thorough else [r.choice([0, 1, 2, 3, 4]), -1]
                for kind in kinds:
                    for sw in (0, 1):
                        if i >= 5 and sw == 0 and r.random() < 0.5:
                            continue
                        b.add(swallowed(p, sw), {"ind": r.choice([0, 0, 1]), "decl": o}, {"fail": k, "kind": kind, "plan": r.choice([[], [], [1], [2, -1, 3]])})
            for kind in (0, 1, 2):
                b.add(swallowed(p, 1), {"ind": 0, "decl": o}, {"flush": kind})
                b.add(swallowed(p, 0), {"ind": 0, "decl": o}, {"flush": kind, "plan": [1]})
            for plan in ([1], [2], [3, 1], [-1, 1], [-1, -1, 5], [1, -1], [7, 2, -1, 1]):
                b.add(p, {"ind": 0, "decl": o}, {"plan": plan})
                b.add(p, {"ind": 1, "decl": o}, {"plan": plan})
    b.run()
    # Content that misbehaves, everywhere.
    m = Batch(ctx, "misuse", C)
    for p in progs[:5]:
        els = elements(p)
        for k in range(len(els)):
            for end in (1, 2, 3, 4):
                for sw in (0, 1):
                    for via in (0, 1):
                        if (via or k == 0) and end in (1, 2):
                            continue
                        q = json.loads(json.dumps(swallowed(p, sw)))
                        e = elements(q)[k]
                        e["end"], e["via"] = end, via
                        m.add(q, r.choice(ALL))
                        m.add(q, PLAIN, {"plan": r.choice([[], [1]]), "fail": r.choice([-1, -1, r.randint(0, 30)]), "kind": r.randrange(-1, 5)})
            for bad in ("\x00", "a\x0bb", "\uffff"):
                for where in range(3):
                    for sw in (0, 1):
                        q = json.loads(json.dumps(swallowed(p, sw)))
                        e = elements(q)[k]
                        if where == 0:
                            e["kids"].insert(r.randint(0, len(e["kids"])), tx(bad))
                        elif where == 1:
                            e["at"].insert(r.randint(0, len(e["at"])), ["", "bad", cps(bad)])
                        else:
                            e["at"] += [["", "twice", cps("1")], ["", "twice", cps("2" + bad)]]
                        m.add(q, PLAIN, r.choice([None, {}]))
    for _ in range(ctx.n(1200, 15000)):
        p = program(r, maxdepth=3, bad=r.choice([0, 0.1]), nsrate=0.3, misuse=r.choice([0.05, 0.2]))
        m.add(p, r.choice(ALL), r.choice([None, {}, {"plan": [1]}, {"fail": r.randint(0, 150), "kind": r.randrange(-1, 5)}, {"fail": r.randint(0, 40), "kind": r.randrange(-1, 5), "plan": [2, -1]}]))
    m.run()
    # Everything small that can go wrong.
    s = Batch(ctx, "small", C)
    for k, p in enumerate([mw.pool((r.choice(LOCALS),), (), [("", "k", "1"), ("", "k", "\x00")], ("t", "\x00"), 2, 0, 2, 1, (0, 1), 1, 1)] + ([
            mw.pool(("a",), (), [("", "k", "1")], ("t", "\x00"), 3, 0, 1, 1, (0, 1), 1, 1),
            mw.pool(("a",), (), [("", "k", "1"), ("", "k", "\x00")], ("t", "\x0b"), 2, 0, 2, 2, (0, 1), 2, 1),
            mw.pool(("a",), [("p", X)], [(X, "k", "1")], ("t",), 2, 1, 2, 1, (0, 1), 1, 1)] if ctx.thorough else [])):
        mw.replay(ctx, s, r, mw.programs(ctx, p, "errors-%d" % k), ctx.n(3000, 40000), ALL)
    s.run()


# ---------------------------------------------------------------------------------------------
# C12

def check_c12(ctx, r):
    b = Batch(ctx, "namespaces", ["prefix", "names", "wf", "crash"])
    for _ in range(ctx.n(3000, 40000)):
        p = program(r, nsrate=1, maxdepth=r.choice([1, 2, 3, 4]))
        if size(p) < 60:
            b.add(p)
    for p in alike():
        b.add(p)
    for p in crowds(r, ctx.n([5, 12, 40], [3, 9, 10, 11, 12, 20, 33, 66, 101, 130, 260])):
        b.add(p)
    # Two nested elements, everything small.
    maps = [(), (("p", X),), (("", X),), (("q", X),), (("p", Y),), (("", Y),), (("p", X), ("", Y)), (("p", X), ("p", Y)), (("p", X), ("q", X)),
            (("", X), ("", Y)), (("ns1", X), ("", Y)), (("p2", X), ("p", Y), ("p", Z)), (("", X), ("p", X))]
    for i, m1 in enumerate(maps):
        for m2 in maps:
            for n1 in [""] + sorted({u for _, u in m1}):
                for n2 in [""] + sorted({u for _, u in m1 + m2}):
                    for a1 in [None] + sorted({u for _, u in m1}):
                        for a2 in [None] + sorted({u for _, u in m2}):
                            if (a1 or a2) and r.random() > ctx.n(0.5, 1):
                                continue
                            k = el("c", n2, m2, [(a2, "k", "2"), ("", "k", "3")] if a2 else [], [r.choice([el("d"), el("d"), el("d", r.choice(sorted({u for _, u in m2} | {n2})))])] if r.random() < 0.7 else [])
                            b.add(el("r", n1, m1, [("", "k", "0"), (a1, "k", "1")] if a1 else [], [k, r.choice([el("e"), el("e", r.choice(sorted({u for _, u in m1} | {n1})))])]))
    b.run()
    # Every small competition for prefixes.
    s = Batch(ctx, "small", b.classes)
    p, q, g = r.sample(["p", "q", "x.y", "P"], 3)[:2] + [r.choice(["ns1", "p2", "q"])]
    u, v = r.sample(URLS[:4], 2)
    pools = [mw.pool(("a",), [(p, u), (p, v), ("", u), ("", v), (g if g != q else p + "2", u)], [("", "k", "1"), (u, "k", "1"), (v, "k", "1")], els=1, maxreqs=2)]
    if ctx.thorough:
        pools += [mw.pool(("a",), [(p, u), (p, v), ("", u)], [(u, "k", "1"), (v, "k", "1")], els=2, maxreqs=1),
                  mw.pool(("a",), [("", u), ("", v)], [(u, "k", "1"), ("", "k", "2")], els=3, maxreqs=1),
                  mw.pool(("a",), [(p, u), (p + "2", v), (p, v), ("ns1", u), ("", u)], [("", "k", "1"), (u, "k", "1"), (v, "k", "2")], els=1, maxreqs=2, maxattrs=2),
                  mw.pool(("a",), [(p, u), (p, v), ("", u), ("", v), (q, W)], [("", "k", "1"), (u, "k", "1"), (W, "k", "1")], els=1, maxreqs=3)]
    for k, x in enumerate(pools):
        mw.replay(ctx, s, r, mw.programs(ctx, x, "prefixes-%d" % k), ctx.n(6000, 40000), [PLAIN])
    s.run()


# ---------------------------------------------------------------------------------------------
# C19

def check_c19(ctx, r):
    b = Batch(ctx, "tree-options", ["options", "crash", "wf", "result", "out"])
    for g in range(ctx.n(250, 4000)):
        p = program(r, maxdepth=r.choice([1, 2, 3, 4]), nsrate=r.choice([0, 0.5]), misuse=r.choice([0, 0, 0, 0.05]))
        if g % 2:
            unmix(r, p)
        for o in ALL:
            b.add(p, dict(o, how=g % 4), None, g)
            b.add(p, dict(o, how=r.randrange(4)), {"plan": r.choice([[], [1], [3, -1, 2]])}, g)
    b.run()


def unmix(r, p):
    """No element with both text and elements."""
    if any("t" in k for k in p["kids"]) and any("t" not in k for k in p["kids"]):
        keep = r.random() < 0.3
        p["kids"] = [k for k in p["kids"] if ("t" in k) == keep]
    for k in p["kids"]:
        if "t" not in k:
            unmix(r, k)


CHECKS = {"C09": [check_c09], "C11": [check_c11], "C12": [check_c12], "C19": [check_c19]}
