"""The reader engine: scripted handlers on the real reader, checked against spec/Reader.tla."""
import sys
import json
import os
import random
import re

import docs
import errs
import gen_reader as g
import lib
from docs import El

WHAT = {"odd": "an observation of a kind which the specification does not know",
        "crash": "panic, crash or hang", "chunks": "result depends on how the source divides the bytes",
        "result": "wrong outcome", "error": "error described wrongly", "content": "wrong content given to a handler"}


def core(ctx):
    if "core" not in ctx.bins:
        b, out = lib.build("vfcore")
        if not b:
            raise lib.ToolError("the harness does not build:\n" + out[-3000:])
        ctx.bins["core"] = b
    return ctx.bins["core"]


class Batch:
    """Cases for the reader, with the document each of them reads."""

    def __init__(self, ctx, name, classes):
        self.ctx, self.name, self.classes = ctx, name, classes
        self.cases, self.meta, self.alt, self.keys = [], {}, {}, {}
        self.next = 0

    def add(self, data, tokens, script, src=None, fault="", alts=(), key=None, stk=0):
        """alts: other sources that must give the same run; stk: KiB of stack."""
        i = self.next
        c, m = g.case(i, data, tokens, script, src, fault, stk)
        self.cases.append(c)
        self.meta[i] = m
        self.keys[i] = key
        self.next += 1
        self.alt[i] = []
        for s in alts:
            c2, _ = g.case(self.next, data, tokens, script, s, fault)
            self.cases.append(c2)
            self.alt[i].append(self.next)
            self.next += 1

    def run(self):
        ctx = self.ctx
        wd = os.path.join(ctx.wd, self.name)
        ev = lib.run_cases(core(ctx), self.cases, wd)
        lines = []
        for i, m in self.meta.items():
            if i not in ev or any(a not in ev for a in self.alt[i]):
                continue
            l = g.line(m, ev[i], errs)
            l["alts"] = [errs.prep(ev[a]) for a in self.alt[i]]
            lines.append(l)
        canaries(lines, ctx)
        rej, st = lib.validate("TraceReader", lines, wd)
        bad = [i for i in range(-len(CANARIES), 0) if i in [l["id"] for l in lines] and i not in rej]
        # (Where the code is wrong, a corruption of what it did may be right.)
        if bad and not [i for i in rej if i >= 0 and self.keys[i] not in ctx.known]:
            raise lib.ToolError("corrupted traces were accepted: %s" % bad)
        st["traces"] -= len([l for l in lines if l["id"] < 0])
        ctx.validated(self.name, st)
        by = {c["id"]: c for c in self.cases}
        for l in lines[:2]:
            if l["id"] >= 0:
                ctx.sample({"case": by[l["id"]], "events": len(l["ev"]), "run": self.name})
        other = 0
        for i, (li, cls) in sorted(rej.items()):
            if i < 0:
                continue
            if cls not in self.classes and cls != "odd":
                other += 1
                continue
            e = ev[i][li - 1] if li - 1 < len(ev[i]) else {"t": "(no event)"}
            data = bytes.fromhex(by[i]["hex"])
            s = "%s [%s]: event %d %s; document %r script %r source %r" % (
                WHAT[cls], self.name, li, json.dumps(e, ensure_ascii=True)[:250], data[:200], by[i]["script"], by[i].get("src"))
            ctx.violation(s, {"engine": "reader", "case": by[i], "class": cls, "at": li, "events": ev[i][:li + 1],
                              "trace": [l for l in lines if l["id"] == i][0],
                              "alts": [by[a] for a in self.alt[i]]}, key=self.keys[i])
        if other:
            ctx.detail["rejected_for_other_properties"] = ctx.detail.get("rejected_for_other_properties", 0) + other


# Corruptions that the specification must notice: each edits one recorded event of a real run.
def _c_chars(ev):
    for e in ev:
        if e["t"] == "chars":
            e["s"] = e["s"][:-1] + [e["s"][-1] ^ 1]
            return True


def _c_drop(ev):
    for j, e in enumerate(ev):
        if e["t"] == "attr":
            del ev[j:j + 2]
            return True


def _c_depth(ev):
    for e in ev:
        if e["t"] == "elem":
            e["dep"] += 1
            return True


def _c_ok(ev):
    if ev[-1]["t"] == "done" and not ev[-1]["ok"]:
        ev[-1] = {"t": "done", "ok": True}
        return True


def _c_pos(ev):
    if ev[-1]["t"] == "done" and not ev[-1]["ok"] and len(ev[-1]["o"]["lines"]) > 0:
        for x in ev[-1]["o"]["stack"]:
            x["r"] += 1
        return True


def _c_swap(ev):
    k = [j for j, e in enumerate(ev) if e["t"] == "elem"]
    if len(k) > 2 and ev[k[1]]["l"] != ev[k[2]]["l"]:
        ev[k[1]]["l"], ev[k[2]]["l"] = ev[k[2]]["l"], ev[k[1]]["l"]
        return True


CANARIES = [_c_chars, _c_drop, _c_depth, _c_ok, _c_pos, _c_swap]


def canaries(lines, ctx):
    """Adds corrupted copies (negative ids), which must be rejected."""
    out = []
    for n, f in enumerate(CANARIES):
        for l in lines[:200]:
            if len(l["ev"]) > 400 or any(e["t"] in ("panic", "hang", "crash", "endless") for e in l["ev"]):
                continue
            c = json.loads(json.dumps(l))
            if f(c["ev"]):
                c["id"] = -1 - n
                c["alts"] = []
                out.append(c)
                break
    lines.extend(out)
    ctx.detail["corrupted_traces_rejected"] = ctx.detail.get("corrupted_traces_rejected", 0) + len(out)


def exhaustive(ctx, classes, maxn, dev, only=None):
    """All behaviours of the machine over small documents, replayed on the real code."""
    D = g.mc_docs(maxn)
    f = os.path.join(ctx.wd, "docs.ndjson")
    with open(f, "w") as o:
        for d, t in D:
            o.write(json.dumps(lib.esc_all({"doc": t})) + "\n")
    cfg = "MCReader%d" % dev
    m = lib.model_check("MCReader", cfg, ctx.wd, env={"DOCS": f})
    ctx.model(m)
    B = re.findall(r'<<"BEHAVIOUR", (\d+), <<([\d, ]*)>>>>', m["out"])
    if not B:
        raise lib.ToolError("no behaviours")
    b = Batch(ctx, "replay", classes)
    for di, s in B:
        d, t = D[int(di) - 1]
        s = s.replace(", ", "")
        if only is None or only(t, s):
            b.add(d, t, s)
    ctx.note(documents=len(D), behaviours=len(B), replayed=len(b.cases))
    b.run()


def chain(r, n, tail):
    e = tail
    for i in range(n):
        kids = [e]
        if r.random() < 0.3:
            kids.insert(0, ("t", "x%d" % i))
        if r.random() < 0.3:
            kids.append(("t", "y%d" % i))
        if r.random() < 0.2:
            kids.append(El("", "s", [], [("", "k", "v")], [("t", "z")]))
        pre = r.choice(["", "", "p"]) if i % 7 else ""
        e = El("p" if pre else "", "e%d" % (n - i), [("p", "urn:%d" % (i % 5))] if pre else [], [], kids)
    return e


def wide(r, n):
    kids = []
    for i in range(n):
        kids.append(El("", "c%d" % (i % 3), [], [("", "a%d" % j, str(j)) for j in range(i % 3)],
                       [("t", str(i))] if i % 2 else []))
        if i % 5 == 0:
            kids.append(("t", "t%d" % i))
    return El("", "w", [], [("", "a%d" % j, "v%d" % j) for j in range(60)], kids)


def script_at(r, n):
    """Plain reading with one or two deviations somewhere in `n` decisions."""
    s = ["0"] * n
    for _ in range(r.choice([1, 1, 2, 3])):
        s[r.randrange(n)] = r.choice("12345")
    return "".join(s)


def big(ctx, b, r, k):
    for i in range(k):
        if i % 2:
            root = chain(r, r.choice([20, 60, 150, 300]), El("", "leaf", [], [("", "q", "1")], [("t", "deep")]))
        else:
            root = wide(r, r.choice([30, 120, 300]))
        data, tok, ends, safe = docs.render(root)
        n = sum(1 + len(t.get("a", [])) if t["k"] == "S" else 1 for t in tok)
        s = script_at(r, n) if i > 1 else ""
        b.add(data, tok, s)
        if i % 4 == 1:   # swallowing at the very inside, giving up there
            b.add(data, tok, "0" * (n // 3) + r.choice(["4", "3"]) + "".join(r.choice("0001") for _ in range(n)))


def large(ctx, b, r):
    """Very many siblings, attributes, namespaces; very long names and texts; read in full, and up to a failure at the far end."""
    n = ctx.n(1100, 5000)
    long = lambda k: "".join(r.choice("abcdefghij klmnopq<é&") for _ in range(k))
    roots = [
        El("", "w", [], [], [El("", "c%d" % (i % 3), [], [("", "k", "v%d" % i)] if i % 7 == 0 else []) for i in range(n)]),
        El("", "w", [], [("", "a%d" % j, "v%d" % j) for j in range(n // 3)], [El("", "x", [], [("", "b%d" % j, "u%d" % j) for j in range(n // 3)])]),
        El("", "w", [("p%d" % j, "urn:%d" % (j % 50)) for j in range(150)], [("p%d" % j, "a%d" % j, "v%d" % j) for j in range(150)],
           [El("p%d" % j, "x", [("p%d" % (j * 7 % 150), "urn:other")] if j % 3 == 0 else [], [("p%d" % j, "k", "v")] if j % 2 else []) for j in range(150)]),
        El("", "w", [("", "urn:" + "u" * 3000)], [("", "k" * 700, long(3000))], [("t", long(70000)), El("", "e" * 900, [], [], [("t", long(9000)), ("c", "x" * 9000)]), ("t", long(300))]),
        El("", "w", [], [], [x for i in range(n // 4) for x in (("t", "t%d" % i), ("c", "c%d" % i), ("r", "é"), El("", "e", [], [], []))]),
    ]
    for root in roots:
        data, tok, ends, safe = docs.render(root)
        m = sum(1 + len(t.get("a", [])) if t["k"] == "S" else 1 for t in tok)
        b.add(data, tok, "")
        b.add(data, tok, script_at(r, m))
        b.add(data, tok, "0" * (m - r.choice([1, 2, 3])) + r.choice("12345"))


sys.setrecursionlimit(20000)   # deep documents are rendered recursively


def depths(ctx, b, r, k):
    """Content nobody reads, too deep for a skipping that needs stack for each level."""
    for i in range(k):
        n = 1500 if ctx.thorough else 1000
        root = El("", "r", [], [], [("t", "a"), chain(r, n, El("", "leaf", [], [], [("t", "x")])), El("", "z"), ("t", "b")])
        data, tok, ends, safe = docs.render(root)
        b.add(data, tok, ("0" * i, "1")[i % 2] + "1" * (2 * n), stk=192)


def check_c01(ctx, r):
    exhaustive(ctx, {"content", "crash", "result"}, ctx.n(4, 5), ctx.n(2, 3))
    b = Batch(ctx, "random", {"content", "crash", "result"})
    for _ in range(ctx.n(1200, 20000)):
        d, t, e, s = g.document(r)
        b.add(d, t, g.script(r))
    large(ctx, b, r)
    big(ctx, b, r, ctx.n(12, 60))
    depths(ctx, b, r, ctx.n(4, 8))
    b.run()


def check_c02(ctx, r):
    exhaustive(ctx, {"error", "crash"}, ctx.n(4, 4), ctx.n(2, 3), only=lambda t, s: t[-1]["k"] == "X" or s.strip("012") or "2" in s)
    b = Batch(ctx, "random", {"error", "crash"})
    for _ in range(ctx.n(900, 15000)):
        d, t, e, s = g.document(r)
        b.add(d, t, g.script(r, mode=r.choice(["mixed", "wild"])))
    for _ in range(ctx.n(250, 4000)):   # the parser or the source fails
        d, t, e, s = g.document(r)
        k = r.randrange(len(d))
        if r.random() < 0.5:
            d2, t2 = docs.cut(d, t, e, s, k)
            b.add(d2, t2, g.script(r))
        else:
            d2, t2 = docs.cut(d, t, e, s, k, fault=True)
            b.add(d, t2, g.script(r), *failing(k, r.randrange(5)))
    for _ in range(ctx.n(250, 4000)):
        p = poisoned(r)
        if p:
            b.add(p[0], p[1], g.script(r, mode=r.choice(["ok", "mixed"])))
    large(ctx, b, r)
    big(ctx, b, r, ctx.n(10, 60))
    b.run()


KINDS = ["Other", "ConnectionReset", "UnexpectedEof", "WouldBlock", "TimedOut"]


def failing(k, kind, chunks=()):
    return {"chunks": list(chunks), "fail": k, "kind": kind % 5}, "io:" + KINDS[kind % 5]


def poisoned(r):
    d, t, e, s = g.document(r)
    depth = 0
    ok = []
    for i, x in enumerate(t):
        if x["k"] == "S":
            depth += 1
        elif x["k"] == "E":
            depth -= 1
        if depth > 0 and x["k"] in "SE" and e[i] != e[i + 1]:
            ok.append(i)
    if not ok:
        return None
    return docs.poison(d, t, e, r.choice(ok), r.choice(docs.POISON))


def sources(r, n):
    """Divisions into reads which must not matter (kind 99: from a string)."""
    return [{"chunks": [1], "fail": -1, "kind": r.choice([0, 99])},
            {"chunks": [r.choice([2, 3, 5, 7])], "fail": -1, "kind": 0},
            {"chunks": [r.randint(0, 9) for _ in range(7)] + [1], "fail": -1, "kind": 0}][:n]


# Not well-formed, but the underlying parser does not notice.
LENIENT = {"control-character": "<a>\x01</a>", "no-space-between-attributes": '<a x="1"y="2"/>',
           "reference-after-root": "<a/>&amp;", "cdata-end-in-text": "<a>]]></a>",
           "space-before-declaration": ' <?xml version="1.0"?><a/>'}


def check_c03(ctx, r):
    C = {"crash", "result", "chunks"}
    # Every way of breaking off, at every byte.
    b = Batch(ctx, "broken-off", C)
    cut_docs = [g.document(random.Random(i), n) for i, n in enumerate([0, 1, 2, 3] if not ctx.thorough else [0, 1, 2, 3, 3, 5, 5, 8] * 4)]
    for d, t, e, s in cut_docs:
        for k in range(len(d)):
            d2, t2 = docs.cut(d, t, e, s, k)
            b.add(d2, t2, "")
            d3, t3 = docs.cut(d, t, e, s, k, fault=True)
            b.add(d, t3, "", *failing(k, k))
        d3, t3 = docs.cut(d, t, e, s, len(d), fault=True)
        b.add(d, t3, "", *failing(len(d), 0))
    for _ in range(ctx.n(150, 3000)):
        d, t, e, s = g.document(r)
        k = r.randrange(len(d))
        d2, t2 = docs.cut(d, t, e, s, k)
        b.add(d2, t2, g.script(r, mode="mixed"))
        d2, t2 = docs.cut(d, t, e, s, k, fault=True)
        b.add(d, t2, g.script(r, mode="mixed"), *failing(k, r.randrange(5), [r.randint(1, 9)]))
    b.run()
    # Not well-formed.
    b = Batch(ctx, "malformed", C)
    for bad in docs.POISON:
        root = El("", "a", [], [], [El("", "q", [], [], [("t", "xy")]), ("t", "u"), El("", "z", [], [], [])])
        d, t, e, s = docs.render(root)
        for i, x in enumerate(t[:-2]):
            if x["k"] in "SE" and e[i] != e[i + 1]:
                for scr in ["", "000000" + "1" * 20, "1", "3", "01", "02", "03"]:
                    b.add(*docs.poison(d, t, e, i, bad), scr)
    for _ in range(ctx.n(200, 4000)):
        p = poisoned(r)
        if p:
            b.add(p[0], p[1], g.script(r, mode=r.choice(["ok", "mixed", "wild"])), alts=sources(r, 1))
    for bad in docs.POISON_PRE:
        for _ in range(ctx.n(2, 20)):
            d, t, e, s = g.document(r)
            b.add(bad.encode() + d, [{"k": "X", "r": 0, "c": 0}], g.script(r))
    for bad in docs.POISON_POST:
        for scr in ["", "1", "3", "2"]:
            for _ in range(ctx.n(2, 20)):
                d, t, e, s = g.document(r)
                b.add(d[:s[0]] + bad.encode(), t[:-1] + [{"k": "X", "r": 0, "c": 0}], scr)
    for x in [b"", b" ", b"\n\n", b"<!-- c -->", b'<?xml version="1.0"?>', b"<", b"<a", b"\xff\xfe", b"<a>\xff</a>", b"<a>\xc3</a>", b"text"]:
        b.add(x, [{"k": "X", "r": 0, "c": 0}], "") if not x.startswith(b"<a>") else \
            b.add(x, [{"k": "S", "p": "", "l": "a", "d": [], "a": [], "r": 1, "c": 1}, {"k": "X", "r": 0, "c": 0}], "")
    for k, x in LENIENT.items():
        tok = [{"k": "S", "p": "", "l": "a", "d": [], "a": [], "r": 0, "c": 0}]
        if "x=" in x:
            tok = [{"k": "X", "r": 0, "c": 0}]
        elif x.startswith("<a/>"):
            tok += [{"k": "E", "r": 0, "c": 0}, {"k": "X", "r": 0, "c": 0}]
        elif x.startswith(" "):
            tok = [{"k": "X", "r": 0, "c": 0}]
        else:
            tok += [{"k": "T", "s": [ord(c) for c in x[3:-4]], "r": 1, "c": 4, "r2": 1, "c2": 99, "opt": True}, {"k": "X", "r": 0, "c": 0}]
        b.add(x.encode(), tok, "1", key=k)
    b.run()
    # Good documents, however they are divided and whatever surrounds the root.
    b = Batch(ctx, "division", C)
    for _ in range(ctx.n(150, 3000)):
        d, t, e, s = g.document(r)
        b.add(d, t, g.script(r, mode=r.choice(["ok", "mixed"])), alts=sources(r, 3))
    pre = [[], [("w", "\n")], [("m", " c ")], [("p", "pi x")], [("p", "q"), ("m", "y"), ("w", "\n \t")], [("m", "<b>"), ("p", "z")]]
    for decl in g.DECLS:
        for p in pre:
            for q in pre:
                if decl is None and p and p[0][0] == "w" and False:
                    continue
                for root in [El("", "a", [], [], [], True), El("", "a", [], [], [("t", "x"), El("", "b")])]:
                    d, t, e, s = docs.render(root, p, q, decl)
                    for scr in ["", "1", "3"]:
                        b.add(d, t, scr)
    # Bytes at random: the same outcome for every division, and no panic.
    b.run()
    b = Batch(ctx, "mutated", {"crash", "chunks"})
    for _ in range(ctx.n(250, 5000)):
        d, t, e, s = g.document(r)
        d = bytearray(d)
        for _ in range(r.choice([1, 1, 2, 4])):
            k = r.randrange(len(d))
            m = r.random()
            if m < 0.4:
                d[k] = r.choice(b"<>&;\"'/=:! a1\x00\xff\xc3")
            elif m < 0.7:
                del d[k:k + r.choice([1, 1, 2, 5])]
            else:
                d[k:k] = r.choice([b"<", b">", b"&", b"]]>", b"<!--", b"<![CDATA[", b"</a>", b"<a>", b"\xe9", b"xmlns:a=''"])
            if not d:
                d = bytearray(b"<")
        b.add(bytes(d), [{"k": "X", "r": 0, "c": 0}], g.script(r), alts=sources(r, 2))
    b.run()


CHECKS = {"C01": [check_c01], "C02": [check_c02], "C03": [check_c03]}
