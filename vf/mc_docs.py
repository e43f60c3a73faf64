"""All small documents of a type, by TLC (spec/MCSchema.tla), for replay on the real code."""
import json
import os
import re

import gen_docs as gd
import lib
from gen_types import URLX, cps


def text_pool(u, i, r, deep=True):
    """Texts worth having in documents of type i."""
    out = []
    kinds = [x for x in sorted({i} | (u.uses_all(i) if deep else set())) if u.istext(x)]
    if any(gd.uses_float(u, x) for x in kinds):
        return ["0"]
    for x in kinds:
        k = u[x]["k"]
        c = {"probe": ["p", "!"], "str": ["st"], "int": ["7"], "bool": ["true"]}.get(k)
        if c is None:
            c = [gd.text_for(u, r, x)]
        out += [y for y in c if y not in out]
    return out


def attr_lists(u, i, r, rich):
    """Attribute lists: [] and a complete one; for the root also every small list."""
    if not i or u.istext(i):
        return [[]]
    names = [(n, l, t) for n, l, t in gd.names_of(u, i, "attr")]
    names = [x for k, x in enumerate(names) if x[:2] not in [y[:2] for y in names[:k]]]
    good = lambda t: next((x for x in text_pool(u, t, r, False) if x != "!"), "s")
    full = [(n, l, good(t)) for n, l, t in names]
    out = [[], full] if full else [[]]
    if rich and names:
        few = full[:4]
        bad = [(n, l, "!") for n, l, t in names[:2] if not gd.uses_float(u, t)]
        other = [("urn:no", names[0][1], "s"), ("", "unknown", "s")]
        if "mine" in u.tags[i - 1]:
            bad.append((names[0][0], names[0][1], ""))
        pool = few + bad + other
        for a in pool:
            out.append([a])
            if a in full:
                out.append([x for x in full if x is not a])
        for a in full:
            if a[0] not in ("", URLX):
                out.append(full + [a])
        for a in bad + other:
            if a[:2] not in [x[:2] for x in full]:
                out.append([a] + full)
            else:
                out.append([x if x[:2] != a[:2] else a for x in full])
        for a in few[:3]:
            for b in few[:3]:
                if a is not b:
                    out.append([a, b])
    seen, res = set(), []
    for o in out:
        o = [x for x in o]
        if json.dumps(o) not in seen:
            seen.add(json.dumps(o))
            res.append(o)
    return res


class Choice:
    """A start tag to choose, by expanded names."""

    def __init__(self, n, l, attrs):
        self.n, self.l, self.attrs = n, l, attrs

    def token(self):
        d, a = [["", self.n]], []
        for k, (n, l, v) in enumerate(self.attrs):
            p = "" if n == "" else "xml" if n == URLX else "k%d" % k
            if p.startswith("k"):
                d.append([p, n])
            a.append([p, l, cps(v)])
        return {"k": "S", "p": "", "l": self.l, "d": d, "a": a, "r": 0, "c": 0}


def alphabet(u, i, r, budget, rich=False, nested=True, near=True, narrow=0):
    """Roots, starts and texts for documents of type i with about `budget` documents.  narrow: so many names only."""
    seen, starts, todo = set(), [], [i]
    done = set()
    while todo:
        t = todo.pop(0)
        if t in done:
            continue
        done.add(t)
        for n, l, ty in gd.names_of(u, t, "elem"):
            if ty and nested and not u.istext(ty):
                todo.append(ty)
            if (n, l) in seen:
                continue
            seen.add((n, l))
            al = attr_lists(u, ty, r, False)
            starts += [Choice(n, l, a) for a in al[-1:]]
    base = list(starts)
    if narrow:
        if len(starts) <= narrow:
            return None
        near, rich = False, False
        starts = [starts[k] for k in sorted(r.sample(range(len(starts)), narrow))]
    if near and starts:
        c = r.choice(starts)
        for n in r.sample(["", gd.X, gd.Y, "urn:no"], 4):
            if (n, c.l) not in seen:
                starts.append(Choice(n, c.l, []))
                break
    if not narrow or r.random() < 0.3:
        starts.append(Choice("", "unknown", []))
    roots = [Choice("urn:root" if r.random() < 0.5 else "", "r", a) for a in attr_lists(u, i, r, rich)]
    texts = text_pool(u, i, r)
    if narrow:
        roots, texts = roots[-1:], ["p"] if "p" in texts else texts[:1]
    elif len(texts) > 3:
        texts = r.sample(texts, 3)
    txs = 1 if len(texts) * len(starts) > 8 else 2
    shapes = [1, 1, 2, 5, 14, 42, 132]
    els = 0
    for n in range(1, 7):
        est = shapes[n] * len(starts) ** n * (1 + len(texts) * (2 * n + 1)) * (1 + (len(texts) * (2 * n + 1) / 2 if txs == 2 else 0)) * len(roots)
        if est > budget:
            break
        els = n
    return {"ty": i, "roots": roots, "starts": starts, "texts": texts, "els": els, "txs": txs}


def tree(al, script, i):
    """The document of a script, as an N."""
    stack, root = [], None
    for c in script:
        if c == 0:
            n = stack.pop()
            continue
        if c < 0:
            stack[-1].kids.append(al["texts"][-c - 1])
            continue
        ch = (al["roots"] if root is None else al["starts"])[c - 1]
        n = gd.N(ch.n, ch.l, list(ch.attrs), [], None)
        if root is None:
            n.ty = i
            root = n
        else:
            stack[-1].kids.append(n)
        stack.append(n)
    return root


def retype(u, n):
    """Which type reads which element, for the renderer's sake."""
    for k in n.kids:
        if isinstance(k, gd.N):
            if n.ty:
                for x in gd.names_of(u, n.ty, "elem"):
                    if x[:2] == (k.n, k.l):
                        k.ty = x[2]
                        break
            retype(u, k)


def documents(ctx, g, types, budget, rich=False, name="documents", heap="8g"):
    """All small documents of the types: [(type, N)]."""
    u, r = g.u, g.r
    als = [alphabet(u, i, r, budget, rich) for i in types] + [alphabet(u, i, r, budget, narrow=k) for i in types for k in (1, 2, 3)]
    als = [a for a in als if a and (a["els"] > 0 or len(a["roots"]) > 1)]
    f = os.path.join(ctx.wd, "alpha-%s.ndjson" % name)
    with open(f, "w") as o:
        for a in als:
            o.write(json.dumps(lib.esc_all({"ty": a["ty"], "roots": [c.token() for c in a["roots"]], "starts": [c.token() for c in a["starts"]],
                                            "texts": [cps(t) for t in a["texts"]], "els": a["els"], "txs": a["txs"]})) + "\n")
    m = lib.model_check("MCSchema", "MCSchema", ctx.wd, env={"ALPHA": f, "TYPES": ctx.types_file}, heap=heap, args=["-deadlock"])
    m["config"] = "MCSchema: %s" % ", ".join("T%d to %d elements, %d texts" % (a["ty"], a["els"], a["txs"]) for a in als)
    ctx.model(m)
    out = []
    for k, s in re.findall(r'<<"DOC", (\d+), <<([-\d,\s]*)>>>>', m["out"]):
        a = als[int(k) - 1]
        n = tree(a, [int(x) for x in s.split(",")], a["ty"])
        out.append((a["ty"], n))
    if not out or len(out) != m["out"].count('"DOC"'):
        raise lib.ToolError("no documents, or unreadable ones")
    return out


def replay(ctx, g, b, docs, n, styles):
    """Adds n of the documents to a batch, in random spellings."""
    r = g.r
    if len(docs) > n:
        docs = r.sample(docs, n)
    for i, t in docs:
        retype(g.u, t)
        if g.u.istext(i) or gd.floats_ok(g.u, t, i):
            data, toks, _, _ = g.spelled(t, gd.STYLES[r.choice(styles)])
            b.de(i, data, toks)
