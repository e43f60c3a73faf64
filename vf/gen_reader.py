"""Seeded random cases for the reader."""
import random

import docs
from docs import El

PREFIXES = ["", "", "a", "b", "p1", "x.y"]
URLS = ["urn:x", "urn:y", "http://e.com/?q=1&r=<2>", "u", "urn:é"]
LOCALS = ["a", "b", "c", "item", "x-y.z", "été", "名", "A", "ab", "_1"]
TEXT = ["x", "hello", " ", "\n", "  \t ", "a b", "é", "名前", "\U0001f600", "<", "&", "]]", ">", "'\"", "0", "longer text here", "&amp;"]


def rtext(r, n=3):
    return "".join(r.choice(TEXT) for _ in range(r.randint(1, n)))


def pieces(r, depth=0):
    out = []
    for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
        k = r.choice("tttrecccmmp")
        if k == "t":
            out.append(("t", rtext(r)))
        elif k == "r":
            out.append(("r", "".join(r.choice("aé<&\t\n\r \U0001f600名") for _ in range(r.randint(1, 3)))))
        elif k == "e":
            out.append(("e", "".join(r.choice("<>&'\"") for _ in range(r.randint(1, 3)))))
        elif k == "c":
            s = rtext(r).replace("]]>", "").rstrip("]").replace("]]", "") or "c"
            if r.random() < 0.15:
                s = r.choice(["", "<a>", " ", "&lt;", "</x>"])
            out.append(("c", s))
        elif k == "m":
            out.append(("m", r.choice([" c ", "x", "<a>", "", "é"])))
        else:
            out.append(("p", r.choice(["pi d", "q", "pi <a>"])))
    return out


def tree(r, budget, scope, depth=0, maxdepth=6):
    scope = dict(scope)
    decls = []
    if r.random() < (0.5 if depth == 0 else 0.25):
        for p in r.sample(sorted(set(PREFIXES)), r.randint(1, 2)):
            u = r.choice(URLS)
            if p == "" and r.random() < 0.3:
                u = ""
            decls.append((p, u))
            scope[p] = u
    declared = [p for p in scope if p != "" and scope[p]]
    prefix = r.choice([""] + declared) if declared else ""
    attrs = []
    seen = set()
    for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
        p = r.choice(["", ""] + declared + (["xml"] if r.random() < 0.2 else []))
        l = r.choice(LOCALS) if p != "xml" else r.choice(["lang", "space"])
        if (p, l) in seen:
            continue
        seen.add((p, l))
        attrs.append((p, l, rtext(r) if r.random() < 0.8 else ""))
    kids = []
    kids += pieces(r)
    while budget[0] > 0 and depth < maxdepth and r.random() < 0.7:
        budget[0] -= 1
        kids.append(tree(r, budget, scope, depth + 1, maxdepth))
        kids += pieces(r)
    return El(prefix, r.choice(LOCALS), decls, attrs, kids, r.random() < 0.5, r.choice([0, 0, 1]))


def misc(r, first):
    out = []
    for _ in range(r.choice([0, 0, 1, 2])):
        out.append(r.choice([("m", " c "), ("p", "pi x"), ("w", "\n"), ("w", " ")]))
    return out


DECLS = [None, '<?xml version="1.0"?>', '<?xml version="1.0" encoding="UTF-8"?>', "<?xml version='1.0' encoding='utf-8' standalone='yes' ?>"]


def document(r, size=None):
    root = tree(r, [size if size is not None else r.choice([0, 1, 2, 3, 5, 8, 15])], {})
    decl = r.choice(DECLS)
    pre = misc(r, True)
    if decl is None and pre and pre[0][0] == "w":
        pre = [x for x in pre if x[0] != "w"]
    return docs.render(root, pre, misc(r, False), decl)


def script(r, n=60, mode=None):
    """Decisions; mostly benign so that runs get deep."""
    mode = mode or r.choice(["ok", "mixed", "mixed", "wild"])
    if mode == "ok":
        return ""
    p = 0.12 if mode == "mixed" else 0.5
    return "".join(r.choice("012345") if r.random() < p else "0" for _ in range(n))


def case(i, data, tokens, scr, src=None, fault="", stk=0):
    c = {"id": i, "k": "reader", "hex": data.hex(), "script": scr}
    if src:
        c["src"] = src
    if stk:
        c["stk"] = stk
    return c, {"id": i, "doc": tokens, "fault": fault}


def line(meta, ev, errs):
    return dict(meta, ev=errs.prep(ev), doc=[dict(t, opt=t.get("opt", False)) if t["k"] == "T" else t for t in meta["doc"]])


# ---------------------------------------------------------------------------------------------
# Small documents for exhaustive exploration.

def shapes(n):
    """Ordered trees with n nodes, as nested lists."""
    if n == 1:
        return [[]]
    def forests(m):
        if m == 0:
            return [[]]
        return [[t] + f for k in range(1, m + 1) for t in shapes(k) for f in forests(m - k)]
    return forests(n - 1)


def build(shape, variant, counter=None, depth=0):
    counter = counter if counter is not None else [0]
    n = counter[0]
    counter[0] += 1
    attrs, decls, prefix = [], [], ""
    rich = variant in ("rich", "refs")
    if rich and n % 2 == 1:
        attrs = [("", "k", "v%d" % n)]
    if rich and n == 0:
        decls = [("", "urn:d"), ("p", "urn:p")]
    if rich and n == 2:
        prefix, decls = "p", [("p", "urn:q")]
    kids = []
    def text(i):
        if variant == "rich":
            kids.append(("t", "t%d.%d" % (n, i)))
        elif variant == "refs":
            kids.extend([("t", "a%d" % n), ("m", "c"), ("c", "<&"), ("r", "\n"), ("p", "q z")])
        elif variant == "lead" and i == 0:
            kids.append(("t", "\n "))
    text(0)
    for i, s in enumerate(shape):
        kids.append(build(s, variant, counter, depth + 1))
        text(i + 1)
    return El(prefix, "abcdefgh"[n], decls, attrs, kids, variant == "bare")


def mc_docs(maxn):
    out = []   # (bytes, tokens)
    for n in range(1, maxn + 1):
        for s in shapes(n):
            vs = ["bare", "rich"] if n > 2 else ["bare", "rich", "refs", "lead"]
            for v in vs:
                data, tok, ends, safe = docs.render(build(s, v))
                out.append((data, tok))
                if n <= 3 and v in ("rich", "bare"):
                    # broken off after each token
                    for e in sorted(set(ends)):
                        if e < ends[-1]:
                            out.append(docs.cut(data, tok, ends, safe, e))
    return [(d, [dict(t, opt=t.get("opt", False)) if t["k"] == "T" else t for t in tk]) for d, tk in out]
