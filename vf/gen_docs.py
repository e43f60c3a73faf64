"""Seeded random documents for derived types: a tree by expanded names that follows a type more or less,
then spelled with prefixes, sections and references in some way."""
import gen_types as gt
from docs import El
from gen_types import URLX, X, Y, Z, W, cps


class N:
    """An element by expanded name. kids: N or text (str). ty: the type reading it, or None."""
    __slots__ = ("n", "l", "attrs", "kids", "ty")

    def __init__(self, n, l, attrs=(), kids=(), ty=None):
        self.n, self.l, self.attrs, self.kids, self.ty = n, l, list(attrs), list(kids), ty

    def copy(self):
        return N(self.n, self.l, list(self.attrs), [k.copy() if isinstance(k, N) else k for k in self.kids], self.ty)


def nodes(n):
    out = [n]
    for k in n.kids:
        if isinstance(k, N):
            out += nodes(k)
    return out


XMLOK = lambda s: "".join(c for c in s if ord(c) >= 32 or c in "\t\n\r")


def text_for(u, r, i, bad=0.0):
    """A text which the text type i most likely accepts."""
    t = u[i]
    if r.random() < bad:
        return XMLOK(r.choice(["!", "x!", "", "zzz", "-", "12x", " ", "9" * 40, "\u00a0"])) if t["k"] != "float" else "0"
    v = u.value(r, i)
    s = text_of(u, i, v)
    if t["k"] in ("int", "bool") and r.random() < 0.3:
        s = r.choice([" ", "\n", "\t", ""]) + s + r.choice([" ", "\r", ""])
    return XMLOK(s.replace("!", "." if t["k"] == "probe" else "!"))


def text_of(u, i, v):
    t = u[i]
    if t["k"] == "bool":
        return "true" if v[1] else "false"
    if t["k"] == "restr":
        var = t["vars"][v[1] - 1]
        return "".join(map(chr, var["s"] if var["known"] else v[2][1]))
    if t["k"] == "union":
        return text_of(u, t["vars"][v[1] - 1], v[2])
    return "".join(map(chr, v[1]))


def fill(u, r, i, bad=0.0, depth=0, node=None):
    """Attributes and kids for an element read as type i."""
    t = u[i]
    if u.istext(i):
        s = text_for(u, r, i, bad)
        return [], [s] if s else []
    attrs, kids = [], []
    if t["k"] == "enum":
        vs = [v for v in t["vars"] if not v["skip"]]
        if not vs:
            return [], []
        v = r.choice(vs)
        n = {"one": 1, "opt": 1, "unit": r.choice([1, 1, 2]), "two": r.choice([1, 2])}.get(v["c"]) or r.choice([1, 1, 2, 3])
        if depth > 5:
            v = min(vs, key=lambda v: not (v["c"] == "unit" or u.istext(v["ty"])))
            n = 1
        for _ in range(n):
            kids.append(child(u, r, v["n"], v["l"], None if v["c"] == "unit" else v["ty"], bad, depth + 1))
    else:
        flatkids = []
        for f in t["fields"]:
            m, c = f["m"], f["c"]
            opt = c in ("opt", "two", "last", "first") or f["def"]
            if m == "flat":
                a, k = fill(u, r, f["ty"], bad, depth)
                attrs += a
                flatkids += k
            elif m == "attr":
                if r.random() < (0.6 if opt else 0.97):
                    attrs.append((f["n"], f["l"], text_for(u, r, f["ty"], bad) if c != "nil" or r.random() < 0.6 else ""))
            elif m == "text":
                s = text_for(u, r, f["ty"], bad)
                if s:
                    kids.append(s)
            else:
                n = r.choice([0, 1, 2, 3]) if c in ("vec", "last", "first") else r.choice([0, 1, 2]) if c == "two" else int(r.random() < (0.6 if opt else 0.97))
                if depth > 5 and (c == "vec" or opt):
                    n = 0
                for _ in range(n):
                    kids.append(child(u, r, f["n"], f["l"], f["ty"], bad, depth + 1))
        kids += flatkids
        if r.random() < 0.5:
            els = [k for k in kids if isinstance(k, N)]
            txt = "".join(k for k in kids if not isinstance(k, N))
            r.shuffle(els)
            kids = els
            while txt:   # the text goes anywhere between
                n = r.randint(1, len(txt))
                kids.insert(r.randint(0, len(kids)) if r.random() < 0.5 else len(kids), txt[:n])
                txt = txt[n:]
            # Order of text pieces is whatever it became.
        # Attributes are a set by expanded name.
        seen, out = set(), []
        for a in attrs:
            if a[:2] not in seen:
                seen.add(a[:2])
                out.append(a)
        attrs = out
        if r.random() < 0.3:
            r.shuffle(attrs)
    return attrs, kids


def child(u, r, n, l, ty, bad, depth):
    if ty is None:
        e = N(n, l, [], [], None)
        if r.random() < 0.3:   # a unit variant's content does not matter
            e.kids = [unknown(u, r)]
            e.attrs = [("", "a", "v")]
        return e
    a, k = fill(u, r, ty, bad, depth)
    return N(n, l, a, k, ty)


EURLS = [X, Y, Z, W, "", "urn:unknown", X + "/", X.upper()]    # the parser allows no element in the namespace of xml
LOCALS = gt.LOCALS + ["unknown", "B", "t", "zz", "name"]


def names_of(u, i, m, seen=()):
    t = u[i]
    if t["k"] == "struct":
        out = []
        for f in t["fields"]:
            if f["m"] == "flat":
                out += names_of(u, f["ty"], m)
            elif f["m"] == m:
                out.append((f["n"], f["l"], f["ty"]))
        return out
    if t["k"] == "enum" and m == "elem":
        return [(v["n"], v["l"], None if v["c"] == "unit" else v["ty"]) for v in t["vars"]]
    return []


def unknown(u, r, like=None):
    n = N(r.choice(EURLS), r.choice(LOCALS))
    if like is not None and r.random() < 0.6:   # known content in an unknown place
        n.kids = [like.copy()]
        n.attrs = list(like.attrs[:2])
    elif r.random() < 0.5:
        n.kids = [r.choice(["text", "!", "  ", "1"]), N(r.choice(EURLS), r.choice(LOCALS), [("", "a", "1")], ["x"])]
    return n


def mutate(u, r, root):
    """One change somewhere."""
    ns = nodes(root)
    n = r.choice(ns)
    els = [k for k, x in enumerate(n.kids) if isinstance(x, N)]
    m = r.randrange(16)
    at = r.randint(0, len(n.kids))
    if m == 0 and els:
        n.kids.insert(at, n.kids[r.choice(els)].copy())
    elif m == 1 and els:
        del n.kids[r.choice(els)]
    elif m == 2:
        n.kids.insert(at, unknown(u, r, n.kids[r.choice(els)] if els else None))
    elif m == 3 and els:
        k = n.kids[r.choice(els)]
        k.n = r.choice(EURLS)
    elif m == 4 and els:
        k = n.kids[r.choice(els)]
        k.l = r.choice([k.l.upper(), k.l.lower(), k.l + "a", k.l[:-1] or "a", r.choice(LOCALS)])
    elif m == 5 and n.kids:
        n.kids.insert(at, r.choice(["!", "x", " ", "\n", "1", "é"]))
    elif m == 6 and n.attrs:
        del n.attrs[r.randrange(len(n.attrs))]
    elif m == 7 and n.attrs:
        a, b, c = n.attrs[r.randrange(len(n.attrs))]
        if a not in ("", URLX) and n.ty and (a, b) in [x[:2] for x in names_of(u, n.ty, "attr")]:
            n.attrs.insert(r.randint(0, len(n.attrs)), (a, b, c if r.random() < 0.5 else "!"))   # under another prefix
    elif m == 8 and n.attrs:
        k = r.randrange(len(n.attrs))
        a, b, c = n.attrs[k]
        n2 = (r.choice([X, Y, Z, "", ""]), b if r.random() < 0.5 else r.choice(LOCALS), c)
        if n2[:2] not in [x[:2] for x in n.attrs]:
            n.attrs[k] = n2
    elif m == 9 and n.attrs:
        k = r.randrange(len(n.attrs))
        a = n.attrs[k]
        if a not in [x for x in n.attrs if x is not a]:
            n.attrs[k] = (a[0], a[1], r.choice(["!", "", "x", "9" * 30, " "])) if not maybe_float(u, n, a) else a
    elif m == 10 and n.attrs:   # to a child or a relative
        a = n.attrs.pop(r.randrange(len(n.attrs)))
        o = r.choice(ns)
        if a[:2] not in [x[:2] for x in o.attrs] and not maybe_float(u, o, a):
            o.attrs.append(a)
    elif m == 11 and n.ty:      # something more that the type knows
        c = names_of(u, n.ty, "elem")
        if c:
            a, b, ty = r.choice(c)
            n.kids.insert(at, child(u, r, a, b, ty, 0, 4))
    elif m == 12 and n.ty:
        c = names_of(u, n.ty, "attr")
        if c:
            a, b, ty = r.choice(c)
            if (a, b) not in [x[:2] for x in n.attrs]:
                n.attrs.append((a, b, text_for(u, r, ty)))
    elif m == 13 and els:       # wrapped
        k = r.choice(els)
        n.kids[k] = N(r.choice(EURLS), r.choice(LOCALS), [], [n.kids[k]])
    elif m == 14:               # an attribute where nobody asks for one
        a = (r.choice([X, Y, "urn:unknown", ""]), r.choice(LOCALS), "v")
        if a[:2] not in [x[:2] for x in n.attrs] and not maybe_float(u, n, a):
            n.attrs.append(a)
    elif m == 15 and len(els) > 1:
        j, k = r.sample(els, 2)
        n.kids[j], n.kids[k] = n.kids[k], n.kids[j]


def maybe_float(u, n, a):
    """Only canonical texts are given to floating point types."""
    if not n.ty:
        return False
    return any(x[:2] == tuple(a[:2]) and x[2] and uses_float(u, x[2]) for x in names_of(u, n.ty, "attr"))


def uses_float(u, i):
    return u[i]["k"] == "float" or (u.istext(i) and any(u[x]["k"] == "float" for x in u.uses_all(i)))


def floats_ok(u, n, i):
    """No text of a floating point element was disturbed: such documents are not used otherwise."""
    canon = set(gt.FLOATS32) | set(gt.FLOATS64) | {"0"}
    t = u[i] if i else None
    if i is None:
        return True
    if u.istext(i):
        if uses_float(u, i):
            return "".join(k for k in n.kids if not isinstance(k, N)).strip(" \t\n\r") in canon and not any(isinstance(k, N) for k in n.kids)
        return True
    for a in n.attrs:
        for x in names_of(u, i, "attr"):
            if x[:2] == tuple(a[:2]) and x[2] and uses_float(u, x[2]) and a[2].strip(" \t\n\r") not in canon:
                return False
    for f in text_fields(u, i):
        if uses_float(u, f):
            return False
    for k in n.kids:
        if isinstance(k, N):
            for x in names_of(u, i, "elem"):
                if x[:2] == (k.n, k.l) and x[2] and not floats_ok(u, k, x[2]):
                    return False
    return True


def text_fields(u, i):
    t = u[i]
    if t["k"] != "struct":
        return []
    out = []
    for f in t["fields"]:
        if f["m"] == "text":
            out.append(f["ty"])
        elif f["m"] == "flat":
            out += text_fields(u, f["ty"])
    return out


# ---------------------------------------------------------------------------------------------
# Spelling.

PFX = ["a", "b", "p", "q", "x", "y", "ns1", "x.y", "_", "z"] + ["c%d" % k for k in range(8)]


def pieces(r, s, style):
    """A text as sections, references and plain characters, with invisible parts between."""
    out = []

    def inv():
        while r.random() < style["inv"]:
            out.append(r.choice([("m", " c "), ("m", ""), ("p", "pi x"), ("m", "<a>1</a>"), ("c", "") if style["emptycdata"] else ("m", "x-y"), ("p", "q")]))
    inv()
    k = 0
    while k < len(s):
        n = r.randint(1, len(s) - k) if style["split"] > r.random() else len(s) - k
        part = s[k:k + n]
        k += n
        m = r.random()
        if "\r" in part or m < style["ref"]:
            out.append(("r", part))
        elif m < style["ref"] + style["cdata"]:
            out.append(("c", part.replace("]]>", "]] >")) if "]]>" not in part else ("r", part))
        elif all(c in "<>&'\"" for c in part):
            out.append(("e", part))
        else:
            out.append(("t", part))
        inv()
    return out


STYLES = [dict(inv=0, split=0, ref=0, cdata=0, emptycdata=False, space=0, ns="plain"),
          dict(inv=0.15, split=0.3, ref=0.15, cdata=0.15, emptycdata=False, space=0.3, ns="mixed"),
          dict(inv=0.3, split=0.9, ref=0.35, cdata=0.35, emptycdata=False, space=0.5, ns="wild"),
          dict(inv=0.05, split=0.1, ref=0.05, cdata=0.05, emptycdata=False, space=0.8, ns="wild")]


def spell(r, n, scope, style, textual, u=None):
    """N -> El under the mappings in scope. textual(n): whether space may be added among the kids."""
    scope = dict(scope)
    decls, pinned = [], set()

    def declare(p, url):
        decls.append((p, url))
        pinned.add(p)
        scope[p] = url

    if style["ns"] == "wild" and r.random() < 0.3:     # something nobody needs, or which hides something
        p = r.choice(PFX + [""])
        declare(p, r.choice([X, Y, Z, W, "urn:unused"]))
        pinned.discard(p) if False else None
    fresh = 0.0 if style["ns"] == "plain" else 0.25 if style["ns"] == "mixed" else 0.45

    def prefix(url, attr):
        if url == URLX:
            return "xml"
        if url == "":
            if attr:
                return ""
            if scope.get("", "") != "":
                if "" in pinned:
                    return None
                declare("", "")
            pinned.add("")
            return ""
        have = [p for p, x in scope.items() if x == url and not (attr and p == "")]
        if have and r.random() >= fresh:
            p = r.choice(sorted(have))
            pinned.add(p)
            return p
        free = [p for p in PFX if p not in pinned] + ([""] if not attr and "" not in pinned and style["ns"] != "plain" else []) * 3
        if style["ns"] == "plain":
            free = [p for p in free if p not in scope] or free
        free = free or [p for p in ("o%d" % k for k in range(99)) if p not in pinned]
        p = r.choice(free)
        declare(p, url)
        return p

    ep = prefix(n.n, False)
    if ep is None:    # a default namespace was declared for nothing here; take it back
        decls[:] = [d for d in decls if d[0] != ""]
        scope[""] = ""
        decls.append(("", ""))
        ep = ""
    attrs, used = [], set()
    for a in n.attrs:
        for _ in range(20):
            p = prefix(a[0], True)
            if (p, a[1]) not in used:
                break
            # The same expanded name twice: another prefix for it.
            free = [x for x in PFX if x not in pinned] or [p for p in ("o%d" % k for k in range(99)) if p not in pinned]
            declare(free[0], a[0])
            p = free[0]
            break
        if (p, a[1]) in used:
            continue
        used.add((p, a[1]))
        attrs.append((p, a[1], a[2]))
    kids = []
    sp = (lambda: kids.append(("t", r.choice([" ", "\n", "\n  ", "\t"])))) if style["space"] and not textual(n) else (lambda: None)
    for k in n.kids:
        if isinstance(k, N):
            if r.random() < style["space"]:
                sp()
            if r.random() < style["inv"]:
                kids.append(r.choice([("m", "c"), ("p", "pi")]))
            kids.append(spell(r, k, scope, style, textual, u))
        else:
            kids += pieces(r, k, style)
    if any(isinstance(k, N) for k in n.kids) and r.random() < style["space"]:
        sp()
    if not kids and r.random() < style["inv"]:
        kids.append(("m", "empty"))
    return El(ep, n.l, decls, attrs, kids, r.random() < 0.6, r.choice([0, 0, 1]) if style["ns"] != "plain" else 0)
