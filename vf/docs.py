"""XML documents as trees, rendered to bytes together with the token stream a namespace-aware
reading of them must give.  Independent of the code under test.

A node is El(prefix, local, decls, attrs, kids, style) where kids is a list of El and text pieces:
  ("t", str)      plain characters (escaped as needed)
  ("r", str)      each character written as a numeric reference (decimal/hex alternating)
  ("e", str)      characters from <>&'" written as named entities
  ("c", str)      CDATA section
  ("m", str)      comment          (invisible)
  ("p", str)      processing instruction (invisible)
"""
from dataclasses import dataclass, field

ENT = {"<": "lt", ">": "gt", "&": "amp", "'": "apos", '"': "quot"}


@dataclass
class El:
    prefix: str
    local: str
    decls: list = field(default_factory=list)   # [(prefix, url)]
    attrs: list = field(default_factory=list)   # [(prefix, local, value)]
    kids: list = field(default_factory=list)
    selfclose: bool = False
    order: int = 0      # 0: decls first, 1: attrs first

    @property
    def qname(self):
        return self.prefix + ":" + self.local if self.prefix else self.local


def cps(s):
    return [ord(c) for c in s]


class Render:
    """Renders one document; collects tokens, each with the byte offset at which it is complete."""

    def __init__(self):
        self.buf = []          # str pieces
        self.row = 1
        self.col = 1
        self.nbytes = 0
        self.tokens = []
        self.ends = []         # byte offset where the token is complete
        self.text = None       # (start_pos, [chars])
        self.cuts = []         # byte offsets at which cutting leaves a complete prefix (debug)
        self.rootend = None
        self.lastref = False   # the parser misreports the position of a tag right after a text with references

    def out(self, s):
        self.buf.append(s)
        self.nbytes += len(s.encode("utf-8"))
        for c in s:
            if c == "\n":
                self.row += 1
                self.col = 1
            else:
                self.col += 1

    def pos(self):
        return [self.row, self.col]

    def flush(self):
        if self.text is not None:
            (r, c), chars = self.text
            self.tokens.append({"k": "T", "s": chars, "r": r, "c": c, "r2": self.row, "c2": self.col})
            self.ends.append(self.nbytes)
            self.text = None

    def addtext(self, s):
        if self.text is None:
            self.text = (self.textpos, [])
        self.text[1].extend(cps(s))

    def piece(self, p):
        k, s = p
        self.textpos = self.pos()
        if k == "t":
            o = s.replace("&", "&amp;").replace("<", "&lt;").replace("]]>", "]]&gt;")
            self.out(o)
        elif k == "r":
            self.out("".join("&#%d;" % ord(c) if i % 2 == 0 else "&#x%X;" % ord(c) for i, c in enumerate(s)))
        elif k == "e":
            self.out("".join("&%s;" % ENT[c] for c in s))
        elif k == "c":
            self.out("<![CDATA[" + s + "]]>")
        elif k == "m":
            self.out("<!--" + s + "-->")
            return
        elif k == "p":
            self.out("<?" + s + "?>")
            return
        else:
            raise ValueError(k)
        if s:
            self.addtext(s)
        if k in "re" or (k == "t" and "&" in o):
            self.lastref = True

    def attrval(self, v):
        o = []
        for c in v:
            if c == "&":
                o.append("&amp;")
            elif c == "<":
                o.append("&lt;")
            elif c == '"':
                o.append("&quot;")
            elif c in "\t\n\r":
                o.append("&#%d;" % ord(c))
            else:
                o.append(c)
        return "".join(o)

    def el(self, e):
        self.flush()
        p = [0, 0] if self.lastref else self.pos()
        self.lastref = False
        self.out("<" + e.qname)
        d = [("xmlns:" + a if a else "xmlns", u) for a, u in e.decls]
        a = [(x + ":" + y if x else y, v) for x, y, v in e.attrs]
        for i, (n, v) in enumerate(d + a if e.order == 0 else a + d):
            self.out((" " if i % 3 != 2 else "\n  ") + n + '="' + self.attrval(v) + '"')
        tok = {"k": "S", "p": e.prefix, "l": e.local, "d": [list(x) for x in e.decls],
               "a": [[x, y, cps(v)] for x, y, v in e.attrs], "r": p[0], "c": p[1]}
        if e.selfclose and not e.kids:
            self.out("/>")
            self.tokens.append(tok)
            self.ends.append(self.nbytes)
            self.tokens.append({"k": "E", "r": 0, "c": 0})
            self.ends.append(self.nbytes)
            return
        self.out(">")
        self.tokens.append(tok)
        self.ends.append(self.nbytes)
        for k in e.kids:
            if isinstance(k, El):
                self.el(k)
            else:
                self.piece(k)
        self.flush()
        self.lastref = False
        self.out("</" + e.qname + ">")
        self.tokens.append({"k": "E", "r": 0, "c": 0})
        self.ends.append(self.nbytes)


def render(root, pre=(), post=(), decl=None):
    """pre/post: lists of ("m"|"p"|"w", s) around the root. decl: XML declaration text or None.
    Returns (bytes, tokens incl. final Z, ends, safe) where `safe` is the list of byte offsets >=
    the end of the root at which the document may be cut and is still complete."""
    r = Render()
    if decl is not None:
        r.out(decl)
    for k, s in pre:
        if k == "w":
            r.out(s)
        else:
            r.piece((k, s))
    r.el(root)
    safe = [r.nbytes]
    r.rootend = r.nbytes
    for k, s in post:
        if k == "w":
            for ch in s:
                r.out(ch)
                safe.append(r.nbytes)
        else:
            r.piece((k, s))
            safe.append(r.nbytes)
    r.tokens.append({"k": "Z"})
    r.ends.append(r.nbytes)
    return "".join(r.buf).encode("utf-8"), r.tokens, r.ends, safe


def posat(data, k):
    """Row and column of byte offset k."""
    t = data[:k].decode("utf-8", "ignore")
    return t.count("\n") + 1, len(t) - (t.rfind("\n") + 1) + 1


def cut(data, tokens, ends, safe, k, fault=False):
    """The tokens of the document truncated after k bytes, by the end of the data or by a failure of its
    source."""
    if k in safe and not fault:
        return data[:k], tokens
    out = []
    last = 0
    for t, e in zip(tokens, ends):
        if t["k"] == "Z":
            break
        if t["k"] == "T":
            # A text is only complete when the following tag has started.
            if e < k:
                out.append(t)
                continue
            out.append(dict(t, opt=True))
            break
        if e <= k:
            out.append(t)
            last = e
        else:
            break
    # A character cut in half is reported without a position.
    r, c = (0, 0) if fault or (k < len(data) and data[k] & 0xC0 == 0x80) else posat(data, last)
    out.append({"k": "X", "r": r, "c": c})
    # A complete text followed by the failure may or may not be delivered.
    if len(out) >= 2 and out[-2]["k"] == "T":
        out[-2] = dict(out[-2], opt=True)
    return data[:k], out


# Constructs no parser accepts, as content of an element. (All of these xml-rs recognizes.)
POISON = ["&undefined;", "&#0;", "&#xD800;", "&;", "& ", '<b x="1" x="2"/>', "<u:b/>", '<b u:x="1"/>', "<1/>",
          '<b x="<"/>', "<!-- -- -->", "<b x/>", "<!DOCTYPE a>", "</unrelated>", "<b:/>", "<:b/>", '<b xmlns:p=""/>',
          '<?xml version="1.0"?>', '<b x="&bad;"/>', '<b xmlns:xml="urn:q"/>', "< b/>", "<b x='1' 2='3'/>"]
POISON_PRE = ["x", "<![CDATA[x]]>", "</a>", '<?xml version="2.0"?>', "<!-- -- -->", "<?xml?>"]
POISON_POST = ["x", "<a/>", "</a>", "<!--", "<?pi", "<![CDATA[x]]>", "<a>", "<!DOCTYPE a>", "<!-- -- -->", '<?xml version="1.0"?>', "<"]


def poison(data, tokens, ends, i, bad):
    """Inserts `bad` right after token i (a tag, not the last one)."""
    k = ends[i]
    out = list(tokens[:i + 1])
    r, c = posat(data, k)
    if i + 1 < len(tokens) and tokens[i + 1]["k"] == "T":
        pass
    out.append({"k": "X", "r": r, "c": c})
    return data[:k] + bad.encode() + data[k:], out
