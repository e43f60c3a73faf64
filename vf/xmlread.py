"""An independent XML reader: expat without namespace processing, giving the tokens that
spec/Names.tla and spec/Schema.tla resolve.  None where the input is not well-formed."""
import xml.parsers.expat as expat


def split(q):
    p, _, l = q.rpartition(":")
    return p, l


def read(data):
    """Tokens S [p, l, d: declarations, a: attributes], T, E; with `pre` telling what came before."""
    toks = []
    p = expat.ParserCreate(encoding=None)
    p.ordered_attributes = True
    p.buffer_text = True
    p.specified_attributes = True
    bad = []

    def start(n, at):
        d, a = [], []
        for k in range(0, len(at), 2):
            q, v = at[k], at[k + 1]
            if q == "xmlns":
                d.append(["", v])
            elif q.startswith("xmlns:"):
                d.append([q[6:], v])
            else:
                x, l = split(q)
                a.append([x, l, [ord(c) for c in v]])
        for q in [n] + [at[k] for k in range(0, len(at), 2)]:
            if q.count(":") > 1 or q.startswith(":") or q.endswith(":"):
                bad.append(q)
        x, l = split(n)
        toks.append({"k": "S", "p": x, "l": l, "d": d, "a": a})

    def text(s):
        if toks and toks[-1]["k"] == "T":
            toks[-1]["s"] += [ord(c) for c in s]
        else:
            toks.append({"k": "T", "s": [ord(c) for c in s]})

    p.StartElementHandler = start
    p.EndElementHandler = lambda n: toks.append({"k": "E"})
    p.CharacterDataHandler = text
    p.StartDoctypeDeclHandler = lambda *a: bad.append("doctype")
    p.CommentHandler = lambda s: bad.append("comment")
    p.ProcessingInstructionHandler = lambda t, s: bad.append("pi")
    try:
        data.decode("utf-8")
        p.Parse(data, True)
    except (expat.ExpatError, UnicodeDecodeError):
        return None
    return None if bad else toks
