"""Reads a displayed reader error back into its parts."""
import re

_line = re.compile(r"^\s*([0-9a-fA-F]+): <(.*)> @ (\d+):(\d+)$")
_head = re.compile(r"^(.*) @ (\d+):(\d+)\s*$", re.S)


def parse(e):
    disp = e["disp"]
    parts = disp.split("\n\nXML element stack:\n")
    o = {"ok": False, "stack": e["stack"], "msg": "", "hr": 0, "hc": 0, "lines": [], "src": e["src"]}
    if len(parts) > 2:
        return o
    m = _head.match(parts[0])
    if not m:
        return o
    o["msg"], o["hr"], o["hc"] = m.group(1), int(m.group(2)), int(m.group(3))
    if len(parts) == 2:
        for l in [x for x in parts[1].split("\n") if x]:
            m = _line.match(l)
            if not m:
                return o
            o["lines"].append({"i": m.group(1), "q": m.group(2), "r": int(m.group(3)), "c": int(m.group(4))})
        o["lines"].reverse()
    o["ok"] = True
    return o


def prep(ev):
    out = []
    for x in ev:
        if "e" in x:
            x = dict(x)
            x["o"] = parse(x.pop("e"))
        out.append(x)
    return out
