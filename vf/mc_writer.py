"""All small serializations, by TLC (spec/MCWriter.tla), for replay on the real code."""
import json
import os
import re

import lib
from gen_types import cps


def pool(locals=("a",), reqs=(), attrs=(), texts=(), els=1, maxreqs=2, maxattrs=1, txs=0, sw=(0,), bad=0, faults=0):
    return {"locals": list(locals), "reqs": [list(q) for q in reqs], "attrs": [[a, b, cps(c)] for a, b, c in attrs], "texts": [cps(t) for t in texts],
            "els": els, "maxreqs": maxreqs, "maxattrs": maxattrs, "txs": txs, "sw": list(sw), "bad": bad, "faults": faults,
            "urls": sorted({u for _, u in reqs})}


def element(n, l, sw):
    return {"n": n, "l": l, "ns": [], "at": [], "kids": [], "sw": sw, "end": 0, "via": 0}


def program(p, s):
    """The content of a script, and the call that writes during which the sink fails (0: none)."""
    root = element(s[1], "r", s[0])
    stack, on, call, k, writes = [root], [False], 0, 2, 0
    while k < len(s):
        w, e = s[k], stack[-1] if stack else None
        k += 1
        if w == "elem":
            x = element(s[k], s[k + 1], s[k + 2])
            e["kids"].append(x)
            stack.append(x)
            on.append(False)
            k += 3
        elif w == "ns":
            e["ns"].append([s[k], s[k + 1]])
            k += 2
        elif w == "attr":
            e["at"].append(list(p["attrs"][s[k] - 1]))
            k += 1
        elif w == "text":
            e["kids"].append({"t": p["texts"][s[k] - 1]})
            k += 1
            writes += 1
        elif w == "fault":
            call = s[k] + 1
            k += 1
        elif w == "start":
            on[-1] = True
            writes += 1
        else:
            if w == "leave":
                e["end"] = 2 if on[-1] else 1
            elif w == "error":
                e["end"] = 4 if on[-1] else 3
            elif w not in ("finish", "start-fails", "unwind"):
                raise lib.ToolError("unknown step %r" % w)
            stack.pop()
            on.pop()
    return root, call


def programs(ctx, p, name, heap="8g"):
    """All serializations from a pool: [(program, failing call)]."""
    f = os.path.join(ctx.wd, "pool-%s.ndjson" % name)
    with open(f, "w") as o:
        o.write(json.dumps(lib.esc_all(p)) + "\n")
    m = lib.model_check("MCWriter", "MCWriter", ctx.wd, env={"POOL": f}, heap=heap)
    m["config"] = "MCWriter %s: %d elements, %d texts, %d requests, %d attributes each; %d misdeeds, %d sink failures" % (
        name, p["els"] + 1, p["txs"], p["maxreqs"], p["maxattrs"], p["bad"], p["faults"])
    ctx.model(m)
    un = {lib.esc(x): x for q in [p["locals"], ["r"]] + p["reqs"] + [a[:2] for a in p["attrs"]] for x in q}
    out, seen = [], set()
    for s in re.findall(r'<<\s*"PROGRAM",\s*<<(.*?)>>\s*>>', m["out"], re.S):
        s = [un.get(x, x) if isinstance(x, str) else x for x in json.loads("[%s]" % s)]
        q = program(p, s)
        d = json.dumps(q)
        if d not in seen:
            seen.add(d)
            out.append(q)
    if not out:
        raise lib.ToolError("no programs")
    return out


def via(r, q):
    """Some elements are written by a Serialize implementation instead of call by call."""
    for k in q["kids"]:
        if "t" not in k:
            if k["end"] not in (1, 2) and r.random() < 0.4:
                k["via"] = 1
            via(r, k)


def replay(ctx, b, r, qs, n, opts):
    if len(qs) > n:
        qs = r.sample(qs, n)
    for q, call in qs:
        q = json.loads(json.dumps(q))
        via(r, q)
        if call:
            b.add(q, r.choice(opts), {"call": call, "kind": r.randrange(-1, 5), "plan": r.choice([[], [], [1], [2, -1, 3]])})
        else:
            b.add(q, r.choice(opts), r.choice([None, {}]))
