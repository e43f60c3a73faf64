"""Text types: the real normalization, parsing and printing against spec/Text.tla."""
import json
import os
import re

import derived
import docs
import gen_types as gt
import lib
import xmlread
from e_reader import core
from gen_types import cps

WHAT = {"odd": "an observation of a kind which the specification does not know",
        "norm": "wrong normalization", "parse": "text read wrongly", "print": "value written wrongly",
        "crash": "panic, crash or hang"}
SHOW = {"norm": "n", "parse": "r", "print": "p"}


def show(s):
    return "".join(map(chr, s)) if all(isinstance(c, int) for c in s) else str(s)


class TextBatch:
    """Cases [op, ty, via, m] x inputs; one line per case is validated."""

    def __init__(self, ctx, name, binary, u, keep=()):
        self.ctx, self.name, self.bin, self.u = ctx, name, binary, u
        self.cases, self.lines = [], []

    def add(self, op, ty, ins, via="text", m=0, size=400):
        """ty: type number; ins: texts or values."""
        for k in range(0, len(ins), size):
            part = ins[k:k + size]
            i = len(self.cases)
            c = {"id": i, "k": "norm" if op == "norm" else "text", "op": op, "m": m, "via": via,
                 "ty": ty, "ss" if op != "print" else "vs": part}
            self.cases.append(c)
            self.lines.append({"id": i, "op": op, "ty": ty, "m": m, "ins": part, "via": via})

    def run(self):
        ctx = self.ctx
        wd = os.path.join(ctx.wd, self.name)
        ev = lib.run_cases(self.bin, self.cases, wd)
        lines = []
        for l in self.lines:
            if l["id"] not in ev:
                continue
            lines.append(dict(l, ev=[self.prep(l, e) for e in ev[l["id"]]]))
        can = self.canaries(lines)
        rej, st = lib.validate("TraceText", lines + can, wd, env={"TYPES": ctx.types_file})
        # (Where the code is wrong, a corruption of what it did may be right.)
        if [c for c in can if c["id"] not in rej] and not [i for i in rej if i >= 0]:
            raise lib.ToolError("corrupted results were accepted")
        ctx.detail["corrupted_traces_rejected"] = ctx.detail.get("corrupted_traces_rejected", 0) + len(can)
        st["traces"] = sum(len(l["ins"]) for l in lines)
        ctx.validated(self.name, st)
        for l in lines[:2]:
            ctx.sample({"run": self.name, "op": l["op"], "via": l["via"], "given": show(l["ins"][0]), "got": l["ev"][0]})
        by = {l["id"]: l for l in lines}
        for i, (li, cls) in sorted(rej.items()):
            if i < 0:
                continue
            l = by[i]
            g = l["ins"][li - 1] if li <= len(l["ins"]) else None
            e = l["ev"][li - 1] if li <= len(l["ev"]) else "(no event)"
            t = self.u[l["ty"]] if l["ty"] else {}
            s = "%s [%s, via %s]: given %r got %s; type %s" % (WHAT[cls], self.name, l["via"], show(g) if g is not None else None,
                                                        json.dumps(e)[:200], json.dumps({k: v for k, v in t.items() if k != "dv"})[:200])
            ctx.violation(s, {"engine": "text", "case": dict(self.cases[i], **{"ss" if l["op"] != "print" else "vs": [g]}),
                              "event": e, "type": t, "code": self.u.code[l["ty"] - 1] if l["ty"] else None})

    def prep(self, l, e):
        """Texts inside written documents."""
        if e.get("t") == "p" and l["via"] != "text" and e["ok"]:
            toks = xmlread.read(e["s"].encode())
            s = None
            if toks is not None:
                if l["via"] == "elem":
                    s = [t for t in toks if t["k"] == "T"]
                    s = s[0]["s"] if len(s) == 1 else [] if not s else None
                else:
                    a = [t for t in toks if t["k"] == "S"][0]["a"]
                    s = a[0][2] if len(a) == 1 else None
            return dict(e, ok=s is not None, s=s if s is not None else [])
        return e

    def canaries(self, lines):
        out = []
        for op in ("norm", "parse", "print"):
            for l in lines:
                if l["op"] != op or l["ev"][:1] == [] or "t" not in l["ev"][0] or l["ev"][0]["t"] != SHOW[op]:
                    continue
                e = dict(l["ev"][0])
                if op == "parse":
                    e = {"t": "r", "ok": not e["ok"], "v": ["s", [120, 121]]}
                else:
                    e["s"] = e["s"] + [33]
                out.append(dict(l, id=-1 - len(out), ins=l["ins"][:1], ev=[e]))
                break
        return out


def prim_universe(ctx):
    """The primitive types alone, by name for the core harness."""
    u = gt.Universe()
    u.finish(None)
    tf = os.path.join(ctx.wd, "prims.ndjson")
    with open(tf, "w") as f:
        f.write(json.dumps({"types": [derived.clean(s) for s in u.spec]}) + "\n")
    ctx.types_file = tf
    return u


class PrimBatch(TextBatch):
    """The core harness knows primitives by name."""

    def run(self):
        for c in self.cases:
            if c["ty"]:
                c["ty"] = self.u[c["ty"]]["name"]
        super().run()


def behaviours(ctx, cfg, pieces):
    f = os.path.join(ctx.wd, "alphabet.ndjson")
    with open(f, "w") as o:
        o.write(json.dumps({"pieces": [cps(p) for p in pieces]}) + "\n")
    m = lib.model_check("MCText", cfg, ctx.wd, env={"ALPHABET": f})
    out = re.sub(r"\s+", "", m["out"])
    ctx.model(m)
    return out


LIST = r"<<([\d,]*)>>"


def ints(s):
    return [int(x) for x in s.split(",")] if s else []


# ---------------------------------------------------------------------------------------------
# C13

WS_PIECES = [" ", "\t", "\n", "\r", "a", "é", "\u00a0"]
WS_CHARS = list(" \t\n\r") * 4 + list("ab,") + ["\u00a0", "é", "\u2003", "\u0085", "\u000b", "\u000c", "\u3000", "\U0001f600",
                                             "\u0120", "\u200b", "\u1680", "\ufeff", "\u010a", "\u0109", "\u010d", "\u2028", "\u0020"]


def check_c13(ctx, r):
    u = prim_universe(ctx)
    out = behaviours(ctx, "MCTextWs%d" % ctx.n(5, 6), WS_PIECES)
    B = [(ints(a), ints(b), ints(c)) for a, b, c in re.findall(r'<<"B",%s,%s,%s>>' % (LIST, LIST, LIST), out)]
    if len(B) < 1000 or len(B) != out.count('<<"B"'):
        raise lib.ToolError("no behaviours")
    bin_ = core(ctx)
    cases = []
    for m in range(3):
        for k in range(0, len(B), 1000):
            cases.append({"id": len(cases), "k": "norm", "m": m, "ss": [b[0] for b in B[k:k + 1000]], "at": k})
    ev = lib.run_cases(bin_, [{k: v for k, v in c.items() if k != "at"} for c in cases], os.path.join(ctx.wd, "replay"))
    n = 0
    for c in cases:
        es = ev.get(c["id"], [])
        for j in range(len(c["ss"])):
            want = B[c["at"] + j][c["m"]]
            e = es[j] if j < len(es) else {"t": "(no event)"}
            n += 1
            if e.get("t") != "n" or not e["ok"] or e["s"] != want:
                ctx.violation("wrong normalization [replay], mode %s: given %r got %s, specified %r" %
                              (["preserve", "replace", "collapse"][c["m"]], show(c["ss"][j]), json.dumps(e)[:200], show(want)),
                              {"engine": "text", "case": dict(c, ss=[c["ss"][j]]), "event": e})
                if e.get("t") != "n":
                    break
    ctx.traces += n
    ctx.note(replayed=n)
    ctx.exhaustive = "all strings of up to %d characters over %r, in all three modes" % (ctx.n(5, 6), "".join(WS_PIECES))
    b = PrimBatch(ctx, "normalize", bin_, u)
    ss = []
    for _ in range(ctx.n(1500, 20000)):
        ss.append([ord(c) for _ in range(r.choice([1, 2, 5, 9, 30, 80])) for c in r.choice(WS_CHARS)])
    for n in (255, 256, 257, 1000, 5000):
        ss.append(cps(" " * n))
        ss.append(cps("a" + " \t" * n + "b"))
        ss.append(cps("é \n" * n))
        ss.append(cps("\u00a0" * n + " "))
    for m in range(3):
        b.add("norm", 0, ss, m=m, size=150)
    b.run()
    # Types which declare a mode.
    bin_, u, failed, dropped = derived.universe(ctx, "text")
    b = TextBatch(ctx, "declared", bin_, u)
    small = [[]] + [cps(a + b_ + c) for a in ["", " ", "\t", "\n", "\r", "  "] for b_ in ["a", "a b", "a  b", "a\tb", "b", "C", "12", "é", "a\r\nb", "small", "\u00a0a"]
                    for c in ["", " ", "\n", "\t ", "\u00a0"]]
    for i in range(1, len(u.spec) + 1):
        if u[i].get("ws") is None or i in dropped:
            continue
        ins = small + [s for s in r.sample(ss, 12) if len(s) < 100] + samples(r, u, i, ctx.n(10, 60))
        b.add("parse", i, ins)
        xml = [s for s in ins if all(c >= 32 or c in (9, 10, 13) for c in s)]
        b.add("parse", i, xml, via=r.choice(["elem", "attr", "oattr"]))
    b.run()


# ---------------------------------------------------------------------------------------------
# C14

def near(r, s):
    """Texts close to s."""
    s = "".join(map(chr, s)) if not isinstance(s, str) else s
    out = [s, s + " ", " " + s, s.upper(), s.lower(), s.title(), s + "x", s[1:], s[:-1], s.replace(" ", "  "), s.replace(" ", "\t"),
           "\n" + s + "\n", s + s, s.replace("a", "á"), s + "\u00a0", "\r\n" + s, s.swapcase(), s[::-1], s.strip(),
           s[:-1] + "q", s[:len(s) // 2] + "q" + s[len(s) // 2 + 1:], s[:16], "q" + s[1:], s + " " * 70]
    return [cps(x) for x in out]


def pool(u, i, r, depth=0):
    """Texts that a type may know."""
    t = u[i]
    if t["k"] == "restr":
        return [v["s"] for v in t["vars"] if v["known"]] or [cps("zz")]
    if t["k"] == "union":
        return [x for v in t["vars"] for x in r.sample(pool(u, v, r, depth + 1), min(4, len(pool(u, v, r, depth + 1))))]
    if t["k"] == "int":
        lo, hi = (-(1 << (t["w"] - 1)), (1 << (t["w"] - 1)) - 1) if t["sg"] else (0, (1 << t["w"]) - 1)
        return [cps(str(x)) for x in (lo, hi, lo - 1, hi + 1, 0, 1, 7)] + [cps("+5"), cps("007"), cps("-0"), cps("-")]
    if t["k"] == "bool":
        return [cps(x) for x in ("true", "false", "1", "0", "2", "True")]
    if t["k"] == "std" and t["by"] == "i32":
        return [cps(x) for x in ("5", "-2147483648", "2147483648", "+1", " 1", "1 ", "", "x")]
    if t["k"] == "std":
        return [cps(x) for x in ("y", "x", "", " a  b ", "wx", "[q]")]
    return [cps(x) for x in ("", "q", " a  b\t")]


def samples(r, u, i, n):
    out = []
    for s in pool(u, i, r):
        out += near(r, s)
    r.shuffle(out)
    out = out[:n]
    for _ in range(n // 2):
        out.append(cps(gt.rstring(r)))
    # Floats are only ever given canonical forms.
    return [s for s in out if not uses_float(u, i)]


def uses_float(u, i):
    return u[i]["k"] == "float" or any(u[x]["k"] == "float" for x in u.uses_all(i))


def check_c14(ctx, r):
    bin_, u, failed, dropped = derived.universe(ctx, "text", n_text=ctx.n(30, 120), n_elem=0)
    b = TextBatch(ctx, "text-enums", bin_, u)
    for i in range(1, len(u.spec) + 1):
        if i in dropped or u[i]["k"] not in ("restr", "union", "std") or uses_float(u, i):
            continue
        ins = []
        for s in pool(u, i, r):
            ins += near(r, s)
        if u[i]["k"] == "union":   # strings of every type here
            ins += [s for j in r.sample(sorted(set(range(1, len(u.spec) + 1)) - dropped), 8) if u[j]["k"] in ("restr", "int", "std") for s in pool(u, j, r)]
        ins += samples(r, u, i, ctx.n(15, 100))
        r.shuffle(ins)
        ins = ins[:ctx.n(160, 1000)]
        if "restr" == u[i]["k"] and len(u[i]["vars"]) > 9:
            ins = pool(u, i, r) + ins
        if u[i]["k"] == "union" and len(u[i]["vars"]) > 9:
            ins = [s for v in u[i]["vars"] for s in r.sample(pool(u, v, r), min(len(pool(u, v, r)), 9))] + ins
        for c in ("a", " ", " 1", "true\n"):
            ins.append(cps(c * r.choice([300, 1100] + ctx.n([], [9000]))))
        b.add("parse", i, ins)
        via = [s for s in ins if all(c >= 32 or c in (9, 10, 13) for c in s)]
        b.add("parse", i, via[:60], via="elem")
        b.add("parse", i, via[-40:], via=r.choice(["attr", "oattr"]))
        vs = []
        t = u[i]
        if t["k"] == "restr":
            vs = [["e", j + 1, ["u"]] for j, v in enumerate(t["vars"]) if v["known"]]
        for _ in range(ctx.n(20, 120)):
            vs.append(u.value(r, i))
        b.add("print", i, vs)
        ok = [v for v in vs if printable(u, i, v)]
        b.add("print", i, ok[:25], via="elem")
        b.add("print", i, ok[-15:], via="attr")
    b.run()


def flat(v):
    for x in v:
        if isinstance(x, list):
            yield from flat(x)
        elif isinstance(x, int):
            yield x


def printable(u, i, v):
    return all(c >= 32 or c in (9, 10, 13) for c in flat(v[1:]) if c > 2)


# ---------------------------------------------------------------------------------------------
# C15

NUM_PIECES = ["0", "1", "27", "28", "-", "+", " ", "\t", "9", "x", "true"]
BOOLS = ["true", "false", "1", "0"]
ODD = ["", " ", "-", "+", "--1", "+-1", "-+1", "1 2", "1-", "1+", "- 1", "+ 1", "0x1", "1.0", "1e3", "1_000", "1,000", "١", "１", "²", "½",
       "\u00a01", "1\u00a0", "\u20031", "1\u2003", "\u200b1", "\u30001", "1\u0085", "\u20281", "True", "TRUE", "tru", "truee", "t", "yes", "T", "ttrue", "00", "01", "10", "11", "-0", "-1", "+0", "+1",
       "false\u00a0", "\u00a0true", "fal se", "NaN", "inf", "infinity", "0b1", "0o7", "1u8", "1i32", "'1'", "−1", "\ufeff1"]
ODD_TEXT = ["\u000b1", "1\u000c", "\u000btrue", "true\u000c", "\u00001", "1\u0000", "\u001f1", "1\u001c"]


def check_c15(ctx, r):
    u = prim_universe(ctx)
    bin_ = core(ctx)
    # Every text over a small alphabet, on the narrow types.
    pieces = NUM_PIECES
    out = behaviours(ctx, "MCTextNum%d" % ctx.n(4, 5), pieces)
    B = re.findall(r'<<"B",%s,(\d),%s,%s,%s,%s>>' % (LIST, LIST, LIST, LIST, LIST), out)
    if len(B) < 1000 or len(B) != out.count('<<"B"'):
        raise lib.ToolError("no behaviours")
    B = [(ints(x[0]), int(x[1]), [ints(y) for y in x[2:]]) for x in B]
    names = ["bool", "i8", "u8", "i16", "u16"]
    cases = []
    for ti, ty in enumerate(names):
        for k in range(0, len(B), 1000):
            via = ["text", "elem", "attr", "oattr"][(k // 1000 + ti) % 4]
            cases.append({"id": len(cases), "k": "text", "op": "parse", "ty": ty, "via": via, "ss": [b[0] for b in B[k:k + 1000]], "at": k, "ti": ti})
    ev = lib.run_cases(bin_, [{k: v for k, v in c.items() if k not in ("at", "ti")} for c in cases], os.path.join(ctx.wd, "replay"))
    n = 0
    for c in cases:
        es = ev.get(c["id"], [])
        for j in range(len(c["ss"])):
            s, bo, nums = B[c["at"] + j]
            want = (["b", bo] if bo < 2 else None) if c["ti"] == 0 else (["i", nums[c["ti"] - 1]] if nums[c["ti"] - 1] else None)
            e = es[j] if j < len(es) else {"t": "(no event)"}
            n += 1
            if e.get("t") != "r" or e["ok"] != (want is not None) or (want is not None and e["v"] != want):
                ctx.violation("%s read wrongly [replay, via %s]: given %r got %s, specified %s" % (c["ty"], c["via"], show(s), json.dumps(e)[:200], want),
                              {"engine": "text", "case": dict(c, ss=[s]), "event": e})
                if e.get("t") != "r":
                    break
    ctx.traces += n
    ctx.note(replayed=n)
    ctx.exhaustive = "all texts of up to %d pieces from %r for bool, i8, u8, i16, u16" % (ctx.n(4, 5), pieces)
    # All types at their limits and with everything odd.
    b = PrimBatch(ctx, "limits", bin_, u)
    for name in ["bool"] + [s + str(w) for s in "iu" for w in (8, 16, 32, 64, 128)]:
        i = u.prim[name]
        ins, vs = [], []
        if name == "bool":
            base = BOOLS
            vs = [["b", 0], ["b", 1]]
        else:
            w = int(name[1:])
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if name[0] == "i" else (0, (1 << w) - 1)
            ns = {lo, lo - 1, lo + 1, hi, hi + 1, hi - 1, hi * 10, lo * 10, 0, 1, -1, 9, 10, 127, 128, 255, 256, -128, -129, 1 << w, (1 << w) + 1, -(1 << w), (1 << w) - 1, 1 << (w - 1), -(1 << (w - 1))}
            ns |= {hi - hi % 10 + k for k in range(12)} | {lo - k for k in range(12)}
            for _ in range(ctx.n(25, 200)):
                ns.add(r.randint(lo, hi))
                ns.add(r.randint(-(1 << r.randint(1, 130)), 1 << r.randint(1, 130)))
            base = [str(x) for x in sorted(ns)]
            vs = [["i", cps(str(x))] for x in sorted(ns) if lo <= x <= hi]
        for s in base:
            ins.append(s)
            k = r.randrange(8)
            for f in ([k] if name != "bool" and not ctx.thorough else range(8)):
                ins.append([" " + s, s + "\n", "\t" + s + " \r\n", "+" + s if s[0] != "-" else "-0" + s[1:],
                            ("-" if s[0] == "-" else "") + "0" * r.choice([1, 3, 40, 300]) + s.lstrip("-"), "\u00a0" + s, s + "\u2003", s + r.choice("x.,_ 1")][f])
        ins += ODD + [" " * n + base[1] + "\n" * n for n in [64, 255, 1100] + ctx.n([], [9000])] + ["0" * n + "1" for n in [255, 1100] + ctx.n([], [9000])] + ["1" * n for n in (39, 40, 300, 1100)] + [base[1] + " " * 300 + "1"]
        ins += [a + s + z for s in base[:4] for a in ("", " ") for z in ("\u00a0", "\u2028", "\u3000", "\u1680")]
        ins = [cps(s) for s in ins]
        for via in ("text", "elem", "attr", "oattr"):
            b.add("parse", i, ins, via=via)
        b.add("parse", i, [cps(s) for s in ODD_TEXT])
        for via in ("text", "elem", "attr"):
            b.add("print", i, vs, via=via)
    b.run()


CHECKS = {"C13": [check_c13], "C14": [check_c14], "C15": [check_c15]}
