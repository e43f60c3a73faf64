"""Builds the generated types with the real derive macros."""
import os
import re
import subprocess
import json

import gen_types
import lib

ERR = re.compile(r"types\.rs:(\d+):\d+")


def only_text(u):
    return {i for i in range(1, len(u.spec) + 1) if not u.istext(i)}


def universe(ctx, part="all", seed=None, **kw):
    """Returns (binary, universe, {dropped type: compiler message}).  Types whose derived code does not
    compile are left out, with those that use them."""
    key = (part, seed)
    if key in ctx.bins:
        return ctx.bins[key]
    u = gen_types.build(ctx.seed if seed is None else seed, **kw)
    out_of_scope = only_text(u) if part == "text" else set()
    failed, dropped = {}, set()
    # One directory for all checks, and contents that only change when they differ, so that cargo can keep
    # what it has.
    d = os.path.join(lib.WORK, "gen-%s" % ctx.prop)
    os.makedirs(d, exist_ok=True)
    for _ in range(12):
        src, ranges = u.emit(out_of_scope | dropped)
        with open(os.path.join(d, "types.rs"), "w") as f:
            f.write(src)
        b, out = lib.build("vfderived", gen_dir=d)
        if b:
            break
        bad = {}
        for chunk in re.split(r"\n(?=error)", out):
            if not chunk.startswith("error"):
                continue
            for m in ERR.finditer(chunk):
                n = int(m.group(1))
                t = [i for a, z, i in ranges if a <= n <= z]
                if t:
                    bad.setdefault(t[0], chunk[:600])
                    break
        if not bad:
            raise lib.ToolError("the derived harness does not build:\n" + out[-3000:])
        # Only the innermost: those that use a failing type may fail for its sake.
        inner = {i for i in bad if not (u.uses_all(i) - {i}) & set(bad)}
        for i in inner or bad:
            failed[i] = (bad[i], u.code[i - 1])
        dropped = u.closure(set(failed))
    else:
        raise lib.ToolError("the derived harness does not build")
    tf = os.path.join(ctx.wd, "types.ndjson")
    with open(tf, "w") as f:
        f.write(json.dumps(lib.esc_all({"types": [clean(s) for s in u.spec]})) + "\n")
    ctx.types_file = tf
    ctx.bins[key] = b, u, failed, out_of_scope | dropped
    ctx.note(types=len(u.spec) - len(out_of_scope | dropped))
    if failed:
        ctx.note(types_not_compiling=sorted(failed))
    return ctx.bins[key]


def clean(s):
    return {k: v for k, v in s.items() if k != "name"}
