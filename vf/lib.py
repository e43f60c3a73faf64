"""Shared machinery: building the harness, running cases on the real code, model checking and trace
validation with TLC, reporting."""
import json
import os
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
WORK = os.path.join(VERIF, ".work")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    pass


def cargo_env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("RUST") or k.startswith("CARGO_"):
            if k not in ("CARGO_HOME", "RUSTUP_HOME"):
                e.pop(k)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(WORK, "target"),
             RUSTFLAGS="-Awarnings --cap-lints=allow", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
    e["PATH"] = os.path.expanduser("~/.cargo/bin") + ":" + e.get("PATH", "")
    return e


def build(package, gen_dir=None, timeout=600):
    """Builds a harness package. Returns (path of the binary or None, compiler output)."""
    os.makedirs(WORK, exist_ok=True)
    e = cargo_env()
    if gen_dir:
        e["GEN_DIR"] = gen_dir
    p = subprocess.run(["cargo", "build", "--offline", "-q", "-p", package], cwd=os.path.join(VERIF, "harness"),
                       env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    b = os.path.join(WORK, "target", "debug", package)
    return (b if p.returncode == 0 else None), p.stdout


CRASH = {97: "hang", 98: "endless", 95: "crash"}


def run_cases(binary, cases, wd, shards=NCPU, limit=600):
    """Runs the cases on the real code; returns {id: events}. A crash or hang of the process becomes the
    event it is, and the remaining cases still run."""
    os.makedirs(wd, exist_ok=True)
    shards = max(1, min(shards, len(cases)))
    parts = [cases[i::shards] for i in range(shards)]
    deadline = time.time() + limit

    def one(n):
        res = {}
        todo = parts[n]
        rounds = 0
        while todo:
            rounds += 1
            ci, co = (os.path.join(wd, "%s-%d" % (x, n)) for x in ("cases", "out"))
            with open(ci, "w") as f:
                for c in todo:
                    f.write(json.dumps(c) + "\n")
            if os.path.exists(co):
                os.remove(co)
            left = deadline - time.time()
            if left <= 0:
                raise ToolError("time limit running cases")
            try:
                p = subprocess.run([binary, ci, co], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   timeout=left, text=True, errors="replace")
            except subprocess.TimeoutExpired:
                raise ToolError("time limit running cases")
            started = last = None
            if os.path.exists(co):
                with open(co) as f:
                    for line in f:
                        if line.startswith("S "):
                            started = int(line[2:])
                        elif line.startswith("E ") and line.endswith("\n"):
                            d = json.loads(line[2:])
                            res[d["id"]] = d["ev"]
                            last = d["id"]
                            started = None
            if p.returncode == 0:
                break
            if started is None and p.returncode < 0:   # the heap was corrupted by an earlier case
                started = last
            if p.returncode == 96 or started is None:
                raise ToolError("harness failed (%d): %s" % (p.returncode, p.stderr[-2000:]))
            res[started] = [{"t": CRASH.get(p.returncode, "crash"), "m": "exit %d" % p.returncode}]
            idx = [i for i, c in enumerate(todo) if c["id"] == started][0]
            todo = todo[idx + 1:]
            if rounds > 25:
                for c in todo:
                    res.pop(c["id"], None)
                break
        return res

    out = {}
    with ThreadPoolExecutor(shards) as ex:
        for r in ex.map(one, range(shards)):
            out.update(r)
    return out


_esc_re = re.compile(r"[^\x20-\x7e]|[\\\"~]")


def esc(s):
    """Names for TLC: printable ASCII only, injective."""
    return _esc_re.sub(lambda m: "~%x~" % ord(m.group()), s)


def esc_all(x):
    if isinstance(x, str):
        return esc(x)
    if isinstance(x, list):
        return [esc_all(y) for y in x]
    if isinstance(x, dict):
        return {k: esc_all(v) for k, v in x.items()}
    return x


def tlc(module, cfg, wd, env=None, workers=1, timeout=800, heap="3g", args=()):
    """Runs TLC; returns (output, seconds)."""
    meta = os.path.join(wd, "meta-" + cfg.replace("/", "_"))
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", gc, "-Djava.io.tmpdir=" + meta, "-Xmx" + heap, "-Xss64m", "-cp", CP, "tlc2.TLC", "-config", cfg + ".cfg", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", *args, module + ".tla"]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out: %s" % cfg)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.stdout, time.time() - t


_states = re.compile(r"(\d+) states generated.*?(\d+) distinct states found")


def tlc_stats(out):
    m = None
    for m in _states.finditer(out):
        pass
    if not m:
        return 0, 0
    return int(m.group(1)), int(m.group(2))


def model_check(module, cfg, wd, workers=NCPU, timeout=800, heap="8g", args=(), env=None):
    """Exhaustive run; the specification itself must satisfy its properties."""
    out, secs = tlc(module, cfg, wd, workers=workers, timeout=timeout, heap=heap, args=args, env=env)
    gen, dist = tlc_stats(out)
    if "Model checking completed. No error has been found." not in out:
        raise ToolError("model checking %s failed:\n%s" % (cfg, out[-4000:]))
    return {"config": cfg, "transitions": gen, "states": dist, "secs": round(secs, 1), "out": out}


def validate(module, lines, wd, shards=NCPU, timeout=800, cfg=None, env=None, const=None):
    """Trace validation. `lines`: JSON objects with unique "id". Returns (rejected {id: event index},
    stats)."""
    if not lines:
        return {}, {"states": 0, "transitions": 0, "traces": 0}
    os.makedirs(wd, exist_ok=True)
    # Balance by size.
    lines = [esc_all(l) for l in lines]
    size = lambda l: len(json.dumps(l))
    order = sorted(((size(l), l["id"]) for l in lines), reverse=True)
    shards = max(1, min(shards, (len(lines) + 19) // 20))
    load = [0] * shards
    where = {}
    for sz, i in order:
        k = load.index(min(load))
        load[k] += sz + 200
        where[i] = k
    parts = [[] for _ in range(shards)]
    for l in lines:
        parts[where[l["id"]]].append(l)

    def one(n):
        # An observation of a kind which the specification cannot even evaluate is set aside as "odd".
        odd, left = {}, parts[n]
        while True:
            tf = os.path.join(wd, "trace-%d.ndjson" % n)
            with open(tf, "w") as f:
                for l in left:
                    f.write(json.dumps(l) + "\n")
            sub = os.path.join(wd, "t%d" % n)
            os.makedirs(sub, exist_ok=True)
            e = {"TRACE": tf}
            e.update(env or {})
            out, secs = tlc(module, cfg or module, sub, env=e, timeout=timeout)
            gen, dist = tlc_stats(out)
            if "Model checking completed. No error has been found." in out:
                break
            at = re.findall(r"^/\\ ci = (\d+)$", out, re.M)
            if not at or int(at[-1]) > len(left):
                raise ToolError("trace validation %s failed to run:\n%s" % (module, out[-5000:]))
            if len(odd) == 3:
                left, out = [], ""   # enough
                break
            odd[left[int(at[-1]) - 1]["id"]] = (1, "odd")
            left = left[:int(at[-1]) - 1] + left[int(at[-1]):]
            if not left:
                out = ""
                break
        rej, found = dict(odd), re.findall(r'<<\s*"REJECT",\s*(-?\d+),\s*(\d+),\s*"(\w+)"\s*>>', out)
        for i, at, cls in found:   # (printed twice where two steps lead to the verdict)
            rej[int(i)] = (int(at), cls)
        if len(re.findall('"REJECT"', out)) != len(found):
            raise ToolError("unreadable verdicts:\n" + out[-3000:])
        acc = len(left)
        return rej, gen, dist, acc, secs

    rej, st, tr, n = {}, 0, 0, 0
    with ThreadPoolExecutor(shards) as ex:
        for r, gen, dist, acc, secs in ex.map(one, range(shards)):
            rej.update(r)
            st += dist
            tr += gen
            n += acc
    return rej, {"states": st, "transitions": tr, "traces": n}
