"""Mutation testing of the checks, in private copies of /repo and /verif.

mutate.py list                     prints all mutants
mutate.py run OUT N [file-substr]  runs N workers over all mutants (results appended to OUT, one JSON each;
                                   mutants which OUT already lists are not repeated)
PHASE=1 stops after the existing tests; FROM=OUT1 then only takes the survivors of such a run.
ALL=1 tries all checks on a mutant, not only those that look at its file.
mutate.py work OUT                 one worker (inside its own mount namespace)
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

FILES = ["static-xml/src/de/mod.rs", "static-xml/src/ser/mod.rs", "static-xml/src/lib.rs"] + \
        ["static-xml-derive/src/%s.rs" % x for x in ("deserialize", "serialize", "common", "parse", "to_text")]
ORDER = {"de/mod": "C01 C02 C04 C05 C16 C03 C17 C14 C15 C13 C07 C08 C06", "ser/mod": "C09 C11 C12 C19 C10 C18", "src/lib": "C06 C13 C02 C14 C12",
         "deserialize": "C04 C05 C08 C07 C16 C17 C02 C06", "serialize": "C18 C10 C07 C12", "common": "C20 C04 C18 C14 C06 C05 C07", "parse": "C14 C13 C15", "to_text": "C14 C10 C15"}
OPS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" && ", " || "), (r" \|\| ", " && "),
       (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<![\w)!])!(?=[a-z(#])(?!\()", ""),
       (r"\bif (?!let)(.+) \{$", r"if !(\1) {"), (r"\bif (?!let)(.+) \{$", r"if false && (\1) {"), (r"\bif (?!let)(.+) \{$", r"if true || (\1) {"),
       (r"^(\s*)(?!let |use |pub |break|\}|\)|#|return |type |const |static |mod |fn )([^{}]*[\w)?\]];)$", r"\1"), (r"^(\s*)return [^;{]*;$", r"\1"),
       (r"\bis_some\(\)", "is_none()"), (r"\bis_none\(\)", "is_some()"), (r"\bis_empty\(\)", "len() == 1"), (r"\bcontinue;", "break;"),
       (r"\.push\((.*)\);$", r".insert(0, \1);"), (r"\.iter\(\)", ".iter().rev()"), (r"\.iter\(\)", ".iter().skip(1)"), (r"\bsort\w*\([^;]*\);", ";"),
       (r"\bOk\(Some\(", "Ok(None::<_>.or(Some("), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\.clone\(\)\)\?;$", ".clone());"), (r"\?;$", ".ok();"), (r"=> \{$", "if false => {"),
       (r"\.rev\(\)", ""), (r"\.skip\((.*?)\)", ""), (r"\.chain\((.*)\)$", ""), (r"unwrap_or\((.*?)\)", r"unwrap()"), (r"\bmin\b", "max"), (r"\bmax\b", "min"),
       (r"^(\s*)(\w[\w.]*) = (.*);$", r"\1"), (r"trim_matches", "trim_start_matches"), (r"trim_end", "trim"), (r"'\\t'", "'\\\\u{b}'"), (r"' '", "'_'")]


def mutants():
    out = []
    for f in FILES:
        lines = open("/repo/" + f).read().split("\n")
        intest = False
        for k, l in enumerate(lines):
            if "#[cfg(test)]" in l[:14]:
                intest = True
            if l.startswith("}*/"):
                intest = False
            if intest or re.match(r"(text_from_display|text_for_num)!\(", l) or re.match(r"\s*//", l) or "debug_assert" in l or "log::" in l or "trace!" in l:
                continue
            seen = set()
            for pat, rep in OPS:
                for m in re.finditer(pat, l):
                    new = l[:m.start()] + m.expand(rep) + l[m.end():]
                    if new != l and new not in seen and "//" not in l[:m.start()]:
                        seen.add(new)
                        out.append({"f": f, "line": k + 1, "old": l, "new": new})
    for m in out:
        m["id"] = hashlib.sha1(json.dumps([m["f"], m["old"], m["new"], m["line"]]).encode()).hexdigest()[:10]
    return out


def done(out):
    return {json.loads(l)["id"] for l in open(out)} if os.path.exists(out) else set()


def claim(out, m):
    with open(out + ".claims", "a+") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        f.seek(0)
        if m["id"] in f.read().split():
            return False
        f.write(m["id"] + "\n")
    return True


def record(out, m, **kw):
    with open(out, "a") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        f.write(json.dumps(dict(m, **kw)) + "\n")


def sh(cmd, t, env=None):
    try:
        p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, env=dict(os.environ, **(env or {})))
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, ""


def work(out):
    import random

    ms = [m for m in mutants() if m["id"] not in done(out)]
    sub = os.environ.get("SUB", "")
    ms = [m for m in ms if sub in m["f"]]
    if os.environ.get("FROM"):   # only those which survived the tests in an earlier run
        ok = {(x["f"], x["old"], x["new"]) for x in map(json.loads, open(os.environ["FROM"])) if x["r"] == "survives"}
        ms = [m for m in ms if (m["f"], m["old"], m["new"]) in ok]
    if os.environ.get("N"):
        ms = random.Random(3).sample(ms, int(os.environ["N"]))
    random.Random(7).shuffle(ms)
    for m in ms:
        if not claim(out, m):
            continue
        p = "/repo/" + m["f"]
        orig = open(p).read()
        lines = orig.split("\n")
        lines[m["line"] - 1] = m["new"]
        try:
            open(p, "w").write("\n".join(lines))
            c, o = (0, "") if os.environ.get("FROM") else sh("timeout 120 bash /opt/vp/test.sh /tmp/mut/res.%d.json" % os.getpid(), 150)
            if c != 0:
                record(out, m, r="build" if "could not compile" in o and "error" in o and "running" not in o else "tests")
                continue
            if os.environ.get("PHASE") == "1":
                record(out, m, r="survives")
                continue
            caught, errors, t0 = None, [], time.time()
            checks = []
            for k, v in ORDER.items():
                if k in m["f"]:
                    checks = v.split()
            if os.environ.get("ALL"):
                checks += ["C%02d" % i for i in range(1, 21) if "C%02d" % i not in checks]
            for c in checks:
                rc, o = sh("cd /verif && timeout 900 python3 vf/check.py " + c, 920, {"VERIF_SEED": "1", "VERIF_TIER": "quick"})
                if rc == 1 and "VIOLATION property=%s" % c in o:
                    caught = c
                    break
                if rc != 0:
                    errors.append([c, rc, o[-400:]])
            record(out, m, r="caught" if caught else "MISSED", by=caught, errors=errors, t=int(time.time() - t0))
        finally:
            open(p, "w").write(orig)


if __name__ == "__main__":
    if sys.argv[1] == "list":
        ms = mutants()
        for m in ms:
            print(m["f"], m["line"], m["old"].strip(), " => ", m["new"].strip())
        print(len(ms))
    elif sys.argv[1] == "run":
        out, n = sys.argv[2], int(sys.argv[3])
        ps = []
        for k in range(n):
            d = "/tmp/mut/w%d" % k
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
            subprocess.check_call(["cp", "-a", "/verif", d + "/verif"])
            ps.append(subprocess.Popen(["unshare", "-Urm", "bash", "-c", "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && exec python3 tools/mutate.py work %s" % (d, d, out)]))
        for p in ps:
            p.wait()
    else:
        work(sys.argv[2])
