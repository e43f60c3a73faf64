"""mkbug.py BUGS.py: from a Python file defining BUGS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], main)],
writes seeded/<id>/ for each one that builds, passes the tests, and whose demonstration tells the two trees apart.
Works in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Builds main.rs against the crates in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
static-xml = { path = "$repo/static-xml" }
static-xml-derive = { path = "$repo/static-xml-derive" }
T
export PATH="$HOME/.cargo/bin:$PATH" CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
cd "$t" && cargo build --offline -q && timeout 60 "$t/target/debug/demo"
'''
# For C20: programs under good/ have to compile, those under bad/ must not.
DEMO2 = DEMO.replace('main.rs against the crates in the current directory and runs it', 'the programs in good and bad against the crates in the current directory: only the former compile')
DEMO2 = DEMO2.replace('mkdir "$t/src"\ncp "$here/main.rs" "$t/src/main.rs"', 'mkdir -p "$t/src/bin"\ncp "$here"/good*.rs "$here"/bad*.rs "$t/src/bin/"')
DEMO2 = DEMO2.split('cd "$t" && cargo')[0] + '''cd "$t"
for f in src/bin/good*.rs; do
  cargo build --offline -q --bin "$(basename "$f" .rs)" || { echo "does not compile:"; cat "$f"; exit 1; }
done
for f in src/bin/bad*.rs; do
  if cargo build --offline -q --bin "$(basename "$f" .rs)" 2>/dev/null; then echo "compiles:"; cat "$f"; exit 1; fi
done
'''
PRE = '''#![allow(dead_code, unused_imports)]
use static_xml::de::{self, Deserialize as _, ElementReader, ElementVisitor, VisitorError};
use static_xml::ser::{self, Serialize as _};
use static_xml::ExpandedNameRef;
use static_xml_derive::{Deserialize, ParseText, Serialize, ToText};
'''
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.83.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, env=env or os.environ, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
copy = "/tmp/bugcopy/repo"
if not os.path.exists(copy):
    os.makedirs("/tmp/bugcopy", exist_ok=True)
    subprocess.check_call(["cp", "-a", "/repo", copy])
sh(["git", "fetch", "-q", "/repo", "HEAD"], copy); sh(["git", "checkout", "-q", "-f", "FETCH_HEAD"], copy)
for b in ns["BUGS"]:
    if want and b["id"] not in want:
        continue
    sh(["git", "checkout", "-q", "--", "."], copy)
    d = os.path.join(V, "seeded", b["id"])
    tmp = "/tmp/bugcopy/" + b["id"]
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    if "main" in b:
        open(tmp + "/main.rs", "w").write(PRE + b["main"])
    else:
        for k in ("good", "bad"):
            for i, src in enumerate(b[k]):
                open(tmp + "/%s%d.rs" % (k, i), "w").write("use static_xml_derive::*;\n%s\nfn main() {}\n" % src)
    open(tmp + "/demo.sh", "w").write(DEMO if "main" in b else DEMO2); os.chmod(tmp + "/demo.sh", 0o755)
    r = sh([tmp + "/demo.sh"], copy)
    if r.returncode:
        print(b["id"], "BAD DEMO on the unchanged tree:", r.stdout[-1500:]); continue
    ok = True
    for f, old, new in b["edits"]:
        p = os.path.join(copy, f); s = open(p).read()
        if s.count(old) != 1:
            print(b["id"], "edit matches %d times: %r" % (s.count(old), old)); ok = False; break
        open(p, "w").write(s.replace(old, new))
    if not ok:
        continue
    r = sh(["cargo", "test", "--workspace", "--all-features", "--offline", "-q"], copy, ENV)
    if r.returncode:
        print(b["id"], "TESTS FAIL", r.stdout[-1500:]); continue
    r = sh([tmp + "/demo.sh"], copy)
    if not r.returncode:
        print(b["id"], "DEMO PASSES with the change"); continue
    if "main" in b and "error: could not compile" in r.stdout and not b.get("compile"):
        print(b["id"], "DEMO DOES NOT COMPILE with the change", r.stdout[-800:]); continue
    patch = subprocess.run(["git", "diff"], cwd=copy, stdout=subprocess.PIPE, text=True).stdout
    open(tmp + "/patch.diff", "w").write(patch)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(tmp + "/meta.json", "w"), indent=1)
    shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d)
    print(b["id"], "ok:", r.stdout.strip().splitlines()[-1][:150] if r.stdout.strip() else r.returncode)
sh(["git", "checkout", "-q", "--", "."], copy)
