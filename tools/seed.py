#!/usr/bin/env python3
"""seed.py DEF.py: confirm planted bugs in a scratch copy of /repo and keep them in /verif/seeded.
DEF.py defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, deps, main)]."""
import json, os, runpy, shutil, subprocess, sys
V = "/verif"
W = "/tmp/seedwork"
DEMO = '''#!/bin/bash
# Exit 0 if the property holds on the tree in the current directory.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null || true
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
%s
[workspace]
EOF
cd "$t"
CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true timeout 250 cargo run -q --offline
'''
DEPS = {
    "metriken": 'metriken = { path = "$repo/metriken" }',
    "metriken-core": 'metriken-core = { path = "$repo/metriken-core" }',
    "metriken-exposition": 'metriken-exposition = { path = "$repo/metriken-exposition", features = ["json", "msgpack", "parquet-conversion"] }',
}


def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout


def fresh():
    if not os.path.isdir(W):
        sh(f"cp -a /repo {W}")
    sh("git checkout -q -- . && git clean -fdq -e target", W)
    head = sh("git rev-parse HEAD", "/repo")[1].strip()
    if sh("git rev-parse HEAD", W)[1].strip() != head:
        print(sh(f"git fetch -q /repo && git checkout -q {head}", W))


def tests_ok():
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = base.get("passed") or base.get("tests") or base
    script = open("/opt/vp/test.sh").read()
    rc, out = sh("cargo test --offline --workspace --all-features 2>&1 | tail -400", W)
    return "FAILED" not in out and "error" not in out.split("warning")[0][:200] and "test result: ok" in out, out


for b in runpy.run_path(sys.argv[1])["BUGS"]:
    if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
        continue
    d = f"{V}/seeded/{b['id']}"
    fresh()
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    deps = "\n".join(DEPS.get(x, x) for x in b.get("deps", ["metriken"]))
    open(f"{d}/demo.sh", "w").write(DEMO % deps)
    os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/main.rs", "w").write(b["main"])
    rc0, o0 = sh(f"bash {d}/demo.sh", W)
    for f, old, new in b["edits"]:
        p = f"{W}/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (b["id"], f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    open(f"{d}/patch.diff", "w").write(sh("git diff", W)[1])
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
    ok, out = tests_ok()
    rc1, o1 = sh(f"bash {d}/demo.sh", W)
    good = rc0 == 0 and rc1 != 0 and ok
    print(b["id"], "OK" if good else "BAD", "demo clean", rc0, "demo bug", rc1, "tests", ok, flush=True)
    if not good:
        print(o0[-1500:], "\n---bug\n", o1[-1500:], "\n---tests\n", "" if ok else out[-3000:])
        os.rename(d, f"/tmp/seeds/bad-{b['id']}-{os.getpid()}")
    fresh()
