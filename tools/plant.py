#!/usr/bin/env python3
"""plant.py BATCH.py [ids...]: makes /verif/seeded/<id>/ from the table SEEDS in BATCH.py and confirms each in a scratch
copy of /repo: it applies, compiles, fails no test that passes without it, and its demonstration passes on the unchanged
tree and fails with the change.
Entry: (id, property, area, [(file, old, new)...], demo main.rs body, needs, what_it_breaks)"""
import json, os, runpy, shutil, subprocess, sys
SC = "/tmp/plant/repo"
TGT = "/tmp/plant/target"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2026-03-10", CARGO_NET_OFFLINE="true", HOME="/root", RUSTFLAGS="-Awarnings")
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-nightly-2026-03-10} CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
%s
[workspace]
EOF
cd "$t" && CARGO_TARGET_DIR="$t/target" cargo build -q --offline || exit 3
cd "$t" && timeout 60 "$t/target/debug/demo"
'''
DEPS = {
    "parser": 'oni-comb-parser-rs = { path = "$repo/parser" }',
    "crond": 'oni-comb-crond-rs = { path = "$repo/crond" }\nchrono = "0.4"\nintervals-rs = "*"',
    "uri": 'oni-comb-uri-rs = { path = "$repo/uri" }',
    "hocon": 'oni-comb-hocon-rs = { path = "$repo/hocon" }',
    "toys": None,
}
def sh(cmd, cwd=SC, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=dict(ENV, **k.pop("env", {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
def failed_tests():
    o = sh("cargo nextest run --workspace --offline --no-fail-fast --test-threads 8 2>&1", env={"CARGO_TARGET_DIR": TGT}).stdout
    if "Summary" not in o:
        return None, o
    return {" ".join(l.split()[-2:]) for l in o.splitlines() if l.strip().startswith(("FAIL", "SIGABRT", "TIMEOUT", "SIGSEGV"))}, o
def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    only = sys.argv[2:]
    os.makedirs("/tmp/plant", exist_ok=True)
    sh("rm -rf /tmp/plant/repo && git clone -q /repo /tmp/plant/repo", cwd="/tmp")
    base, o = failed_tests()
    assert base is not None, o[-2000:]
    print("baseline failing:", sorted(base))
    for sid, prop, area, edits, demo, needs, what in seeds:
        if only and sid not in only:
            continue
        d = f"/verif/seeded/{sid}"
        sh("git checkout -q -- .")
        ok = True
        for f, old, new in edits:
            p = f"{SC}/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                print(sid, "EDIT", f, "matches", s.count(old)); ok = False; break
            blame = sh(f"git blame -s -L '{s[:s.index(old)].count(chr(10))+1},+{old.count(chr(10))+1}' {f}").stdout
            if not any(l.startswith("^") for l in blame.splitlines()):
                print(sid, "WARN edits only lines of ours:", blame.strip()[:200])
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        diff = sh("git diff").stdout
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/demo.rs", "w").write(demo.strip() + "\n")
        if area == "toys":
            open(f"{d}/demo.sh", "w").write(TOYS_DEMO)
        else:
            open(f"{d}/demo.sh", "w").write(DEMO % DEPS[area])
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(f"{d}/meta.json", "w"), indent=1)
        bad = None
        f2, o = failed_tests()
        if f2 is None:
            bad = "does not build: " + o[-800:]
        elif f2 - base:
            bad = "fails tests " + str(sorted(f2 - base)[:4])
        else:
            r = sh(f"{d}/demo.sh")
            if r.returncode == 0:
                bad = "demo passes with the change"
            elif r.returncode == 3:
                bad = "demo does not build: " + r.stdout[-800:]
            sh("git checkout -q -- .")
            r2 = sh(f"{d}/demo.sh")
            if r2.returncode != 0:
                bad = (bad or "") + " demo fails clean: " + r2.stdout[-900:]
        if bad:
            print(sid, "REJECTED", bad)
            shutil.rmtree(d)
        else:
            print(sid, prop, "ok;", r.stdout.strip().splitlines()[1][:140] if len(r.stdout.strip().splitlines()) > 1 else r.stdout[:140], flush=True)
TOYS_DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-nightly-2026-03-10} CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$repo"/toys/src/*.rs "$t/src/"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/"
sed -n '/^\\[dependencies/,$p' "$repo/toys/Cargo.toml" | sed "s#path *= *\\"\\.\\./#path = \\"$repo/#" > "$t/deps"
{ printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n'; cat "$t/deps"; } > "$t/Cargo.toml"
cd "$t" && CARGO_TARGET_DIR="$t/target" cargo build -q --offline || exit 3
cd "$t" && timeout 60 "$t/target/debug/demo"
'''
main()
