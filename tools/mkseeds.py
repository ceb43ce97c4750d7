#!/usr/bin/env python3
"""Makes and validates planted bugs (seeded/<id>/) in a scratch copy of /repo.

usage: mkseeds.py SPEC.py [ID...]     SPEC.py calls bug(...)
"""
import json, os, shutil, subprocess, sys

REPO = "/repo"
WORK = "/tmp/seedwork"
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
BUGS = {}

CORE = '''#!/bin/bash
# Builds a small program against the crates in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
dir=$(mktemp -d /tmp/plotline-demo.XXXXXX) || exit 1
trap 'rm -rf "$dir"' EXIT
export CARGO_TARGET_DIR=${DEMO_TARGET:-$dir/target}
mkdir "$dir/src" && cp "$here/demo.rs" "$dir/src/main.rs" || exit 1
cp "$repo/Cargo.lock" "$dir/Cargo.lock" 2>/dev/null
cat >"$dir/Cargo.toml" <<EOF
[workspace]
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
plotline = { path = "$repo/plotline" }
EOF
EXTRA
cd "$dir" || exit 1
timeout 240 cargo run -q --offline
'''
LIB = CORE.replace("EXTRA", '''echo "plotline-cli = { path = \\"$repo/plotline-cli\\" }" >>"$dir/Cargo.toml"''')
# The commands are parsed by the program's own parser.
COMMAND = LIB.replace("cd \"$dir\" || exit 1\ntimeout", """echo 'clap = { version = "4.5", features = ["derive", "env", "string"] }' >>"$dir/Cargo.toml"\ncd "$dir" || exit 1\ntimeout""")
# The plugin module of the interval plugin does not compile against the core: left out.
INTERVAL = CORE.replace("EXTRA", '''cp -r "$repo/plugins/interval/src" "$dir/src/interval" && mv "$dir/src/interval/lib.rs" "$dir/src/interval/mod.rs" || exit 1
rm -f "$dir/src/interval/plugin.rs"
sed -i -e '/^mod plugin;/d' "$dir/src/interval/mod.rs"
sed -i -e 's/cfg(feature = "date")/cfg(all())/' "$dir/src/interval/mod.rs"
sed -i -e 's/crate::/crate::interval::/g' "$dir"/src/interval/*.rs''')
CLI = '''#!/bin/bash
# Builds the program in the current directory and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
dir=$(mktemp -d /tmp/plotline-demo.XXXXXX) || exit 1
trap 'rm -rf "$dir"' EXIT
target=${DEMO_TARGET:-$dir/target}
(cd "$repo/plotline-cli" && cargo build -q --offline --target-dir "$target") || exit 1
plot() { timeout 20 "$target/debug/plotline" "$@"; }
mkdir "$dir/docs" && cd "$dir/docs" || exit 1
SCRIPT
'''


def bug(id, prop, needs, breaks, edits, demo, kind="core"):
    BUGS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, kind=kind)


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def reset():
    sh(f"git -C {WORK} checkout -q -- . && git -C {WORK} clean -fdq")


def baseline(log):
    want = json.load(open("/opt/vp/BASELINE.json"))
    names = {l.split()[1] for l in log.splitlines() if l.startswith("test ") and l.rstrip().endswith("... ok")}
    stable = {s.split("lib.rs::")[1] for s in want["stable"]}
    missing = stable - names
    return missing, len(stable)


def make(id):
    b = BUGS[id]
    d = os.path.join(OUT, id)
    os.makedirs(d, exist_ok=True)
    reset()
    for f, old, new in b["edits"]:
        p = os.path.join(WORK, f)
        s = open(p).read()
        if s.count(old) != 1:
            return f"edit of {f}: {s.count(old)} matches of {old!r}"
        open(p, "w").write(s.replace(old, new))
    diff = sh(f"git -C {WORK} diff").stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    script = {"core": CORE.replace("EXTRA\n", ""), "lib": LIB, "interval": INTERVAL, "cli": CLI, "cmd": COMMAND}[b["kind"]]
    if b["kind"] == "cli":
        script = script.replace("SCRIPT", b["demo"].strip())
    else:
        open(os.path.join(d, "demo.rs"), "w").write(b["demo"].strip() + "\n")
    p = os.path.join(d, "demo.sh")
    open(p, "w").write(script)
    os.chmod(p, 0o755)
    env = "RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true"
    t = sh(f"cd {WORK} && {env} cargo test --workspace --no-fail-fast --offline")
    missing, n = baseline(t.stdout)
    if missing:
        return f"baseline tests not passing ({n}): {missing}\n{t.stdout[-3000:]}"
    demo = f"cd {WORK} && DEMO_TARGET=/tmp/seedtool/target-{b['kind']} bash {p}"
    bad = sh(demo)
    reset()
    sh(f"find {WORK}/plotline* {WORK}/plugins -name '*.rs' | xargs touch")
    good = sh(demo)
    if good.returncode != 0:
        return f"demo fails on the unchanged tree: {good.stdout[-2500:]}"
    if bad.returncode == 0:
        return "demo passes with the patch"
    if "error[E" in bad.stdout or "could not compile" in bad.stdout:
        return f"does not compile: {bad.stdout[-2500:]}"
    return None


if __name__ == "__main__":
    exec(open(sys.argv[1]).read())
    if not os.path.isdir(WORK):
        sh(f"cp -a {REPO} {WORK}")
    sh(f"git -C {WORK} fetch -q {REPO} HEAD && git -C {WORK} checkout -q --detach FETCH_HEAD")
    ids = sys.argv[2:] or list(BUGS)
    for id in ids:
        err = make(id)
        print(f"{id}: {err or 'ok'}", flush=True)
        if err:
            shutil.rmtree(os.path.join(OUT, id), ignore_errors=True)
