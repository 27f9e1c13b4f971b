#!/usr/bin/env python3
"""newbug.py ID PROP HOOKSET NEEDS BREAKS < main.rs : writes seeded/ID from /repo's uncommitted diff
and a demonstration program, then undoes the diff. `mods` of the demo: whatever main.rs uses."""
import sys, json, shutil, subprocess, re
from pathlib import Path
V = Path("/verif")
id, prop, hooks, needs, breaks = sys.argv[1:6]
main = sys.stdin.read()
d = V / "seeded" / id
diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
assert diff.strip(), "no change in /repo"
shutil.rmtree(d, ignore_errors=True); (d / "src").mkdir(parents=True)
(d / "patch.diff").write_text(diff)
(d / "src/main.rs").write_text(main)
t = (V / "harness/replay/Cargo.toml").read_text()
deps = t[t.index("[dependencies]"):t.index("[profile.dev]")].splitlines()[1:]
used = set(re.findall(r"\b(\w+)::", main)) | {"lightyear_core"}
keep = [l.replace(", optional = true", "") for l in deps if l.split(" =")[0].strip() in used]
if 'lightyear_sync' in used: keep.append('bevy_ecs = { version = "0.19", default-features = false, features = ["std"] }')  # lightyear_messages relies on it
(d / "Cargo.toml.in").write_text('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2024"\n\n[workspace]\n\n[dependencies]\n' + "\n".join(keep) + '\n\n[lints.rust]\nunexpected_cfgs = "allow"\n')
shutil.copy(V / "harness/replay/Cargo.lock", d / "Cargo.lock.in")
if hooks != "-":
    (d / "hooks").mkdir()
    for f in (V / "hooks" / hooks).iterdir():
        t = re.sub(r'include!\("\.\./parts/(\w+\.rs)"\);', lambda m: (V / "hooks/parts" / m[1]).read_text(), f.read_text())
        (d / "hooks" / f.name).write_text(t)
(d / "demo.sh").write_text(f'''#!/bin/bash
# exit 0: the property holds on this scenario; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf -- "$w"' EXIT
cp -r "$here/src" "$w/src" && cp "$here/Cargo.toml.in" "$w/Cargo.toml" && cp "$here/Cargo.lock.in" "$w/Cargo.lock" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
{'export LIGHTYEAR_VERIF_HOOKS="$here/hooks" RUSTFLAGS="--cfg lightyear_verif"' if hooks != "-" else 'unset RUSTFLAGS'}
export CARGO_TARGET_DIR="$w/target" CARGO_INCREMENTAL=0
cd "$w" && cargo build --offline -q 2>"$w/log" || {{ tail -40 "$w/log"; exit 3; }}
timeout 120 "$w/target/debug/demo"
''')
(d / "demo.sh").chmod(0o755)
(d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
