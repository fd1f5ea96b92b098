"""mkseed.py ID PROPERTY 'needs' 'breaks' : records /repo's current diff as seeded/ID with demo from tools args
(reads the demo's main.rs from stdin; DEPS env: core|derive|meta|generator...)."""
import json, os, subprocess, sys
ID, prop, needs, breaks = sys.argv[1:5]
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(R, "seeded", ID); os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
assert diff.strip(), "no diff"
open(os.path.join(d, "patch.diff"), "w").write(diff)
main = sys.stdin.read()
if main.strip(): open(os.path.join(d, "main.rs"), "w").write(main)
deps = os.environ.get("DEPS", "core").split(",")
table = {"core": 'pest3_core = { path = "/repo/core" }', "pest3": 'pest3 = { path = "/repo/pest" }', "derive": 'pest3_derive = { path = "/repo/derive" }',
         "meta": 'pest3_meta = { path = "/repo/meta" }', "generator": 'pest3_generator = { path = "/repo/generator" }', "syn":'proc-macro2 = "1"\nquote = "1"'}
toml = "[package]\nname = \"demo\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[workspace]\n[[bin]]\nname = \"demo\"\npath = \"main.rs\"\n[dependencies]\n" + "\n".join(table[x] for x in deps) + "\n"
sh = f'''#!/bin/bash
# Builds a throw-away program against /repo and runs it: exit 0 iff the property holds on its inputs.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
tmp="$(mktemp -d /tmp/demo-XXXXXX)"
trap 'rm -rf "$tmp"' EXIT
cp "$here/main.rs" "$tmp/main.rs"
[ -d "$here/files" ] && cp -r "$here/files" "$tmp/files"
cat > "$tmp/Cargo.toml" <<'TOML'
{toml}TOML
cp /repo/Cargo.lock "$tmp/Cargo.lock"
cd "$tmp" || exit 3
export CARGO_TARGET_DIR="$tmp/target"
timeout 280 cargo run --offline --quiet
'''
open(os.path.join(d, "demo.sh"), "w").write(sh); os.chmod(os.path.join(d, "demo.sh"), 0o755)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
print("seeded", ID)
