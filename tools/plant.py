"""plant.py FILE.py [ID...]: writes seeded/ID for every entry of SEEDS in FILE.py.
An entry is dict(id, prop, needs, breaks, edits=[(file, old, new[, count])], main, deps[, files]).
The patch is made in the scratch copy /tmp/scr/repo, never in /repo."""
import json, os, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = "/tmp/scr/repo"
TABLE = {"core": 'pest3_core = { path = "/repo/core" }', "pest3": 'pest3 = { path = "/repo/pest" }',
         "derive": 'pest3 = { path = "/repo/pest", features = ["derive"] }',
         "meta": 'pest3_meta = { path = "/repo/meta" }', "generator": 'pest3_generator = { path = "/repo/generator" }',
         "syn": 'proc-macro2 = "1"\nquote = "1"'}
SH = '''#!/bin/bash
# Builds a throw-away program against /repo and runs it: exit 0 iff the property holds on its inputs.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
tmp="$(mktemp -d /tmp/demo-XXXXXX)"
trap 'rm -rf "$tmp"' EXIT
cp "$here/main.rs" "$tmp/main.rs"
[ -d "$here/files" ] && cp -r "$here/files" "$tmp/files" && cp -r "$here/files/." "$tmp/"
cat > "$tmp/Cargo.toml" <<'TOML'
%sTOML
cp /repo/Cargo.lock "$tmp/Cargo.lock"
cd "$tmp" || exit 3
export CARGO_TARGET_DIR="$tmp/target"
timeout 280 cargo run --offline --quiet
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns["SEEDS"]:
    if sys.argv[2:] and s["id"] not in sys.argv[2:]: continue
    subprocess.run(["git", "-C", S, "checkout", "-q", "--", "."], check=True)
    for e in s["edits"]:
        f, old, new = e[:3]; p = os.path.join(S, f); t = open(p).read(); n = e[3] if len(e) > 3 else 1
        if t.count(old) != n: print(s["id"], "EDIT MATCHES", t.count(old), "times:", old[:60]); break
        open(p, "w").write(t.replace(old, new))
    else:
        d = os.path.join(R, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
        diff = subprocess.run(["git", "-C", S, "diff"], capture_output=True, text=True).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "main.rs"), "w").write(s["main"])
        for name, text in s.get("files", {}).items():
            p = os.path.join(d, "files", name); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(text)
        toml = ('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[[bin]]\nname = "demo"\npath = "main.rs"\n[dependencies]\n'
                + "\n".join(TABLE[x] for x in s.get("deps", ["core"])) + "\n")
        sh = os.path.join(d, "demo.sh"); open(sh, "w").write(SH % toml); os.chmod(sh, 0o755)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("planted", s["id"])
    subprocess.run(["git", "-C", S, "checkout", "-q", "--", "."], check=True)
