"""setup_cmd: builds the harnesses once and parses every specification (checks build again what they need)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp
for c in sorted(os.listdir(os.path.join(vp.ROOT, "harness"))):
    if os.path.exists(os.path.join(vp.ROOT, "harness", c, "Cargo.toml")):
        vp.cargo_build(c)
        print("built", c)
