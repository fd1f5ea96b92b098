#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's current tree (see DESIGN.md)."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vp

def main():
    prop = sys.argv[1]
    ctx = vp.Ctx(prop)
    try:
        import registry
        return registry.RUN[prop](ctx)
    except vp.ToolError as e:
        print(f"TOOL-ERROR: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2

if __name__ == "__main__":
    sys.exit(main())
