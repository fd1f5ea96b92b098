#!/usr/bin/env python3
"""specmut.py LOG SEED N MODULE...: small random edits of the specification, each run against the real code as it is.
An edit that nobody notices says that this part of the specification is not bound to the code (or that the edit changes nothing).
Run it where /verif is a copy (it edits /verif/spec)."""
import os, random, re, subprocess, sys, time
SPEC = "/verif/spec"
FILE = dict(Session="core/src/typed/tracker.rs", Tracker="core/src/typed/tracker.rs", Refusal="meta/src/parser.rs", History="generator/src/config.rs", Syntax="meta/src/parser.rs", Link="generator/src/typed/generator.rs", Attributes="generator/src/typed/attr.rs", PegMachine="core/src/typed/traits.rs", PegMeaning="core/src/typed/traits.rs",
            Report="core/src/typed/tracker.rs", Text="core/src/typed/traits.rs", Cursor="core/src/position.rs", Snippet="core/src/formatter.rs", CharClasses="classes")
SWAPS = [(r"<=", "<"), (r">=", ">"), (r" < ", " <= "), (r" > ", " >= "), (r" = ", " # "), (r" # ", " = "), (r"(?<=\S )/\\", r"\\/"), (r"(?<=\S )\\/", r"/\\"), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "),
         (r"\bTRUE\b", "FALSE"), (r"\bFALSE\b", "TRUE"), (r"\\E", r"\\A"), (r"\\A", r"\\E"), (r"\\in ", r"\\notin "), (r"\\notin ", r"\\in "), (r"\\cup", r"\\cap"), (r"\bHead\(", "Tail("), (r"~", ""), (r"\b0\b", "1"), (r"\b1\b", "2"),
         (r"\b2\b", "3"), (r"\b(\d\d+)\b", lambda m: str(int(m.group(1)) + 1)), (r"IF ", "IF ~"), (r" \\o ", r" \\o <<>> \\o "), (r"^(\s*)/\\ .*$", r"\1/\\ TRUE"), (r"^(\s*)\\/ .*$", r"\1\\/ FALSE"), (r'"(\w+)"', r'"\1_"')]


def main():
    log, seed, n, *mods = sys.argv[1:]
    assert os.path.exists("/verif/COPY")
    rng = random.Random(seed); out = open(log, "a", buffering=1); seen = set(); k = 0
    while k < int(n):
        mod = rng.choice(mods); p = f"{SPEC}/{mod}.tla"; text = open(p).read(); ls = text.split("\n"); c = []
        for i, l in enumerate(ls):
            code = l.split("\\*")[0]
            if not code.strip() or re.match(r"(----|====|EXTENDS|VARIABLE|CONSTANT|RECURSIVE|\(\*| \*)", code): continue
            for a, b in SWAPS:
                for m in re.finditer(a, code):
                    new = code[:m.start()] + (m.expand(b) if isinstance(b, str) else b(m)) + code[m.end():]
                    if new != code and " \\o <<>> \\o " not in new: c.append((i, new))
        i, new = rng.choice(c)
        if (mod, i, new) in seen: continue
        seen.add((mod, i, new)); old = ls[i]; ls[i] = new
        open(p, "w").write("\n".join(ls))
        try:
            top = {"Session": "TraceSession", "Syntax": "TraceSyntax", "Refusal": "TraceLink", "History": "TraceHistory", "Link": "TraceLink", "Attributes": "TraceLink", "Cursor": "TraceText", "Snippet": "TraceText", "CharClasses": "TraceClasses"}.get(mod, "TracePeg")
            r = subprocess.run(["tla-sany", f"{top}.tla"], cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if re.search(r"\*\*\* Errors|Parse Error|Could not parse|Fatal|Unknown operator|Lexical", r.stdout): continue
            k += 1; t = time.time()
            try:
                r = subprocess.run(["python3", "/verif/tools/omni.py", FILE[mod]], cwd="/verif", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=2400)
                res = "noticed" if r.returncode == 1 and "Traceback" not in r.stdout else "MISSED" if r.returncode == 0 else "stuck"
                why = re.sub(r"\s+", " ", (re.findall(r"^  C.*$", r.stdout, re.M) or re.findall(r"^(?:Error|Invariant|vp.ToolError).*$", r.stdout, re.M) or [""])[0])[:200]
            except subprocess.TimeoutExpired: res, why = "stuck", "timeout"
            print(f"{res} {mod}:{i + 1} [{old.strip()}] -> [{new.strip()}] {time.time() - t:.0f}s {why}", file=out)
        finally: open(p, "w").write(text)
    print("SPECMUT-DONE", file=out)


main()
