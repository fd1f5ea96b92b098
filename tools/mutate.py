#!/usr/bin/env python3
"""mutate.py LOG SEED N FILE...: small random edits of /repo's files that compile and pass the tests, run against the machinery.
Run it where /repo and /verif are copies (it edits /repo). Prints one line per edit: what was edited and whether it was noticed."""
import json, os, random, re, subprocess, sys, time
sys.path.insert(0, "/verif/lib"); sys.path.insert(0, "/verif/tools")
SWAPS = [(r"<=", "<"), (r">=", ">"), (r" < ", " <= "), (r" > ", " >= "), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r" \+ 1\b", ""), (r" - 1\b", ""),
         (r" \+ ", " - "), (r" - ", " + "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.rev\(\)", ""), (r"\.skip\(1\)", ""), (r"is_some\(\)", "is_none()"), (r"is_none\(\)", "is_some()"),
         (r"is_ok\(\)", "is_err()"), (r"is_err\(\)", "is_ok()"), (r"is_empty\(\)", "is_empty() == false"), (r"\bstart\b", "end"), (r"\bend\b", "start"), (r"\bmin\b", "max"), (r"\bmax\b", "min"),
         (r"\bany\(", "all("), (r"\ball\(", "any("), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "3"), (r"\b16\b", "15"), (r"\bpush\(", "push_str("), (r"if (?!let)", "if !"), (r"if (?!let)(.*) \{$", r"if false && (\1) {"),
         (r"if (?!let)(.*) \{$", r"if true || (\1) {"), (r"\.chain\([^()]*\)", ""), (r"\bfirst\(\)", "last()"), (r"\blast\(\)", "first()"), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"),
         (r"snapshot\(\)", "clear_snapshot()"), (r"clear_snapshot\(\)", "restore()"), (r"restore\(\)", "clear_snapshot()"), (r"positive_during", "negative_during"), (r"negative_during", "positive_during"),
         (r"\.cloned\(\)", ".cloned().take(1)"), (r"optional_trivia", "mandatory_trivia"), (r"mandatory_trivia", "optional_trivia"), (r"saturating_", "wrapping_"), (r"Some\((\w+)\)$", "None"),
         (r"starts_with", "ends_with"), (r"char_indices\(\)", "char_indices().skip(1)"), (r"unwrap_or\(", "unwrap_or(1 + "), (r"\.trim\(\)", ""), (r"&\*", "&"), (r'"\*"', '"+"'), (r"\?;", ".ok();")]


def sh(*c, timeout=600, **k):
    try: return subprocess.run(c, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    except subprocess.TimeoutExpired: return None


def code_lines(path):
    out = []; test = False
    for i, l in enumerate(open(path).read().split("\n")):
        if "#[cfg(test)]" in l: test = True
        s = l.strip()
        if test or not s or s.startswith(("//", "#[", "#!", "use ", "pub use", "///")): continue
        out.append(i)
    return out


def edits(path, rng, orig):
    ls = open(path).read().split("\n"); c = []
    for i in code_lines(path):
        l = ls[i]
        if l not in orig: continue
        for a, b in SWAPS:
            for m in re.finditer(a, l):
                n = l[:m.start()] + m.expand(b) + l[m.end():]
                if n != l: c.append((i, n))
        if re.match(r"\s*[\w.]+(\(.*\))?(\.\w+\(.*\))*;$", l) and "return" not in l: c.append((i, ""))
        if re.match(r"\s*[\w.\[\]]+ (\+=|-=) .*;$", l): c.append((i, ""))
    return ls, c


def passed():
    r = sh("bash", "/opt/vp/build.sh")
    if r is None or r.returncode: return "no build"
    r = sh("bash", "/opt/vp/test.sh", "/opt/vp/work/mut.json")
    b = json.load(open("/opt/vp/BASELINE.json")); 
    try: t = json.load(open("/opt/vp/work/mut.json"))
    except Exception: return "tests hang"
    return "ok" if set(b["stable"]) <= set(t["passed"]) else "tests fail"


def main():
    log, seed, n, *files = sys.argv[1:]
    rng = random.Random(seed); out = open(log, "a", buffering=1)
    seen = set(); k = 0; tries = 0
    import fnmatch
    while k < int(n) and tries < 40 * int(n):
        tries += 1
        f = rng.choice(files); p = os.path.join("/repo", f)
        orig = set(sh("git", "-C", "/repo", "show", "ba1bd62:" + f).stdout.split("\n"))
        ls, c = edits(p, rng, orig)
        i, new = rng.choice(c)
        if (f, i, new) in seen: continue
        seen.add((f, i, new))
        old = ls[i]; ls[i] = new
        open(p, "w").write("\n".join(ls))
        try:
            v = passed()
            if v != "ok": print(".", end="", file=out); continue
            k += 1; t = time.time()
            r = sh("python3", "/verif/tools/omni.py", f, timeout=1500, cwd="/verif")
            res = "TIMEOUT" if r is None else ("TOOL" if "Traceback" in r.stdout else "caught" if r.returncode == 1 else "SURVIVED" if r.returncode == 0 else "TOOL")
            detail = "" if r is None else "; ".join(l.strip()[:160] for l in r.stdout.split("\n") if l.startswith("  "))[:260]
            print(f"\n{res} {f}:{i + 1} [{old.strip()}] -> [{new.strip()}] {time.time() - t:.0f}s {detail}", file=out)
            if res == "TOOL": print(r.stdout[-600:], file=out)
        finally:
            sh("git", "-C", "/repo", "checkout", "--", ".")
    print("\nMUTATE-DONE", file=out)


main()
