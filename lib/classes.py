"""C22: the built-in character classes over every Unicode scalar value; text terminals through the parsing machine."""
import json, os, random
import genpeg, peg, vp

TEXTS = ["k", "K", "s", "a", "z", "A", "Z", "@", "[", "`", "{", "é", "É", "ß"]


def describe(i, r, rows):
    n = r["name"]; w = n.split()
    r = dict(r, id=i, args=[], row=0)
    if n in rows: r.update(kind="unicode", row=rows[n])
    elif w[0] == "range": r.update(kind="range", args=[ord(x) if len(x) == 1 and x.isalpha() and x in "ab" and n in ("range a b", "range b a") else int(x, 16) for x in w[1:]])
    elif w[0] == "char": r.update(kind="str", args=[ord("x") if w[1] == "x" else int(w[1], 16)])
    elif w[0] in ("str", "insens"): r.update(kind=w[0], args=[ord(TEXTS[int(w[1])])])
    else: r.update(kind="ascii", name="any" if n == "skip 1" else n)
    r["shown"] = n
    return r


def check(ctx):
    vp.cargo_build("classes")
    ctx.log("harness built")
    r = vp.sh([os.path.join(vp.ROOT, "harness/classes/target/debug/classes-harness")], timeout=600)
    if r.returncode != 0: raise vp.ToolError("classes harness: " + r.stderr[-1000:])
    table = [json.loads(l)["name"] for l in open(os.path.join(vp.SPEC, "unicode_classes.ndjson"))]
    rows = {n: i + 1 for i, n in enumerate(table)}
    obs = [describe(i + 1, json.loads(l), rows) for i, l in enumerate(r.stdout.splitlines())]
    missing = set(table) - {o["name"] for o in obs}
    if missing: raise vp.ToolError(f"classes not observed: {missing}")
    ctx.log(f"{len(obs)} classes observed on all scalar values")
    random.Random(1).shuffle(obs)
    byid = {o["id"]: o for o in obs}
    for i, tag, text in vp.tlc_judge(ctx, "TraceClasses", obs, chunks=vp.CPUS):
        ctx.violation(tag, f"{byid[i]['shown']}: {text[:120]}", dict(cls=byid[i]["shown"], expected_got=text))
    # what terminals do next to other text: at ends of input, on partial matches, after multi-byte characters
    ctx.extra["classes"] = len(obs)
    ctx.extra["scalar_values_per_class"] = 1112064
    peg.judge_profiles(ctx, dict(terminals=6), {"out", "outc", "tree", "panic", "twin"}, ctx.scale(8000, 60000))
    ctx.cov["samples"] = [dict(cls=o["shown"], accepted=o["acc"][:4]) for o in obs[:2]]


def run(ctx):
    check(ctx)
    return ctx.finish()
