"""Bounded universes explored exhaustively by TLC (MCPeg), and what it found replayed into the real combinators."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
import vp

# property -> (universe, input length quick, thorough, tags that decide it)
UNIVERSES = {
    "C01": ("plain", 2, 4, ["out", "outc"]),
    "C02": ("rep", 2, 4, ["out", "outc", "stk", "stkc", "tree"]),
    "C03": ("rep", 2, 4, ["out", "outc", "stk", "stkc", "tree"]),
    "C04": ("look", 2, 4, ["out", "outc", "stk", "stkc"]),
    "C05": ("back", 2, 3, ["out", "outc", "stk", "stkc"]),
    "C06": ("stack", 2, 4, ["out", "outc", "stk", "stkc", "tree"]),
    "C07": ("report", 2, 4, ["twin", "twinstk", "twinrep", "ftwin", "ftwinrep"]),
    "C08": ("plain", 2, 4, ["fout", "foutc", "fstk", "fstkc", "frep", "frepc"]),
    "C09": ("report", 2, 4, ["rep", "repc", "frep", "frepc"]),
    "C11": ("report", 2, 4, ["pairs"]),
    "C12": ("plain", 2, 4, ["tree"]),
}


def explore(ctx, universe, maxlen, parts=None):
    """TLC on every part of the universe; returns the vectors."""
    parts = parts or (vp.CPUS if maxlen < 3 else 4 * vp.CPUS)

    def one(i):
        out = ctx.path(f"mc-{universe}-{i}.ndjson")
        r = vp.java("MCPeg.tla", "MCPeg.cfg", dict(UNIVERSE=universe, PART=str(i), PARTS=str(parts), MAXLEN=str(maxlen), OUT=out),
                    ctx.path(f"mcm-{universe}-{i}"), heap="3g", timeout=3000)
        m = re.search(r'<<"MADE", (\d+), (\d+), (\d+), (\d+)>>', r.stdout)
        if r.returncode != 0 or not m or "No error has been found" not in r.stdout:
            raise vp.ToolError(f"MCPeg {universe} part {i}: rc={r.returncode}\n{vp.tlc_error(r.stdout)}\n{r.stderr[-500:]}")
        vs = [json.loads(l) for l in open(out)]
        os.unlink(out)
        return vs, [int(x) for x in m.groups()]
    progs = states = 0; vecs = []
    with ThreadPoolExecutor(vp.CPUS) as ex:
        for vs, m in ex.map(one, range(parts)):
            progs += m[1]; states += m[2]
            ctx.cov["states"] += m[2]; ctx.cov["transitions"] += m[3] - m[0]
            vecs += vs
    return vecs, progs, states


def report(att):
    return sorted([u, sorted(set(e)), sorted(set(x)), sorted(set(map(json.dumps, s)))] for u, e, x, s in att)


def check(ctx, exe):
    universe, quick, deep, tags = UNIVERSES[ctx.prop]
    maxlen = ctx.scale(quick, deep)
    vecs, progs, states = explore(ctx, universe, maxlen)
    want = {}
    for v in vecs: want.setdefault((v["part"], v["id"]), {})[v["stage"]] = v
    rows = []
    for n, ((part, i), d) in enumerate(sorted(want.items()), 1):
        v = d["partial"]
        rows.append(dict(id=n, prof="mc-" + universe, inp=v["inp"], chs=[chr(c) for c in v["inp"]], start=0, stk0=v["stk0"], snaps=[],
                         root=v["root"], nodes=v["nodes"], key=[part, i]))
    got, dead = vp.run_rows(ctx, exe, rows)
    for row, why in dead:
        ctx.violation("crash", json.dumps([row["nodes"], row["inp"]]), dict(case=row, why=why))
    bad = 0
    for r in got:
        d = want[tuple(r["key"])]; p, f = d["partial"], d["full"]; o = r["obs"]; diff = []

        def eq(tag, a, b):
            if a != b: diff.append((tag, a, b))
        if o["panics"]: diff.append(("panic", [], o["panics"]))
        for s, k in (("", "p"), ("c", "c")):
            if k not in o: continue
            eq("out" + s, [p["ok"], p["end"] if p["ok"] else -1], [o[k]["ok"], o[k]["end"]])
            if p["settled"] and p["ok"] == o[k]["ok"]: eq("stk" + s, p["stk"], o[k]["stk"])
            eq("rep" + s, [p["rep"]["pos"], report(p["rep"]["att"])], [o[k]["rep"]["pos"], report(o[k]["rep"]["att"])])
        if "p" in o and p["ok"] and o["p"]["ok"]:
            eq("tree", p["tree"], o["p"]["tree"]); eq("pairs", p["pairs"], o["p"]["pairs"])
        for s, k in (("", "fp"), ("c", "fc")):
            if k not in o: continue
            eq("fout" + s, f["ok"], o[k]["ok"])
            eq("frep" + s, [f["rep"]["pos"], report(f["rep"]["att"])], [o[k]["rep"]["pos"], report(o[k]["rep"]["att"])])
            if f["ok"] and o[k]["ok"]: eq("fstk" + s, f["stk"], o[k]["stk"])
        for pre, x, y in (("", "p", "c"), ("f", "fp", "fc")):
            if x not in o or y not in o: continue
            eq(pre + "twin", [o[x]["ok"], o[x].get("end")], [o[y]["ok"], o[y].get("end")])
            if pre == "" and o[x]["ok"] and o[y]["ok"]: eq("twinstk", o[x]["stk"], o[y]["stk"])
            if not o[x]["ok"] or not o[y]["ok"]:
                eq(pre + "twinrep", [o[x]["rep"]["pos"], report(o[x]["rep"]["att"])], [o[y]["rep"]["pos"], report(o[y]["rep"]["att"])])
        for tag, a, b in diff:
            if tag in tags or tag == "panic":
                bad += 1
                ctx.violation("replay-" + tag, json.dumps([r["nodes"], r["root"], "".join(r["chs"]), 0, r["stk0"]], ensure_ascii=False),
                              dict(case={k: v for k, v in r.items() if k != "obs"}, expected=a, got=b))
    ctx.extra["exhaustive"] = dict(universe=universe, programs=progs, input_length=maxlen, vectors_replayed=len(got), states=states,
                                   invariants="TypeOK SnapshotsBalanced RulesBalanced PolarityScoped RulesNested ReportAhead Faithful Ended Unstuck")
    ctx.log(f"universe {universe}: {progs} programs, {states} states, {len(got)} vectors replayed, {bad} differ")
    if bad: return
    live(ctx, universe, 1 if not ctx.thorough else 2)


def live(ctx, universe, maxlen):
    """Temporal properties (monotone report, neutral lookahead, termination) on a slice of the universe."""
    parts = 64 if not ctx.thorough else 16
    r = vp.java("MCPeg.tla", "MCPegLive.cfg", dict(UNIVERSE=universe, PART=str(ctx.seed % parts), PARTS=str(parts), MAXLEN=str(maxlen), OUT=ctx.path("x")),
                ctx.path(f"mcl-{universe}"), heap="4g", timeout=1500)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", r.stdout)
    if r.returncode != 0 or not m or "No error has been found" not in r.stdout:
        raise vp.ToolError(f"MCPegLive {universe}: rc={r.returncode}\n{vp.tlc_error(r.stdout)}\n{r.stderr[-500:]}")
    ctx.cov["states"] += int(m.group(2)); ctx.cov["transitions"] += int(m.group(1))
    ctx.extra["temporal"] = dict(properties="ReportMonotone LookaheadNeutral Terminates", states=int(m.group(2)))
