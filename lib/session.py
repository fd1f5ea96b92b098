"""C09, C10: the failure tracker driven by hand, by every short script of events and by long random ones (spec/Session.tla)."""
import json, os, random, re
from concurrent.futures import ThreadPoolExecutor
import vp

TAGS = {"C09": {"rep", "given", "panic"}, "C10": {"msg", "panic"}}
TEXTS = ["", "ab", "ab\n", "a\nb", "é\r\nab", "\n\n", "日b\n\té", "a" * 7 + "\n" * 9 + "xyz", "😀a\rb", "ab\ncd\nef"]


def scripts(ctx, maxlen, start):
    out = ctx.path(f"sessions-{start}.ndjson")
    r = vp.java("MCSession.tla", "MCSession.cfg", dict(MAXLEN=str(maxlen), START=str(start), OUT=out), ctx.path(f"mcs-{start}"), heap="6g", timeout=1500)
    m = re.search(r'<<"MADE", (\d+), (\d+), (\d+)>>', r.stdout)
    if r.returncode != 0 or not m or "No error has been found" not in r.stdout:
        raise vp.ToolError(f"MCSession: rc={r.returncode}\n{vp.tlc_error(r.stdout)}\n{r.stderr[-500:]}")
    ctx.cov["states"] += int(m.group(2)); ctx.cov["transitions"] += int(m.group(3))
    return [json.loads(l)["script"] for l in open(out)], int(m.group(2))


def some(rng, n, size):
    """a random script over positions 0..n"""
    ev = []; open_ = []; here = [rng.randint(0, n)]
    near = lambda: min(n, max(0, here[-1] + rng.choice([0, 0, 0, 1, 1, 2, -1]))) if rng.random() < .9 else rng.randint(0, n)
    while len(ev) < size or open_:
        x = rng.random() if len(ev) < size else 1
        if x < .42:
            p = near(); here.append(p); open_.append("r")
            ev.append(["enter", rng.randint(1, 5), p, rng.choice(["option", "result", "empty"])])
        elif x < .52: ev.append(["pol", rng.random() < .4]); open_.append("p")
        elif x < .58: ev.append(["slice", near(), rng.randint(-3, 3)] + ([rng.randint(-3, 3)] if rng.random() < .6 else []))
        elif x < .62: ev.append(["empty", near()])
        elif x < .66: ev.append(["repeat", near()])
        elif open_:
            if open_.pop() == "r": here.pop(); ev.append(["leave", rng.random() < .45])
            else: ev.append(["unpol"])
    return ev


def check(ctx, exe):
    tags = TAGS[ctx.prop]
    rng = random.Random(f"{ctx.seed}.session.{ctx.prop}")
    rows = []; made = {}
    def row(text, start, script): rows.append(dict(id=len(rows) + 1, inp=[ord(c) for c in text], chs=list(text), start=start, script=script))
    starts = [0, 1]
    with ThreadPoolExecutor(2) as ex:
        for s, (all_, states) in zip(starts, ex.map(lambda s: scripts(ctx, ctx.scale(5, 6), s), starts)):
            made[s] = dict(scripts=len(all_), states=states)
            for i, x in enumerate(all_): row(TEXTS[1 + i % (len(TEXTS) - 1)], s, x)
    exhaustive = len(rows)
    for _ in range(ctx.scale(3000, 60000)):
        t = rng.choice(TEXTS) if rng.random() < .5 else "".join(rng.choice("ab\n\r é日") for _ in range(rng.randint(0, 12)))
        row(t, rng.randint(0, len(t)) if rng.random() < .4 else 0, some(rng, len(t), rng.choice([3, 6, 9, 14, 25])))
    obs, dead = vp.run_rows(ctx, exe, rows)
    for r, why in dead: ctx.violation("crash", json.dumps(r["script"]), dict(case=r, why=why))
    byid = {r["id"]: r for r in obs}
    for i, tag, text in vp.tlc_judge(ctx, "TraceSession", obs):
        if tag in ("closed", "meant"): raise vp.ToolError(f"session {i}: the machine and what is meant differ: {text}")
        if tag in tags:
            c = byid[i]
            ctx.violation("session-" + tag, json.dumps(["".join(c["chs"]), c["start"], c["script"]], ensure_ascii=False), dict(case=c, expected_got=text))
    ctx.extra["sessions"] = dict(exhaustive=made, replayed=exhaustive, random=len(rows) - exhaustive,
                                 invariants="AsMeant Scoped Forward (MCSession); AsMeant on every random script")
    ctx.log(f"sessions: {exhaustive} short scripts, {len(rows) - exhaustive} random ones judged")
