"""C01-C12, C24: the real combinators against PegMachine."""
import json, os, random
from concurrent.futures import ThreadPoolExecutor
import genpeg, mc, scale, session, vp

# property -> (profiles with weights, tags that decide it)
OUT = ["out", "outc", "panic"]
PLAN = {
    "C01": (dict(plain=5, plainwide=3), OUT),
    "C02": (dict(rep=5, repstk=3), OUT + ["stk", "stkc", "tree", "nf", "pairs"]),
    "C03": (dict(trivia=6), OUT + ["nf", "stk", "stkc", "tree", "pairs"]),
    "C04": (dict(look=2, lookstk=5), OUT + ["stk", "stkc", "bal", "balc"]),
    "C05": (dict(back=6, repstk=2), OUT + ["nf", "stk", "stkc", "bal", "balc"]),
    "C06": (dict(stack=7), OUT + ["stk", "stkc", "tree"]),
    "C07": (dict(all=3, report=2, stack=1, repstk=1, utf8=1), ["twin", "twinstk", "twinrep", "twinmsg", "ftwin", "ftwinrep", "ftwinmsg", "panic"]),
    "C08": (dict(all=4, plain=2, rep=1), ["fout", "foutc", "fstk", "fstkc", "ftree", "epp", "epf", "ecp", "ecf", "tpp", "tpf", "frep", "frepc", "panic"]),
    "C09": (dict(report=7, look=1), ["rep", "repc", "frep", "frepc", "panic"]),
    "C10": (dict(lines=6, report=2), ["msg", "msgf", "panic"]),
    "C11": (dict(report=3, all=3, trivia=1), ["pairs", "nest", "disp", "panic"]),
    "C12": (dict(all=4, plainwide=2, rep=1, look=1, utf8=1), ["tree", "ftree", "nf", "panic"]),
    "C24": (dict(utf8=7), ["panic", "bound", "nest"]),
}
QUICK_TOTAL = 24000
THOROUGH_TOTAL = 400000


def observe(ctx, rows):
    """Run the harness over the rows in parallel; returns the rows with observations.
    A row on which the process dies or does not return is a violation of the property (reported as "crash")."""
    exe = os.path.join(vp.cargo_build("dyn"), "target/debug/dyn-harness")
    res, dead = vp.run_rows(ctx, exe, rows)
    for row, why in dead:
        c = {k: v for k, v in row.items() if k != "obs"}
        ctx.violation("crash", json.dumps([c["nodes"], c["root"], "".join(c["chs"])], ensure_ascii=False), dict(case=c, why=why))
    return res


def check(ctx):
    profiles, tags = PLAN[ctx.prop]
    ctx.extra["profiles"] = profiles
    ctx.extra["tags"] = sorted(tags)
    exe = os.path.join(vp.cargo_build("dyn"), "target/debug/dyn-harness")
    ctx.log("harness built")
    if ctx.prop in mc.UNIVERSES: mc.check(ctx, exe)
    if not ctx.violations and ctx.prop in session.TAGS: session.check(ctx, exe)
    if ctx.violations: return          # decided
    judge_profiles(ctx, profiles, set(tags), ctx.scale(QUICK_TOTAL, THOROUGH_TOTAL))


def run(ctx):
    check(ctx)
    return ctx.finish()


def judge_profiles(ctx, profiles, tags, total):
    """Generate programs of the profiles, run them through the real combinators and let TLC judge the runs."""
    wsum = sum(profiles.values())
    stats = dict(accepted=0, rejected=0, with_stack=0, multi_rule=0)
    done = 0
    per_batch = 24000
    rounds = max(1, (total + per_batch - 1) // per_batch)
    for rnd in range(rounds):
        rows = []
        jobs = [(p, int(min(per_batch, total) * w / wsum)) for p, w in profiles.items()]
        for p, n in jobs:
            # rounds beyond the first use fresh seeds
            rows += genpeg.cases(f"{ctx.seed}.{rnd}.{ctx.prop}", p, n, first=done + len(rows) + 1)
        if rnd == 0: rows += scale.cases(ctx.scale([17, 33, 66, 270, 1100], [17, 33, 66, 130, 270, 1100, 2300]), done + len(rows) + 1)
        random.Random(rnd).shuffle(rows)  # the large ones to all processors
        obs = observe(ctx, rows)
        byid = {r["id"]: r for r in obs}
        for r in obs:
            ok = r["obs"].get("p", {}).get("ok")
            stats["accepted" if ok else "rejected"] += 1
            stats["with_stack"] += bool(r["obs"].get("p", {}).get("stk"))
            stats["multi_rule"] += sum(n["op"] == "rule" for n in r["nodes"]) > 1
        for i, tag, text in vp.tlc_judge(ctx, "TracePeg", obs):
            if tag in tags:
                c = byid[i]
                key = json.dumps([c["nodes"], c["root"], "".join(c["chs"]), c["start"], c["stk0"]], ensure_ascii=False)
                ctx.violation(tag, key, dict(case={k: v for k, v in c.items() if k != "obs"}, expected_got=text, obs=c["obs"]))
        done += len(rows)
        if rnd == 0:
            ctx.cov["samples"] = [dict(program=c["nodes"], input="".join(c["chs"]), observed=c["obs"].get("p", {})) for c in obs[:2]]
        ctx.log(f"round {rnd + 1}/{rounds}: {done} programs judged")
        if ctx.violations: break
    ctx.extra["outcomes"] = stats
