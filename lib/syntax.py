"""C13, C14, C15: the grammar parser against spec/Syntax.tla."""
import json, os, random
import gengrammar as gg
import vp


def texts(prop, seed, thorough):
    rng = random.Random(f"{seed}/{prop}/syntax")
    big = 12 if thorough else 1
    out = list(gg.NEAR) + list(gg.deep())
    if prop == "C17":
        names, gg.NAMES = gg.NAMES, ["a", "b", "c"]
        out = [gg.module(rng).text() for _ in range(1500 * big)]
        gg.NAMES = names
    elif prop == "C13":
        out += gg.universe(gg.BODY, 5 if thorough else 3)
        out += ["a = " + " ".join(rng.choice(gg.BODY + gg.SIDE) for _ in range(rng.randint(4, 9))) for _ in range(2000 * big)]
        out += [gg.module(rng).text() for _ in range(3500 * big)]
    elif prop == "C14":
        for a in gg.CHARS + gg.ESC + gg.BADESC + gg.BROKEN:
            out += [f'a = "{a}"', f'a = i"{a}"', f'a = r"{a}"', f'a = r#"{a}"#', f"a = '{a}'..'z'", f"a = 'a'..'{a}'", f"a = '{a}'..'{a}'"]
            out += [f'a = "{a}{b}"' for b in gg.CHARS[-6:] + gg.ESC[:7] + gg.BADESC[:2] + gg.BROKEN[-5:]]
            out += [f"a = r{'#' * n}\"{a}\"{'#' * m}b\"{'#' * n}" for n in (0, 1, 2, 3) for m in (0, 1, 2)]
        for n in gg.NUMS:
            for s in ("", "-", "+", "--", "0"):
                out += [f"a = b[{s}{n}..]", f"a = b[..{s}{n}]", f"a = b[{s}{n}..{s}{n}]", f"a = b{{{s}{n}}}", f"a = b{{{s}{n}..}}", f"a = b{{..{s}{n}}}"]
            out += [f"a = b{{{n}..{m}}}" for m in gg.NUMS]
        for c in range(256): out += [f'a = "\\x{c:02x}"', f"a = '\\x{c:02X}'..'\\x{(c + 1) % 256:02x}'"]
        for c in [0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 0xffffff]:
            out += [f'a = "x\\u{{{c:x}}}y"', f'a = i"\\u{{{c:06X}}}"', f"a = '\\u{{{c:x}}}'..'\\u{{{c:x}}}'"]
        out += [gg.module(rng, rules=1, good=rng.random() < .6, lit=True).text() for _ in range(2500 * big)]
    else:
        out += gg.universe(gg.SIDE, 4 if thorough else 2)
        out += gg.universe(["a", "=", "~", "{", "}", "_", "(", ")", "|"], 6 if thorough else 4, head="")
        for _ in range(4500 * big): out.append(gg.corrupt(rng, gg.module(rng, rules=rng.choice([1, 1, 2]))))
        out += [gg.module(rng, good=False).text() for _ in range(1000 * big)]
    seen = set()
    return [t for t in out if not (t in seen or seen.add(t)) and len(t) <= 1500]


def check(ctx):
    vp.cargo_build("meta")
    exe = os.path.join(vp.ROOT, "harness/meta/target/debug/vmeta")
    ts = texts(ctx.prop, ctx.seed, ctx.thorough)
    root = os.path.join(ctx.scratch, "none", "grammar.pest")
    rows = [dict(id=i, text=t, root=root, put=ctx.prop == "C17") for i, t in enumerate(ts, 1)]
    obs, dead = vp.run_rows(ctx, exe, rows)
    for r, why in dead: ctx.violation("crash", r["text"], dict(row=r, why=why))
    ctx.log(f"{len(obs)} texts read")
    for o in obs:
        t = ts[o["id"] - 1]
        o["inp"] = [ord(c) for c in t]
        o.setdefault("rules", []); o.setdefault("doc", []); o.setdefault("imports", []); o.setdefault("at", [-1, -1]); o.pop("msg", None)
    random.Random(1).shuffle(obs)
    for i, tag, text in vp.tlc_judge(ctx, "TraceSyntax", obs, heap="3g"):
        ctx.violation(tag, ts[i - 1], dict(text=ts[i - 1], want_got=text))
    n = {k: sum(1 for o in obs if o["res"] == k) for k in ("ok", "err", "panic")}
    ctx.extra.update(texts=len(obs), accepted=n["ok"], rejected=n["err"])
    ctx.cov["samples"] = [dict(text=ts[o["id"] - 1], result=o["res"], rules=o["rules"][:1]) for o in obs[:3]]


def run(ctx):
    check(ctx)
    return ctx.finish()
