"""C19-C21, C29: positions, spans and snippets of the real library against Cursor/Text/Snippet."""
import itertools, json, os, random
import vp

ALPHA = "a\n\ré中"
RICH = "ab \n\n\n\r\té中日😀\0\x7f\x1b\u0301αｱａ¡—“×ß∆"
TAGS = {"C19": {"spec", "pos", "linecol", "lineof", "join"}, "C20": {"span", "get", "merge", "lines", "spec"},
        "C21": {"showpos", "showspan", "spec"},
        "C29": {"ord", "same", "mix", "two", "pos", "spec"}}


def offs(s):
    o = [0]
    for c in s: o.append(o[-1] + len(c.encode()))
    return o


def row(i, s, disp, pairs, gets, merges):
    r = dict(id=i, inp=[ord(c) for c in s], off=offs(s), disp=disp, gets=gets, merges=merges)
    if pairs is not None: r["pairs"] = pairs
    return r


def some(rng, s, n, off_boundary=.15):
    o = offs(s); N = o[-1]; out = []
    for _ in range(n):
        a, b = rng.choice(o), rng.choice(o)
        if a > b and rng.random() < .9: a, b = b, a
        if rng.random() < off_boundary:
            if rng.random() < .5: a = rng.randint(0, N + 1)
            else: b = rng.randint(0, N + 1)
        out.append([a, b])
    return out


def gets_for(rng, s, n):
    out = []
    for a, b in some(rng, s, n, 0):
        if a > b: a, b = b, a
        L = b - a
        v = lambda: rng.choice([0, 0, 1, L, L, L + 1, max(0, L - 1), rng.randint(0, L + 2), -1 if rng.random() < .3 else 0])
        out.append([a, b, rng.choice([0, 0, 0, 1, 2]), v(), rng.choice([0, 1, 1, 2]), v()])
    return out


def merges_for(rng, s, n):
    out = []
    for _ in range(n):
        (a, b), (c, d) = some(rng, s, 2, 0)
        if rng.random() < .1: c, d = a, b
        elif rng.random() < .1: c = a
        elif rng.random() < .1: d = b
        out.append([min(a, b), max(a, b), min(c, d), max(c, d)])
    return out


def rand_text(rng):
    x = rng.random()
    if x < .5: return "".join(rng.choice(RICH) for _ in range(rng.randint(0, 14)))
    n = rng.choice([2, 3, 4, 5, 6, 6, 7, 8, 11]) # many lines
    s = ""
    for _ in range(n): s += "".join(rng.choice("ab中é\t") for _ in range(rng.randint(0, 3))) + rng.choice(["\n", "\n", "\r\n"])
    return s if rng.random() < .5 else s[:-1]


def rows_for(prop, seed, thorough):
    rng = random.Random(f"{seed}/{prop}/text")
    rows = []
    add = lambda s, disp, pairs, gets, merges: rows.append(row(len(rows) + 1, s, disp, pairs, gets, merges))
    depth = {"C19": 5, "C20": 4, "C21": 4, "C29": 4}[prop] + (1 if thorough else 0)
    for n in range(depth + 1):
        for t in itertools.product(ALPHA, repeat=n):
            s = "".join(t)
            if prop == "C19": add(s, False, some(rng, s, 2), [], [])
            elif prop == "C29": add(s, False, [], [], merges_for(rng, s, 12))
            elif prop == "C20": add(s, False, None, gets_for(rng, s, 12), merges_for(rng, s, 12))
            else: add(s, True, [[a, b] for a in offs(s) for b in offs(s) if a <= b], [], [])
    # a small text with every sub-range and every pair of spans
    if prop in ("C20", "C29"):
        for s in ("a中b", "é\na"):
            o = offs(s); L = o[-1]
            sp = [(a, b) for a in o for b in o if a <= b]
            add(s, False, [], [[a, b, k, v, m, w] for a, b in sp for k in (0, 1, 2) for v in ([0] if k == 2 else list(range(b - a + 2)) + [-1])
                               for m in (0, 1, 2) for w in ([0] if m == 2 else list(range(b - a + 2)) + [-1])],
                [[a, b, c, d] for a, b in sp for c, d in sp])
    for _ in range({"C19": 1500, "C20": 1200, "C21": 1600, "C29": 1200}[prop] * (20 if thorough else 1)):
        s = rand_text(rng)
        if prop == "C19": add(s, False, some(rng, s, 4), [], [])
        elif prop == "C29": add(s, False, [], [], merges_for(rng, s, 30))
        elif prop == "C20": add(s, False, some(rng, s, 25), gets_for(rng, s, 20), merges_for(rng, s, 20))
        else: add(s, True, some(rng, s, 14, 0), [], [])
    for n in (9, 10, 99, 100, 101, 999, 1000, 1001):   # line numbers of different widths
        s = "".join(rng.choice(["", "a", "é中"] if n < 999 else ["", "", "", "é"]) + "\n" for _ in range(n)) + "z"
        pairs = some(rng, s, 12 if n < 999 else 4, 0)
        if n >= 999: N = len(s.encode()); pairs += [[N - 1, N], [N - 2, N], [0, N]]
        add(s, prop == "C21", pairs, [], [])
        if n >= 999: rows[-1]["at"] = rng.sample(offs(s), 8) + [0, N, N - 1]   # only these positions are asked about
    return rows


def run(ctx):
    vp.cargo_build("text")
    exe = os.path.join(vp.ROOT, "harness/text/target/debug/text-harness")
    rows = rows_for(ctx.prop, ctx.seed, ctx.thorough)
    obs, dead = vp.run_rows(ctx, exe, rows)
    txt = lambda r: "".join(map(chr, r["inp"]))
    for r, why in dead: ctx.violation("crash", txt(r), dict(row=r, why=why))
    ctx.log(f"{len(obs)} texts observed")
    byid = {r["id"]: r for r in obs}
    # spread long and short texts over the chunks
    order = obs[:]; random.Random(1).shuffle(order)
    for i, tag, text in vp.tlc_judge(ctx, "TraceText", order):
        if tag in TAGS[ctx.prop]:
            ctx.violation(tag, json.dumps([txt(byid[i]), text.split(",\n")[0][:60]], ensure_ascii=False), dict(text=txt(byid[i]), what_expected_got=text))
    k = lambda f: sum(len(r["obs"][f]) for r in obs)
    ctx.extra.update(texts=len(obs), positions=k("pos"), spans=k("spans"), sub_ranges=k("gets"), merges=k("merges"), tags=sorted(TAGS[ctx.prop]))
    r0 = obs[min(len(obs) - 1, 40)]
    ctx.cov["samples"] = [dict(text=txt(r0), observed_positions=r0["obs"]["pos"][:2], observed_spans=r0["obs"]["spans"][:2])]
    return ctx.finish()
