"""Programs and inputs far larger than the sampled ones: many iterations, deep stacks, deep nesting, many rules, long lines.
Only programs are produced here; what they do is decided by spec/PegMachine.tla."""


def flat(x):
    """nodes of a nested tuple (op, *kids, dict)"""
    nodes = []

    def add(op, k=(), t=(), s="", lo=0, hi=0):
        nodes.append(dict(op=op, k=list(k), t=list(t), s=[ord(c) for c in s], lo=lo, hi=hi, c=op)); return len(nodes)
    rules = {}

    def put(x):
        if isinstance(x, str): return add("str", s=x)
        op = x[0]
        if op == "ref":
            if x[1] not in rules: rules[x[1]] = add("rule", [0], lo=x[1]); nodes[rules[x[1]] - 1]["k"] = [put(x[2]())] if len(x) > 2 else [0]
            return rules[x[1]]
        if op == "seq": ks = [put(y) for y in x[1:]]; return add("seq", ks, [0] * len(ks))
        if op == "tseq": t = put(x[1]); ks = [put(y) for y in x[2:]]; return add("seq", ks, [0] + [t] * (len(ks) - 1))
        if op == "cho": return add("cho", [put(y) for y in x[1:]])
        if op in ("opt", "pos", "neg", "push"): return add(op, [put(x[1])])
        if op == "rep": k = put(x[1]); t = put(x[4]) if len(x) > 4 else 0; return add("rep", [k], [t], lo=x[2], hi=x[3])
        if op == "rule": k = put(x[2]); return add("rule", [k], lo=x[1])
        if op == "ins": return add("ins", s=x[1])
        if op == "sl1": return add("sl1", lo=x[1])
        if op == "sl2": return add("sl2", lo=x[1], hi=x[2])
        if op == "rng": return add("rng", lo=ord(x[1]), hi=ord(x[2]))
        return add(op)
    root = put(x)
    return nodes, root


def star(x, *t): return ("rep", x, 0, -1) + t


def programs(sizes):
    for n in sizes:
        a = "a" * n
        # iterations
        yield star("a"), [a, a + "b"]
        yield ("rule", 1, star(("rule", 2, "a"), star(" "))), [" ".join(a), " ".join(a) + "  b"]
        for lo, hi in ((n, n), (n - 1, n + 1), (n + 1, -1), (0, n - 1), (n, -1), (1, n)):
            yield ("rule", 1, ("rep", "a", lo, hi)), [a, a[1:], a + "a"]
        yield star(("seq", ("rep", "a", 1, 3), "b")), ["aab" * (n // 3), "aab" * (n // 3) + "aa"]
        yield star(("cho", "b", ("rep", "a", 7, 7))), [a, a + "b" + a]
        # stack
        deep = ("rep", ("push", ("rng", "a", "c")), n, n)
        w = ("abc" * n)[:n]
        for tail, rest in ((("peekall",), w[::-1]), (("popall",), w[::-1]), (("sl1", 0), w), (("sl1", n - 2), w[-2:]), (("sl1", n), ""), (("sl1", n + 1), ""), (("sl1", -n), w), (("sl1", -n - 1), ""),
                           (("sl2", 3, n - 3), w[3:n - 3]), (("sl2", -3, -1), w[-3:-1]), (("sl2", n - 1, 2), ""), (("rep", ("pop",), n, n), w[::-1]), (star(("drop",)), ""),
                           (("seq", ("rep", ("drop",), n - 1, n - 1), ("peek",), ("pop",), ("opt", ("peek",))), w[0] * 2)):
            yield ("seq", deep, tail), [w + rest, w + rest[:-1] + "x"]
        # every stack change taken back
        yield ("seq", deep, ("opt", ("seq", ("rep", ("drop",), n, n), "x")), ("peekall",)), [w + w[::-1]]
        yield ("seq", deep, ("neg", ("seq", ("popall",), deep, "x")), ("cho", ("seq", ("rep", ("pop",), n // 2, n // 2), "x"), ("popall",))), [w + w[::-1]]
        # nesting
        d = min(n, 15)  # TLC's reader takes 255 levels of JSON; a level of recursion here is several of those
        a, m = "a" * d, 15
        yield ("ref", 1, lambda: ("seq", "a", ("opt", ("ref", 1)), "b")), [a + "b" * d, a + "b" * (d - 1), a + "b" * (d + 1)]
        yield ("ref", 1, lambda: ("cho", ("seq", "a", ("ref", 1)), ("rule", 2, "b"))), [a + "b", a + "c"]
        yield ("ref", 1, lambda: ("seq", ("push", "a"), ("cho", ("ref", 1), "b"), ("pop",))), [a + "b" + a, a + "b" + a[1:]]
        x = ("rule", 2, "b")
        for _ in range(30): x = ("neg", x)
        yield ("rule", 1, ("seq", "a", x)), ["ab", "aa"]
        x = "b"
        for i in range(24): x = ("rule", i + 3, ("seq", "a", x) if i % 2 else x)
        yield x, ["a" * 12 + "b", "a" * 13 + "b"]
        x = ("never",)
        for i in range(15): x = ("opt", ("seq", ("push", "a"), x))
        yield ("seq", x, ("popall",)), [a + a, a]
        # reports
        a = "a" * n
        yield ("rule", 1, ("seq", star("a"), ("cho", *(("rule", i + 2, "b") for i in range(m))))), [a + "c", a]
        yield ("rule", 1, ("seq", star("a"), *(("neg", ("rule", i + 2, "c")) for i in range(m)))), [a + "c", a]
        yield ("cho", *(("rule", 2 + i // 3, ("seq", star("a"), ("rule", 30 + i % 5, "b"))) for i in range(m))), [a + "c"]
        # lines
        s = "".join("abé"[: i % 4] + ("\r\n" if i % 5 == 0 else "\n") for i in range(n))
        yield ("rule", 1, ("seq", star(("cho", ("rng", "a", "é"), ("nl",))), ("rule", 2, "x"))), [s, s + "aéb", "é" * n + "\n" + "é日" * n]


def huge(n):
    """what may depend on how often something was done, far beyond what anybody would write down"""
    a, w, s = "a" * n, ("abc" * n)[:n], "\n" * n
    yield ("rule", 1, star(("cho", "b", ("rng", "a", "c")))), [a + "é"]
    yield ("seq", ("rep", ("rule", 1, "a"), 1, -1), ("rule", 2, "b")), [a + "b", a + "c"]
    deep = star(("push", ("rng", "a", "c")))
    yield ("seq", deep, "é", ("opt", ("seq", ("popall",), "x")), ("pop",), ("peekall",)), [w + "é" + w[::-1] + w[-2::-1], w + "é" + w[-1] + w[-2::-1]]
    yield ("seq", star(("seq", ("push", ("rng", "a", "c")), ("opt", ("seq", ("drop",), "x")))), "é", star(("pop",))), [w + "é" + w[::-1]]
    yield ("rule", 1, ("seq", star(("nl",)), "b", ("rule", 2, "c"))), [s + "bb"]


LONG = ["abc" * 5 + "ab", "abc" * 22, "@[`{", "é日😀" * 6, "abcdefghijklmnopqrstuvwxyz0123456789"]


def literals():
    """long literals: every character of them counts, and every case of every letter"""
    for s in LONG:
        n = len(s); o = {"@": "`", "`": "@", "[": "{", "{": "["}
        near = [s, s[:-1], s + "b", s.upper(), s.swapcase()] + [s[:i] + o.get(s[i], "b" if s[i] == "a" else "a") + s[i + 1:] for i in range(n)]
        near += [s[:i] + s[i].upper() + s[i + 1:] for i in range(n)] + [s[:i] for i in range(0, n, 5)]
        yield ("cho", s, ("seq", ("ins", s), "b"), ("ins", s)), near
        yield ("seq", ("push", s), ("peek",)), [s + x for x in near]


def cases(sizes, first):
    out = []
    for x, inputs in list(literals()) + list(programs([n for n in sizes if n < 200])) + [p for n in sizes if n >= 200 for p in huge(n)]:
        nodes, root = flat(x)
        for s in inputs:
            out.append(dict(id=first + len(out), prof="scale", inp=[ord(c) for c in s], chs=list(s), start=0, stk0=[], snaps=[], root=root, nodes=nodes))
    return out
