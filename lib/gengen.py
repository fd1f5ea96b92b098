"""Random grammar projects: texts of one or several grammar files and how they are given to the derive macro.
Only texts are produced here; what they mean is decided by spec/Link.tla and spec/PegMachine.tla."""
import re
import random

RULES = ["main", "item", "word", "num", "list", "pair", "value", "key", "row", "a", "b", "c", "d1", "_p", "x9", "expr", "term"]
ODD = ["type", "fn", "match", "struct", "loop", "Option", "Box", "Vec", "String", "Some", "None", "Result", "Rule", "Span", "rules", "generics", "wrapper", "any", "peek",
       "push", "drop", "str", "char", "usize", "bool", "Stack", "Position", "std", "core", "content", "span", "input", "i", "s", "res", "Self_", "dyn", "async", "use_", "__", "Clone", "Debug", "digit"]
PARAMS = ["x", "y", "z", "e", "sep", "t"]
MODS = ["m", "lib", "sub", "k1", "deep", "util"]
CLASSES = ["ascii_digit", "ascii_nonzero_digit", "ascii_bin_digit", "ascii_oct_digit", "ascii_hex_digit", "ascii_alpha_lower", "ascii_alpha_upper",
           "ascii_alpha", "ascii_alphanumeric", "ascii"]
UNI = ["alphabetic", "letter", "uppercase_letter", "han", "emoji", "decimal_number", "white_space", "lowercase", "math_symbol", "greek", "id_start", "punctuation"]
STRS = ["a", "b", "ab", "ba", "aa", "abc", "c", ",", ";", "(", ")", "é", "日", "x", "\n", "A", "bA", "aé", ""]
RANGES = [("a", "b"), ("a", "z"), ("0", "9"), ("é", "é"), ("b", "日"), ("A", "C"), ("b", "a"), ("\0", "\U0010ffff")]
BASE = dict(w=dict(str=9, ins=1, rng=2, cls=1, uni=.4, any=1, soi=.2, eoi=.3, nl=.3, ref=9, seq=9, cho=7, opt=3, rep=5, pos=.8, neg=.8, push=0, peek=0, pop=0,
                   drop=0, all=0, slice=0), rules=(2, 6), params=.3, silent=.2, trivia=.5, imports=0, builtin=.25, wide=.04, odd=.15, back=.25, sil_args=.4, spell=.2,
            split=0, files=.2, nullstr=.02, depth=3, variants=[()])
STK = dict(push=3, peek=2, pop=2, drop=1, all=1.5, slice=2)


def prof(w=None, **k):
    d = dict(BASE); d["w"] = dict(BASE["w"]); d["w"].update(w or {}); d.update(k)
    return d
PROFILES = {
    "gen": prof(STK, imports=.15, split=.1, variants=[()] * 9 + [('rules_mod = "pieces"',)]),
    "gentrivia": prof(dict(rep=9, ref=6), trivia=1, params=.15, imports=.15),
    "gentree": prof(dict(ref=14, seq=12, cho=9, opt=5, rep=7, pos=2), params=.3, rules=(3, 6), builtin=.35, push=1),
    "genpairs": prof(dict(ref=12, pos=2), silent=.45, imports=.3, rules=(3, 6)),
    "genlit": prof(dict(str=14, ins=7, rng=6, ref=4, slice=1, push=1), spell=1, rules=(1, 3), params=.1, depth=2),
    "genparams": prof(dict(ref=14), params=1, sil_args=.45, rules=(3, 7), imports=.12, back=.35),
    "genimports": prof(dict(ref=14), imports=1, rules=(2, 4), builtin=.5, odd=.2, files=.4, variants=[()] * 6 + [('rules_mod = "parts"',)]),
    "genbox": prof(dict(ref=13, opt=5, str=6), back=.8, params=.35, rules=(2, 6), imports=.15, trivia=.4,
                   variants=[(), ("box_rules_only_if_needed",), ("box_rules_only_if_needed = true", "no_getter"), ("no_getter",), ("box_rules_only_if_needed = false",)]),
    # rules that mostly refer to each other, with every boxing setting
    "gengraph": prof(dict(str=3, ref=30, seq=8, cho=8, opt=8, rep=2, pos=2, neg=2, ins=0, rng=0, cls=0, any=0), back=.9, rules=(3, 8), params=.5, sil_args=.35, silent=.3, trivia=.6,
                     builtin=0, odd=0, depth=2, variants=[("box_rules_only_if_needed",), ("box_rules_only_if_needed",), ("box_rules_only_if_needed", "no_getter"), ()]),
}
PROFILES.update({
    "genplain": prof(dict(seq=12, cho=12, opt=6, rep=1.5, pos=.3, neg=.3, ref=6), params=.15, trivia=.2, wide=.12),
    "genrep": prof(dict(rep=22, ref=5, seq=7, cho=5), params=.15, trivia=.8),
    "genlook": prof(dict(STK, pos=8, neg=8, push=4), params=.15, trivia=.3),
    "genback": prof(dict(STK, opt=9, cho=10, rep=7, push=5), params=.15, trivia=.3),
    "genstack": prof(dict(push=10, peek=5, pop=5, drop=3, all=4, slice=6, ref=6), params=.15, trivia=.2, builtin=.35),
    "genreport": prof(dict(ref=16, pos=3, neg=3, opt=5, peek=1, pop=1, drop=1, slice=1), params=.3, imports=.15, rules=(4, 8), depth=2),
    "genvalue": prof(dict(STK, rep=16, cho=12, ref=10, seq=8, opt=4, push=3, pos=2, neg=1.5, ins=4, rng=4), params=.3, trivia=.4, wide=.12, imports=.1),
    "genutf": prof(dict(STK, str=12, ins=4, rng=5), params=.1, spell=.6, rules=(1, 3)),
})
# every switch in every spelling, repeated and mixed with the sources; files beside the crate and in its src directory
SWITCHES = ["no_pair", "no_span", "no_warnings", "box_rules_only_if_needed", "no_getter"]


def switches(rng):
    out = []
    for s in SWITCHES:
        for _ in range(rng.choice([0, 0, 1, 1, 1, 2])): out.append(rng.choice([s, s, s + " = true", s + " = false"]))
    for _ in range(rng.choice([0, 0, 1, 1, 2])): out.append('rules_mod = "%s"' % rng.choice(["pieces", "rules", "rule", "r", "_x", "Parts", "g1", "main", "token", "typed"]))
    if rng.random() < .1: out.append(rng.choice(['doc = "x"', "allow(dead_code)"]))
    rng.shuffle(out)
    return out
BADATTRS = ['rules_mod = ""', 'rules_mod = "1a"', 'rules_mod = "a b"', 'rules_mod = "a-b"', 'rules_mod = "fn"', 'rules_mod = "a::b"', "rules_mod = true", "rules_mod", 'no_pair = "true"', "no_getter(true)", "no_span = 1",
            'box_rules_only_if_needed = "yes"', "no_warnings(x)", "grammar", "grammar = true", "grammar_inline", "grammar_inline = 1", 'grammar = "nowhere.pest"', 'grammar = "src/nowhere.pest"', 'rules_mod = "type"']
BADATTRS += [f % s for s in SWITCHES for f in ('%s = "yes"', "%s(x)", "%s = 1")] + ["rules_mod(x)", "grammar(x)", "grammar_inline(x)"]
PROFILES["genopts"] = prof(dict(STK, ref=12, opt=4), params=.25, imports=.4, split=.4, files=.6, silent=.3, rules=(2, 5), variants=switches, src=.4, mix=.35)
# many small files that import each other under several names; documentation everywhere
PROFILES["genfiles"] = prof(dict(ref=16), imports=1, rules=(1, 4), files=.8, split=.5, src=.3, mix=.35, modules=(1, 7), builtin=.1, wide=0, depth=1, trivia=.2)
PROFILES["gendocs"] = prof(imports=.5, rules=(1, 5), docs=1, split=.3, files=.5, params=.4, silent=.3, builtin=.2, wide=0, depth=1, variants=[()] * 3 + [('rules_mod = "doc"',), ("no_getter", "no_pair")])
POSTFIX = ("opt", "rep")


class Mod:
    def __init__(self): self.imports = []; self.rules = []; self.seen = {}; self.trivia = [False, False]


class Gen:
    def __init__(self, rng, p): self.r = rng; self.p = p; self.deep = 0

    # ---- expressions: (ast, may match nothing) -------------------------------
    def string(self):
        r = self.r
        if r.random() < self.p["nullstr"]: return ""
        if self.p["spell"] == 1 and r.random() < .5:
            return "".join(r.choice(["\n", "\r", "\t", "\0", "\\", '"', "'", "a", "b", "é", "日", "😀", "#", "\x7f", "{", "}", "Z", "z", "\u200b", "/"]) for _ in range(r.choice([1, 1, 2, 3])))
        return r.choice([s for s in STRS if s])

    def leaf(self, g):
        r = self.r; w = self.p["w"]
        ops = ["str", "ins", "rng", "cls", "uni", "any", "soi", "eoi", "nl", "ref", "peek", "pop", "drop", "all", "slice"]
        op = r.choices(ops, [w[o] for o in ops])[0]
        if op == "str": s = self.string(); return ("str", s), s == ""
        if op == "ins": s = self.string(); return ("ins", s), s == ""
        if op == "rng": return ("rng",) + r.choice(RANGES), False
        if op == "cls": return self.builtin(r.choice(CLASSES)), False
        if op == "uni": return self.builtin("unicode", r.choice(UNI)), False
        if op in ("any", "soi", "eoi"): return self.builtin(op), op != "any"
        if op == "nl": return self.builtin("newline"), False
        if op in ("peek", "pop", "drop"): return self.builtin("stack", op), True
        if op == "all": return self.builtin("stack", r.choice(["peek_all", "pop_all"])), True
        if op == "slice":
            f = lambda: r.choice([None, 0, 1, 2, -1, -2, 3, -3]) if r.random() < .9 else r.choice([7, -7])
            x = self.builtin("stack", "peek")
            return ("path", x[1], ("slice", f(), f())), True
        return self.ref(g)

    def builtin(self, *names):
        """a spelling of a built-in name"""
        full = ["pest"] + list(names)
        for alias, target in self.r.sample(self.aliases, len(self.aliases)):
            if full[:len(target)] == target and self.r.random() < .8: return ("path", [alias] + full[len(target):], None)
        return ("path", full, None)

    def ref(self, g):
        r = self.r
        c = [("param", n, None) for n in self.params] * 2
        for i, x in enumerate(self.mod.rules):
            if x["name"] in "~^": continue
            if i > self.at or g:
                if x["name"] not in self.params: c += [("rule", x["name"], x)] * (2 if i > self.at else 1)
        for path, x in self.foreign: c += [("far", path, x)]
        if not c: return ("str", r.choice("abc")), False
        kind, n, x = r.choice(c)
        if kind == "param": return ("path", [n], None), True
        path = [n] if kind == "rule" else list(n)
        if kind == "rule" and self.inlining and x["params"] and x["silent"] and self.mod.rules.index(x) <= self.at: return ("str", "b"), False
        args = None
        if x["params"]:
            # the same arguments when a rule applies itself: finitely many instances
            i = self.mod.rules.index(x) if kind == "rule" else -1
            if kind == "rule" and i <= self.at:
                if not self.free: return ("str", r.choice("abc")), False
                if self.params and i != self.at: return ("str", r.choice("abc")), False
                if i == self.at: args = [("path", [p], None) for p in self.params]
            if args is None: args = [self.arg(g) for _ in x["params"]]
            args = ("call", args)
        elif r.random() < .04: args = ("call", [])
        return ("path", path, args), x["null"]

    def arg(self, g):
        r = self.r; x = r.random()
        self.deep += 1
        try:
            if self.deep > 2: return ("path", [r.choice(self.params)], None) if self.params and x < .5 else ("str", r.choice("abc"))
            if x < .45: return self.leaf(g)[0]
            return self.expr(min(1, self.p["depth"]), g)[0]
        finally: self.deep -= 1

    def expr(self, d, g):
        r = self.r; w = self.p["w"]
        if d <= 0 or r.random() < .12: return self.leaf(g)
        ops = ["seq", "cho", "opt", "rep", "pos", "neg", "push"]
        op = r.choices(ops + ["leaf"], [w[o] for o in ops] + [w["ref"] * .7])[0]
        if op == "leaf": return self.leaf(g)
        if op == "seq":
            n = r.randint(9, 21) if r.random() < self.p["wide"] else r.choice([2, 2, 2, 3, 3, 4])
            items, null = [], True
            for i in range(n):
                x, z = self.expr(d - 1 if n < 6 else 0, g)
                items.append(x); null = null and z; g = g or not z
            ts = [self.triv() for _ in range(n - 1)]
            if n >= 9: items, ts = items, ts
            return self.nest("seq", items, ts), null
        if op == "cho":
            n = r.randint(9, 21) if r.random() < self.p["wide"] else r.choice([2, 2, 2, 3, 3, 4])
            xs = [self.expr(d - 1 if n < 6 else 0, g) for _ in range(n)]
            return self.nest("cho", [x for x, _ in xs], None), any(z for _, z in xs)
        x, z = self.expr(d - 1, g)
        if op == "rep":
            b = r.choice([(0, None), (0, None), (1, None), (1, None), (None, 2), (2, None), (1, 2), (0, 3), (2, 2), (3, 3), (None, None), (None, 1), (0, 1), (2, 3)])
            if z and b[1] is None: b = r.choice([(None, 2), (1, 2), (0, 1), (2, 2)])
            return ("rep", x, b, self.triv() if r.random() < .5 else "-", r.random()), z or not b[0]
        if op == "push":
            y = self.builtin("stack", "push")
            return ("path", y[1], ("call", [x])), z
        return (op, x), op != "push"

    def nest(self, op, items, ts):
        """right-nested mostly; now and then grouped elsewhere"""
        if len(items) == 1: return items[0]
        k = 1 if len(items) < 3 or self.r.random() < .8 else self.r.randint(2, len(items) - 1)
        l, r_ = items[:k], items[k:]
        if op == "seq": return ("seq", self.nest(op, l, ts[:k - 1]), self.nest(op, r_, ts[k:]), ts[k - 1])
        return ("cho", self.nest(op, l, None), self.nest(op, r_, None))

    def triv(self):
        c = ["-"] + (["~", "~"] if self.mod.trivia[0] else []) + (["^"] if self.mod.trivia[1] else [])
        return self.r.choice(c)

    # ---- modules -------------------------------------------------------------
    def names(self, n, taken):
        r = self.r; out = []
        while len(out) < n:
            x = r.choice(ODD) if r.random() < self.p["odd"] else r.choice(RULES)
            if x not in out and x not in taken: out.append(x)
        return out

    def module(self, foreign, nrules=None):
        """foreign: [(alias, Mod, path names, file)]"""
        r = self.r; p = self.p; m = Mod(); self.mod = m
        self.aliases = []; self.foreign = []
        for alias, fm, names, file in foreign:
            m.imports.append((alias, names, file)); m.seen[alias] = fm
            def see(pre, fm):
                for x in fm.rules:
                    if x["name"] in "~^" or (x["silent"] and x["params"] and x["trivial"]): continue
                    self.foreign.append((pre + [x["name"]], x))
                for a, f2 in fm.seen.items(): see(pre + [a], f2)
            see([alias], fm)
        taken = [x[0] for x in m.imports]
        while r.random() < p["builtin"]:
            t = r.choice([["pest", "stack"], ["pest", "unicode"], ["pest", "stack", "peek"], ["pest", "stack", "push"], ["pest", "any"], ["pest", "ascii_digit"], ["pest"],
                          ["pest", "unicode", "letter"], ["pest", "stack", "pop_all"], ["pest", "newline"]])
            a = r.choice([t[-1], t[-1], "st", "u9", "zz", "any", "pop", "peek", "soi", "stack", "unicode", "letter", "newline", "main"])
            if t == ["pest"]: a = "q"
            if a in taken: continue
            taken.append(a); self.aliases.append((a, t)); m.imports.append((a, t, None))
        if r.random() < p["trivia"]:
            m.trivia = r.choice([[True, False], [True, False], [True, True], [False, True]])
        n = nrules or r.randint(*p["rules"])
        for x in self.names(n, taken):
            ps = []
            if r.random() < p["params"] * .6:
                k = r.choice([1, 1, 2, 2, 3])
                pool = PARAMS + (m.rules and [y["name"] for y in m.rules if not y["params"]] or []) * (r.random() < .15)
                ps = r.sample(sorted(set(pool)), k)
            sil = r.random() < (p["sil_args"] if ps else p["silent"])
            m.rules.append(dict(name=x, params=ps, silent=sil, null=True, expr=None, trivial=False))
        if m.rules and m.rules[0]["params"] and r.random() < .8: m.rules[0].update(params=[], silent=False)
        names = {x["name"] for x in m.rules}
        # a parameter must not capture a name used by a silent body
        if any(x["silent"] and x["params"] for x in m.rules):
            for x in m.rules:
                if set(x["params"]) & names: x["params"] = PARAMS[:len(x["params"])]
        for x in m.rules:        # a parameter named like an import or a rule of it is fine, like a silent body's name is not
            if set(x["params"]) & set(taken): x["params"] = PARAMS[:len(x["params"])]
        m.rules = [x for x in m.rules if not (x["params"] and x["name"] in PARAMS)]
        free0 = p["back"]
        for i in reversed(range(len(m.rules))):
            x = m.rules[i]; self.at = i; self.params = x["params"]; self.free = r.random() < free0
            self.inlining = bool(x["params"] and x["silent"])
            x["expr"], x["null"] = self.body(x)
        for k, t in enumerate("~^"):
            if m.trivia[k]: self.trivium(t, k)
        # anything that uses trivia directly
        for x in m.rules: x["trivial"] = uses_trivia(x["expr"])
        pasted = {x["name"]: x for x in m.rules if x["silent"] and x["params"]}      # or pastes one that does
        for _ in pasted:
            for x in pasted.values(): x["trivial"] = x["trivial"] or any(y["trivial"] and mentions(x["expr"], n, x["name"]) for n, y in pasted.items())
        r.shuffle(m.rules) if r.random() < .3 else None
        return m

    def size(self, x, env, d=0):
        """size after the silent rules with parameters are unfolded"""
        if d > 12: return 1000
        if x[0] == "path":
            if len(x[1]) == 1 and x[1][0] in env: return env[x[1][0]]
            n = 1
            args = [self.size(a, env, d) for a in kids(x)]
            y = next((y for y in self.mod.rules if [y["name"]] == x[1]), None) or next((y for q, y in self.foreign if list(q) == x[1]), None)
            if y and y["silent"] and y["params"] and y["expr"]: return self.size(y["expr"], dict(zip(y["params"], args)), d + 1)
            return 1 + sum(args)
        t = 1
        for k in kids(x):
            t += self.size(k, env, d)
            if t > 2000: break
        return t

    def body(self, x):
        r = self.r
        for _ in range(20):
            e, z = self.expr(r.choice([0, 1, 1, 2, 2, 3][: self.p["depth"] * 2]) if not x["params"] else 2, False)
            if self.size(e, {}) > 250: e, z = ("str", "b"), False
            missing = [q for q in x["params"] if not mentions(e, q, x["name"])]
            if missing:
                items = [e] + [("path", [q], None) for q in missing]
                r.shuffle(items)
                e, z = self.nest("seq", items, [self.triv() for _ in items[1:]]), z
            return e, z
        return e, z

    def trivium(self, t, k):
        r = self.r; m = self.mod
        sp = r.choice([("str", " "), ("cho", ("str", " "), ("str", "\n")), ("rng", " ", " ")])
        many = ("rep", sp, r.choice([(0, None), (1, None)]) if k == 0 else (1, None), "-", .5)
        x = r.random()
        if x < .6: e = many
        elif x < .7: e = sp
        elif x < .85:
            n = "ws" if k == 0 else "gap"
            m.rules.append(dict(name=n, params=[], silent=r.random() < .5, null=True, expr=many, trivial=False))
            e = ("path", [n], None)
        elif x < .93 and k == 0:
            m.rules.append(dict(name="comment", params=[], silent=r.random() < .4, null=False, trivial=False,
                                expr=("seq", ("str", "#"), ("rep", ("str", "x"), (0, None), "-", .5), "-")))
            e = ("rep", ("cho", sp, ("path", ["comment"], None)), (0, None), "-", .5)
        else: e = ("opt", sp)
        m.rules.append(dict(name=t, params=[], silent=r.random() < .2, null=True, expr=e, trivial=False))


def kids(x):
    if x[0] in ("seq", "cho"): return [x[1], x[2]]
    if x[0] in ("opt", "rep", "pos", "neg"): return [x[1]]
    if x[0] == "path" and x[2] and x[2][0] == "call": return x[2][1]
    return []
def mentions(x, q, me=None):
    if x[0] == "path" and x[1] == [me]: return False       # a parameter handed on to the rule itself alone says nothing
    return (x[0] == "path" and x[1] == [q]) or any(mentions(k, q, me) for k in kids(x))
def uses_trivia(x):
    return (x[0] == "seq" and x[3] != "-") or (x[0] == "rep" and x[3] != "-") or any(uses_trivia(k) for k in kids(x))


class Printer:
    def __init__(self, rng, p): self.r = rng; self.p = p

    def lit(self, s, q):
        r = self.r; out = ""
        for c in s:
            o = ord(c); must = c in "\\" + q or c in "\r\0"
            ways = ["\\u{%x}" % o, "\\u{%06X}" % o] + (["\\x%02x" % o] if o < 128 else [])
            short = {"\n": "\\n", "\r": "\\r", "\t": "\\t", "\0": "\\0", "\\": "\\\\", '"': '\\"', "'": "\\'"}.get(c)
            if short: ways += [short] * 3
            out += r.choice(ways) if must or r.random() < self.p["spell"] * .5 else c
        return q + out + q

    def e(self, x, lvl=0):
        s, own = self.bare(x)
        if own < lvl or (self.r.random() < .06): return "(" + s + ")"
        return s

    def bare(self, x):
        r = self.r; op = x[0]
        if op == "str":
            s = x[1]
            if r.random() < self.p["spell"] * .25 and not any(c in '"#\r' for c in s):
                h = "#" * r.choice([0, 0, 1, 2]); return f'r{h}"{s}"{h}', 4
            return self.lit(s, '"'), 4
        if op == "ins": return "i" + self.lit(x[1], '"'), 4
        if op == "rng": return self.lit(x[1], "'") + ".." + self.lit(x[2], "'"), 4
        if op == "path":
            s = "::".join(x[1])
            if x[2] and x[2][0] == "call": s += "(" + ", ".join(self.e(a) for a in x[2][1]) + ("," if x[2][1] and r.random() < .1 else "") + ")"
            if x[2] and x[2][0] == "slice":
                f = lambda v: "" if v is None else ("+" if v >= 0 and r.random() < .1 else "") + str(v)
                s += f"[{f(x[2][1])}..{f(x[2][2])}]"
            return s, 4
        if op == "seq": return f"{self.e(x[1], 2)} {x[3]} {self.e(x[2], 1)}", 1
        if op == "cho": return f"{self.e(x[1], 1)} | {self.e(x[2], 0)}", 0
        if op in ("pos", "neg"): return ("&" if op == "pos" else "!") + self.e(x[1], 2), 2
        if op == "opt": return self.e(x[1], 3) + "?", 3
        lo, hi = x[2]; t = "" if x[3] == "-" else x[3]
        if (lo, hi) == (0, None) and x[4] < .9: b = "*"
        elif (lo, hi) == (1, None) and x[4] < .9: b = "+"
        elif lo == hi and lo is not None and x[4] < .8: b = "{%d}" % lo
        else: b = "{%s..%s}" % ("" if lo is None else lo, "" if hi is None else hi)
        return self.e(x[1], 3) + t + b, 3

    def module(self, m):
        r = self.r; out = []
        docs = self.p.get("docs", 0)
        if docs:
            for _ in range(r.choice([0, 0, 1, 2, 3])): out.append("//!" + doc(r) + r.choice(["", "", "\n", "\n// c", "\n /* c */"]))
        elif r.random() < .1: out.append("//! a grammar")
        for alias, names, file in m.imports:
            s = "use " + "::".join(names)
            if file: s += f' in "{file}"'
            if alias != names[-1]: s += f" as {alias}"
            out.append(s)
        for x in m.rules:
            if docs:
                for _ in range(r.choice([0, 0, 1, 1, 2, 4])): out.append("///" + doc(r) + r.choice(["", "", "", "\n", "\n// c", "\n/* /// */"]))
            elif r.random() < .08: out.append("/// doc " + x["name"])
            ps = f"({', '.join(x['params'])})" if x["params"] else ""
            b = self.e(x["expr"])
            if x["silent"]: b = r.choice(["_ { %s }", "_{%s}", "_ %s"]) % b if not b.startswith("_") or True else b
            elif r.random() < .1: b = "{ %s }" % b
            out.append(f"{x['name']}{ps} = {b}")
        return "\n".join(out) + "\n"


def doc(r):
    """a line of documentation"""
    return r.choice(["", " ", "  ", " /", "!", " !"]) + "".join(r.choice(["a", "Rule", " ", "é", "日", "😀", '"', "'", "\\", "\\n", "{", "}", "#", "/", "*", "/*", "*/", "//", "///", "\t", "\r", "$", "`x`", "]", "<b>", "\u3000"]) for _ in range(r.choice([0, 1, 1, 2, 3, 5])))


def project(rng, p, pid, base, spoil=None):
    """One project: dict(id, files=[{path, full, text}], roots, given=[(kind, value)], flags). Files live in directory p<pid> of base."""
    g = Gen(rng, p); pr = Printer(rng, p)
    d = f"p{pid}"; files = []
    top = ["src"] if rng.random() < p.get("src", 0) else []
    victim = rng.choice([-1, -1, 0, 1]) if spoil else None       # which module gets the fault; -1: the root
    def cps(s): return [ord(c) for c in s]
    def put(path, m):
        files.append(dict(path=path, full=cps(base + "/" + "/".join(path) + ".pest"), text=pr.module(m)))
        return len(files)
    rootdir = []                      # where the root text stands
    in_file = rng.random() < p["files"]
    if in_file: rootdir = top + [d] + rng.choice([[], [], [], ["s"], ["s", "t"], ["u", "v", "w"]])
    known = []                        # (path of file, Mod), imported ones first
    if rng.random() < p["imports"]:
        for k in range(rng.choice([1, 1, 2, 2, 3]) if "modules" not in p else rng.randint(*p["modules"])):
            sub = rng.choice([[], [], ["s"], ["s", "t"], ["u", "v"]])
            path = top + [d] + sub + [rng.choice(MODS) + str(k)]
            m = g.module(pick(rng, known, path[:-1], base, .5))
            if victim == k: spoil(rng, m, [path[-1:]])            # possibly an import of itself
            put(path, m); known.append((path, m))
            if spoil and rng.random() < .06: files[-1]["text"] += rng.choice([" =", '"', "x = (", "use", "a = 'b'..", "/*"])
    if spoil and len(known) > 1 and rng.random() < .3:            # an earlier file imports a later one
        i, j = sorted(rng.sample(range(len(known)), 2)); a, b = known[i][0], known[j][0]
        k = 0
        while k < min(len(a), len(b)) - 1 and a[k] == b[k]: k += 1
        use = "use " + "::".join(["super"] * (len(a) - 1 - k) + b[k:]) + " as cyc\n"
        t = files[i]["text"]; h = t.index("\n") + 1 if t.startswith("//!") else 0
        files[i]["text"] = t[:h] + use + t[h:]
    imps = pick(rng, known, rootdir, base, 1)
    root = g.module(imps)
    if spoil and not (victim is not None and 0 <= victim < len(known)): spoil(rng, root, [q[-1:] for q, _ in known])
    calls = [] if spoil else applications(rng, root)
    given = []; roots = []
    parts = [root]
    if p["split"] and rng.random() < p["split"] and len(root.rules) > 1:   # the rules spread over several texts
        n = 2 if len(root.rules) == 2 or rng.random() < .6 else rng.randint(3, min(4, len(root.rules)))
        cut = [0] + sorted(rng.sample(range(1, len(root.rules)), n - 1)) + [len(root.rules)]
        imp = [0] + sorted(rng.randint(0, len(root.imports)) for _ in range(n - 1)) + [len(root.imports)]
        parts = []
        for k in range(n):
            a = Mod(); a.rules = root.rules[cut[k]:cut[k + 1]]; a.imports = root.imports[imp[k]:imp[k + 1]]; parts.append(a)
    for k, m in enumerate(parts):
        if in_file and not (len(parts) > 1 and not m.imports and rng.random() < p.get("mix", 0)):
            path = rootdir + [f"root{k}"]; roots.append(put(path, m)); given.append(("file", "/".join(path[len(top):]) + ".pest"))
            if "src" in p and not top and rng.random() < .3: files.append(dict(path=["src"] + path, full=cps(base + "/src/" + "/".join(path) + ".pest"), text='decoy = "z"\n'))
        else:
            roots.append(put(["_"], m)); given.append(("inline", files[-1]["text"]))
    for f in files:
        if f["path"] == ["_"]: f["full"] = []
    if not callable(p["variants"]): return dict(id=pid, files=files, roots=roots, given=given, calls=calls, flags=list(rng.choice(p["variants"])))
    flags = p["variants"](rng)
    order = list(range(len(given) + len(flags))); rng.shuffle(order)
    return dict(id=pid, files=files, roots=roots, given=given, calls=calls, flags=flags, order=order)


def applications(rng, m):
    """rules of a module applied to its rules by the program itself: pair::<string, string>"""
    plain = [x["name"] for x in m.rules if not x["params"] and x["name"] not in ("~", "^")]
    gen = [x for x in m.rules if x["params"] and not x["silent"]]
    if not plain or not gen: return []
    def one(x, d):
        inner = [y for y in gen if d and len(y["params"]) < 3]
        return dict(name=x["name"], args=[one(rng.choice(inner), 0) if inner and rng.random() < .2 else dict(name=rng.choice(plain), args=[]) for _ in x["params"]])
    out = []
    for x in gen:
        for _ in range(rng.choice([0, 1, 1, 2])):
            c = one(x, 1)
            if c not in out: out.append(c)
    return out


def misgiven(rng, pid, base):
    """a project with an attribute that says nothing, or no grammar"""
    q = project(rng, dict(PROFILES["genopts"], imports=0, rules=(1, 2)), pid, base)
    if rng.random() < .1: q["given"] = []; q["roots"] = []
    else: q["flags"] = q["flags"] + [rng.choice(BADATTRS)]
    q["order"] = list(range(len(q["given"]) + len(q["flags"]))); rng.shuffle(q["order"])
    return q


def pick(rng, known, here, base, prob):
    """imports of some known modules, as written in a file of directory here"""
    out = []; taken = set()
    for path, m in rng.sample(known, len(known)):
        if rng.random() >= prob: continue
        alias = path[-1] if rng.random() < .6 else rng.choice(["im", "zed", "other", "w2"])
        if alias in taken: continue
        taken.add(alias)
        if rng.random() < .12:
            out.append((alias, [rng.choice(["any_name", path[-1]])], base + "/" + "/".join(path) + ".pest")); continue
        k = 0
        while k < len(here) and k < len(path) - 1 and here[k] == path[k]: k += 1
        names = ["super"] * (len(here) - k) + path[k:]
        for j in range(len(names)):       # down another way and up again
            if rng.random() < .06:
                q = find(known, here, names[:j], None, base)
                side = sorted({p2[len(q)] for p2, _ in known if len(p2) > len(q) + 1 and p2[:len(q)] == q})
                if side: names[j:j] = [rng.choice(side), "super"]
        out.append((alias, names, None))
    return [(a, m2, n, f) for (a, n, f), m2 in zip(out, [dict((tuple(q), mm) for q, mm in known)[tuple(find(known, here, n, f, base))] for a, n, f in out])]


def find(known, here, names, file, base):
    for path, _ in known:
        if file and file == base + "/" + "/".join(path) + ".pest": return path
    q = list(here)
    for n in names:
        if n == "super": q.pop()
        else: q.append(n)
    return q


# ---- projects with one fault --------------------------------------------------
def paths(x): return [x] * (x[0] == "path") + [q for k in kids(x) for q in paths(k)]


def swap(x, old, new):
    """x with the (very) node old replaced"""
    if x is old: return new
    if x[0] in ("seq", "cho"): return x[:1] + (swap(x[1], old, new), swap(x[2], old, new)) + x[3:]
    if x[0] in ("opt", "rep", "pos", "neg"): return x[:1] + (swap(x[1], old, new),) + x[2:]
    if x[0] == "path" and x[2] and x[2][0] == "call": return ("path", x[1], ("call", [swap(a, old, new) for a in x[2][1]]))
    return x


WRONG = [["pest", "anny"], ["pest", "stack"], ["pest", "stack", "psh"], ["pest", "unicode", "nope"], ["pest"], ["pest", "any", "x"], ["pest", "unicode"], ["peek"], ["soi"],
         ["pest", "stack", "peek", "x"], ["stack", "pop"], ["nosuch"], ["nosuch", "main"], ["a", "b"], ["super", "a"], ["pest", "peek"], ["pest", "PEEK"], ["ASCII_DIGIT"], ["any"]]


FAULTS = ["name", "name", "args", "args", "trivia", "twice", "import", "alias", "silent", "slice", "wrap", "none"]


def spoil(rng, m, r, faults=FAULTS):
    """one fault in module m; r: the other file names around"""
    x = rng.choice(m.rules)
    ps = [q for q in paths(x["expr"])]
    kind = rng.choice(faults)
    if kind == "name":
        new = ("path", rng.choice(WRONG), None)
        if ps: x["expr"] = swap(x["expr"], rng.choice(ps), new)
        else: x["expr"] = ("cho", x["expr"], new)
    elif kind == "wrap":      # the fault deep in arguments, repetitions and lookaheads
        e = ("path", rng.choice(WRONG), None)
        for _ in range(rng.randint(1, 4)):
            e = rng.choice([lambda e: ("opt", e), lambda e: ("neg", e), lambda e: ("rep", e, (0, None), "-", .5), lambda e: ("seq", ("str", "a"), e, "-"),
                            lambda e: ("cho", e, ("str", "b")), lambda e: ("path", ["pest", "stack", "push"], ("call", [e]))])(e)
        x["expr"] = ("seq", x["expr"], e, "-")
    elif kind == "args":
        q = rng.choice(ps) if ps else None
        if q is None: x["expr"] = ("path", ["pest", "any"], ("call", [("str", "a")])); return
        args = list(q[2][1]) if q[2] and q[2][0] == "call" else []
        if args and rng.random() < .6: args.pop(rng.randrange(len(args)))
        else: args.insert(0, ("str", "a"))
        x["expr"] = swap(x["expr"], q, ("path", q[1], ("call", args) if args else None))
    elif kind == "slice":
        q = rng.choice(ps) if ps else x["expr"]
        if q[0] == "path": x["expr"] = swap(x["expr"], q, ("path", q[1], ("slice", rng.choice([0, 1, None]), rng.choice([1, None]))))
    elif kind == "trivia":
        t = rng.choice("~^")
        m.rules = [y for y in m.rules if y["name"] != t] or m.rules
        x["expr"] = rng.choice([("seq", x["expr"], ("str", "b"), t), ("rep", ("str", "a"), (1, None), t, .5), ("opt", ("rep", ("str", "a"), (0, 3), t, .5))])
    elif kind == "twice":
        y = dict(rng.choice(m.rules)); y["params"] = []; y["expr"] = ("str", "b")
        m.rules.insert(rng.randint(0, len(m.rules)), y)
    elif kind == "alias":
        if m.imports and rng.random() < .6:
            i = rng.choice(m.imports)
            if rng.random() < .5: m.imports.append((i[0], ["pest", "any"], None))
            else: m.rules.append(dict(name=i[0], params=[], silent=False, null=False, trivial=False, expr=("str", "a")))
        else: m.imports += [("any", ["pest", "any"], None)] * 2
    elif kind == "import":
        m.imports.append(("nn", rng.choice(WRONG + [["nofile"], ["s", "nofile"], ["super", "nofile"]] + r), None) if rng.random() < .8 else ("nn", ["x"], "/nonexistent/x.pest"))
    elif kind == "silent":
        m.rules.append(dict(name="tw", params=["x"], silent=True, null=False, trivial=False,
                            expr=rng.choice([("seq", ("path", ["x"], None), ("path", ["tw"], ("call", [("path", ["x"], None)])), "-"),
                                             ("cho", ("path", ["x"], None), ("path", ["tv"], ("call", [("path", ["x"], None)]))), ("path", ["x"], None)])))
        m.rules.append(dict(name="tv", params=["y"], silent=rng.random() < .7, null=False, trivial=False,
                            expr=("seq", ("str", "("), ("opt", ("path", ["tw"], ("call", [("path", ["y"], None)]))), "-")))
        x["expr"] = ("cho", x["expr"], ("path", [rng.choice(["tw", "tv"])], ("call", [("str", "a")])))


def broken(rng, pid, base, faults=FAULTS, imports=.6):
    """a project with a fault in one of its modules, or in how they import each other"""
    p = dict(PROFILES["gen"], imports=imports, rules=(1, 3), builtin=.2, wide=0, files=.4, params=.4)
    return project(rng, p, pid, base, lambda rng, m, r: spoil(rng, m, r, faults))


OFFENCES = ['"\\x80"', '"a\\u{d800}b"', 'i"\\u{110000}"', "'a'..'\\xff'", "'\\u{dfff}'..'z'", "b{0}", "b{..0}", "b{3..1}", "b{99999999999999999999}", "b[99999999999999999999..]", "b[..-9223372036854775809]", "(b | c{2..1})*", 'b(c, d{0})', '!"é\\x80"', "'a'..\n  '\\u{110000}'", "'é' // c\n..\n '\\xff'",
            "b{1..\n 99999999999999999999}", "b{ /* é */\n 3..1}", "b[1..\r\n-99999999999999999999]", "b{\n99999999999999999999\n..2}", "c(\n'b'..\n'\\x80')", '"a" -\n "é" | i"\n\\u{d800}"']
STUCK = [" =", '"', "x = (", "use", "use ", "a = 'b'..", "/*", "a(b = c", "a(b c) = d", "a = b |", "a = b ~ ", "a b", "a = {b", "a = b[1]", "a = b{1,2}", "a = %", "a = b %", "a = é", "a = _", "1 = a", "/// x", "a = b }", "use pest as", "use pest::", "a = b c", "a = i'x'", 'a = "b" $ c', "a = (b c)"]


def misread(rng, pid, base):
    """a fault in the text of the project, at the end of a chain of imports"""
    import gengrammar as gg
    d = f"p{pid}"; depth = rng.choice([0, 0, 1, 1, 2, 3, 4])
    path = []; texts = []
    for k in range(depth + 1):
        path.append([d] + rng.choice([[], [], ["s"], ["s", "t"], ["u", "v"]]) + [rng.choice(MODS) + str(k)])
    inline = rng.random() < .3
    side = [d, "side"]; usesside = False
    here = lambda k: [] if k == 0 and inline else path[k][:-1]
    def filler(k):
        return rng.choice(["", "\n", "// é日😀\n", "/* a\n b */ ", "\r\n", f"k{k}{rng.randrange(1000)} = \"é\" - 'a'..'😀'\n", f"q{k}{rng.randrange(1000)} = pest::any", "  ", "\t", "// use a = b\r\n"])
    def use(k, to, tail=""):
        h = here(k); n = 0
        if rng.random() < .15: return "use " + rng.choice([to[-1], "some::thing"]) + f' in "{base}/{"/".join(to)}.pest"' + rng.choice([" as al", ""]) + tail
        while n < len(h) and n < len(to) - 1 and h[n] == to[n]: n += 1
        names = ["super"] * (len(h) - n) + to[n:]
        return "use " + rng.choice(["", " ", "/* c */"]) + rng.choice(["::", "::", " :: ", "::\n"]).join(names) + rng.choice(["", " as al" + str(k)]) + tail
    for k in range(depth + 1):
        t = rng.choice(["", "", "//! é doc\n", "//! x\r\n//! y\n"]) + "".join(filler(k) + rng.choice(["", "\n"]) for _ in range(rng.choice([0, 0, 1, 2, 3])))
        if rng.random() < .25: t += "\n" + use(k, side) + "\n"; usesside = True
        if k < depth:
            t += "\n" * (rng.random() < .7) + rng.choice(["", "  ", "\t", "/* 日 */ "]) + use(k, path[k + 1], rng.choice(["\n", "\r\n", " // c\n"]))
            t += "".join(filler(k) + "\n" for _ in range(rng.choice([0, 1, 2]))) + f"main{k} = \"a\"\n"
            if rng.random() < .12: t += f"bad{k} = " + rng.choice(OFFENCES) + "\n"
        else:
            x = rng.random()
            if x < .2:
                junk = gg.corrupt(rng, gg.module(rng, rules=rng.choice([1, 2])))
                t += "\n" + re.sub(r"[0-9]{9,}", "7", junk)          # numbers TLC can count with
            elif x < .45: t += "".join(f'r{i} = "x"\n' for i in range(rng.choice([0, 1, 2]))) + rng.choice(STUCK) + rng.choice(["", "", "\n", "\nz = y\n"])
            elif x < .7: t += "b = \"é\" c = b\n" * (rng.random() < .5) + f"bad = " + rng.choice(["", "b - ", '"日" | ', "(b ~ c) ^ "]) + rng.choice(OFFENCES) + rng.choice(["", "\nz = y\n"])
            elif x < .85: t += rng.choice(["a = b\n", ""]) + "use " + rng.choice(["nofile", "super::nofile", "s::nofile", "x in \"/nonexistent/é.pest\"", "x in \"/nonexistent/y.pest\" as q"]) + rng.choice(["\n", " as z\n"])[:(1 if "in" in t[-40:] else None)] + "a = b\n"
            else: t += rng.choice(["a = b\n", ""]) + use(k, rng.choice(path[(1 if inline else 0):] or [side])) + "\na = b\n"
        texts.append(t)
    cps = lambda s: [ord(c) for c in s]
    full = lambda q: cps(base + "/" + "/".join(q) + ".pest")
    files = [dict(path=["_"] if k == 0 and inline else path[k], full=[] if k == 0 and inline else full(path[k]), text=t) for k, t in enumerate(texts)]
    if usesside or rng.random() < .1: files.append(dict(path=side, full=full(side), text='x = "a"\n'))
    else: files.append(dict(path=side, full=full(side), text=rng.choice(['x = "a"\n', "x = {0}"])))
    given = [("inline", texts[0])] if inline else [("file", "/".join(path[0]) + ".pest")]
    roots = [1]
    if rng.random() < .15:       # another text before it, or after it
        files.append(dict(path=["_"], full=[], text="extra = 'a'..'é'\n"))
        at = rng.choice([0, 1]); given.insert(at, ("inline", files[-1]["text"])); roots.insert(at, len(files))
    return dict(id=pid, files=files, roots=roots, given=given, calls=[], flags=[], told="text")


def trivia_of_inlined(rng, pid, base):
    """an imported silent rule with parameters that skips trivia (a known finding: the importing grammar's trivia is skipped)"""
    d = f"p{pid}"
    texts = {("inner",): 'pair(a, b) = _ { a ~ b }\n~ = "+"\n', ("root0",): 'use inner\nmain = inner::pair("x", "y")\n~ = "-"\n'}
    files = [dict(path=[d] + list(q), full=[ord(c) for c in "/".join([base, d] + list(q)) + ".pest"], text=t) for q, t in texts.items()]
    return dict(id=pid, files=files, roots=[2], given=[("file", f"{d}/root0.pest")], flags=[], inputs=["x+y", "x-y", "xy"])


# ---- grids: every value of one dimension, as grammars through the macro ----------
def grid(rules, inputs, flags=(), head=""):
    """a project given inline; rules: name -> body; every rule is run on every input (or on inputs[name])"""
    text = head + "".join(f"{n} = {b}\n" for n, b in rules.items())

    def make(rng, pid, base):
        return dict(id=pid, files=[dict(path=["_"], full=[], text=text)], roots=[1], given=[("inline", text)], flags=list(flags), every=True, inputs=inputs)
    return make


def parts(items, n): return [dict(items[i:i + n]) for i in range(0, len(items), n)]


BOUNDS = ["*", "+", "{1}", "{2}", "{3}", "{..}", "{0..}", "{1..}", "{2..}", "{4..}", "{..1}", "{..2}", "{..5}", "{0..3}", "{1..2}", "{1..3}", "{2..2}", "{2..5}", "{3..4}"]


def bounds():
    out = []
    for k, op in enumerate(["", "~", "^"]):
        rules = {f"r{i}": f'"a"{op}{b}' for i, b in enumerate(BOUNDS)}
        rules.update({f"n{i}": f'("a"{op}{b} - "c"){op}{{2..3}} - "b"' for i, b in enumerate(["*", "{2}", "{1..2}", "{..2}"])})
        runs = [s * n for n in range(8) for s in ("a",)] + [" ".join("a" * n) + t for n in range(2, 7) for t in ("", " ", " b", "b")] + ["a  a a", "aa a aaa", " aa"]
        nest = ["aac aacb", "acac b", "aacaacb", "cccb", "ccb", "a ac aacb", "aac", "aacaac", "a a c a a c a a cb"]
        out.append(grid(rules, {n: (runs if n[0] == "r" else nest) for n in rules}, head='~ = " "*\n^ = " "+\n'))
    return out


def slices():
    vals = [None, -4, -3, -2, -1, 0, 1, 2, 3, 4]
    f = lambda v: "" if v is None else str(v)
    items = [(f"s{i}_{j}", f'pest::stack::push("a") - pest::stack::push("b") - pest::stack::push("c") - pest::stack::peek[{f(a)}..{f(b)}]')
             for i, a in enumerate(vals) for j, b in enumerate(vals)]
    inputs = ["abc" + t for t in ("abc", "ab", "bc", "a", "b", "c", "x")]
    return [grid(q, inputs) for q in parts(items, 34)] + [grid({
        "e1": "pest::stack::peek", "e2": "pest::stack::pop", "e3": "pest::stack::drop", "e4": "pest::stack::peek_all", "e5": "pest::stack::pop_all", "e6": "pest::stack::peek[..]",
        "e7": "pest::stack::peek[0..0]", "e8": "pest::stack::peek[1..]", "e9": "pest::stack::peek[-1..]",
        "t1": 'pest::stack::push("a") - pest::stack::push("b") - pest::stack::pop - pest::stack::pop - pest::stack::pop?',
        "t2": 'pest::stack::push("a") - pest::stack::push("b") - pest::stack::drop - pest::stack::peek - pest::stack::drop - pest::stack::peek?',
        "t3": 'pest::stack::push("a") - pest::stack::push("b") - pest::stack::peek_all - pest::stack::pop_all - pest::stack::peek_all',
        "t4": 'pest::stack::push(pest::stack::push("a") - "b") - pest::stack::peek_all - pest::stack::pop - pest::stack::peek'},
        ["", "a", "ab", "abba", "abbabab", "abbaba", "abba" * 2, "abaab", "ababaaba", "aba", "ababaab"])]


def widths():
    name = lambda i: "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[i]
    out = []
    ns = [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 23, 31, 32, 33, 40]
    rules, inputs = {}, {}
    for n in ns:
        w = [name(i) for i in range(n)]
        rules[f"q{n}"] = "".join((("", " - ", " ~ ")[0 if i == 0 else 1 + i % 2]) + f'"{c}"' for i, c in enumerate(w))
        s = "".join(w)
        inputs[f"q{n}"] = [s, s[:-1], s[1:], s[:-1] + "!", s[:n // 2] + "!" + s[n // 2:], s[:2] + " " + s[2:], s[:1] + " " + s[1:], s + " ", " " + s, s[:-1] + " " + s[-1]]
        rules[f"c{n}"] = " | ".join(f'"{c}"' for c in w)
        inputs[f"c{n}"] = w[:3] + w[-3:] + w[6:9] + w[11:17] + [name(n), "!", ""]
    for q in parts(list(rules.items()), 12): out.append(grid(q, inputs, head='~ = " "*\n'))
    return out


def builtins(classes):
    """every built-in character class under its name, at the ends of its intervals"""
    import random
    asc = dict(ascii_digit="0-9", ascii_nonzero_digit="1-9", ascii_bin_digit="0-1", ascii_oct_digit="0-7", ascii_hex_digit="0-9A-Fa-f", ascii_alpha_lower="a-z", ascii_alpha_upper="A-Z",
               ascii_alpha="A-Za-z", ascii_alphanumeric="0-9A-Za-z", ascii="\0-\x7f")
    items, inputs = [], {}
    for n, r in asc.items():
        items.append((n + "_r", f"pest::{n}")); cs = set()
        for i in range(0, len(r), 3):
            for c in (r[i], r[i + 2]): cs |= {ord(c) - 1, ord(c), ord(c) + 1}
        inputs[n + "_r"] = [chr(c) for c in sorted(cs) if c >= 0] + ["", "é"]
    for n, ivs in sorted(classes.items()):
        if n.startswith("ascii"): continue
        rng = random.Random(n); cs = set()
        for a, b in rng.sample(ivs, min(3, len(ivs))) + ivs[:1] + ivs[-1:]: cs |= {a - 1, a, b, b + 1}
        cs = [c for c in sorted(cs) if 0 <= c <= 0x10ffff and not 0xd800 <= c <= 0xdfff]
        items.append((n + "_r", f"pest::unicode::{n}")); inputs[n + "_r"] = [chr(c) for c in cs] + ["", "a"]
    items += [("any_r", "pest::any"), ("soi_r", "pest::soi"), ("eoi_r", "pest::eoi"), ("nl_r", "pest::newline")]
    for n in ("any_r", "soi_r", "eoi_r", "nl_r"): inputs[n] = ["", "a", "\n", "\r", "\r\n", "é", "\n\n", "\u2028", "\x85", "\x0b", "\U0010ffff"]
    return [grid(q, inputs) for q in parts(items, 35)]


ALIASED = [("any", "pest::any", None), ("soi", "pest::soi", None), ("eoi", "pest::eoi", None), ("newline", "pest::newline", None), ("ascii_digit", "pest::ascii_digit", None), ("peek", "pest::stack::peek", None),
           ("pop", "pest::stack::pop", None), ("drop", "pest::stack::drop", None), ("peek_all", "pest::stack::peek_all", None), ("pop_all", "pest::stack::pop_all", None), ("push", "pest::stack::push", '{}("b")'),
           ("stack", "pest::stack", "{}::pop"), ("unicode", "pest::unicode", "{}::letter"), ("letter", "pest::unicode::letter", None), ("han", "pest::unicode::han", None), ("p", "pest", "{}::any"),
           ("m", None, "{}::main"), ("main", None, "{}::sub::main"), ("n", None, "{}::any")]


def aliases():
    """every built-in and several imported modules under the name of every other one"""
    out = []
    names = [a[0] for a in ALIASED]; n = len(names)
    for k in range(n):
        def make(rng, pid, base, k=k):
            d = f"p{pid}"
            texts = {("sub",): 'main = "s"\nany = "y"\n', ("m",): 'use sub\nmain = "m" - sub::main?\nany = "x"\n'}
            uses, rules = "", ""
            for i, a in enumerate(names):
                _, target, body = ALIASED[(i + k) % n]
                uses += f"use {target or 'm'} as {a}\n"
                rules += f'r{i} = pest::stack::push("a") - ' + (body or "{}").format(a) + "\n"
            texts[("root0",)] = uses + rules
            files = [dict(path=[d] + list(q), full=[ord(c) for c in "/".join([base, d] + list(q)) + ".pest"], text=t) for q, t in texts.items()]
            given = ["a", "aa", "ab", "a\n", "a1", "ams", "am", "as", "ay", "ax", "aé", "a日"]
            return dict(id=pid, files=files, roots=[3], given=[("file", f"{d}/root0.pest")], flags=[], every=True, inputs={f"r{i}": given for i in range(n)})
        out.append(make)
    return out


def parameters():
    """parameters under the name of a module, of a rule, of another function, and of the function itself"""
    out = []
    for k in range(2):
        def make(rng, pid, base, k=k):
            d = f"p{pid}"
            texts = {("sub",): 'main = "s"\nany = "y"\ng(x) = "(" - x - ")"\n'}
            fun = lambda head, body: f"{head} = " + (f"_{{{body}}}" if k else body) + "\n"
            texts[("root0",)] = ('use pest::unicode as x\nuse pest as y\nuse sub as z\nuse sub\nb = "b"\nw = "w"\n'
                                 + fun("f1(x)", "x - x::han") + fun("f2(x)", "x::han - x") + fun("f3(y)", "(y - y::any - y) | y") + fun("f4(y)", "y::stack::push(y) - y::stack::pop")
                                 + fun("f5(z)", "z::main - z - z::any") + fun("f6(z, x)", "z::g(x) - z - x::han?") + fun("f7(z, x)", "x::g(z)".replace("x::", "z::") + " - (x | z::main)")
                                 + fun("f8(b)", "b - w - b") + fun("f9(w, b)", "w - b - f8(w)") + fun("fa(fa)" if k else "fa(w)", "fa - fa" if k else "w - w") + fun("fb(f8, b)", "f8 - b") + fun("fc(sub)", "sub::main - sub - z::any")
                                 + 'r1 = f1("a")\nr2 = f2(b)\nr3 = f3(w) - f3("a")\nr4 = f4("a" | b)\nr5 = f5(b)\nr6 = f6(w, b)\nr7 = f7(b, w)\nr8 = f8("a")\nr9 = f9(b, w)\nra = fa(b) - fa("a")\n'
                                 + 'rb = fb(w, b) - fb("a", f8(w))\nrc = fc(sub::any)\nrd = f1(x::latin) - f5(z::main)\nre = f6(f1("a"), f3(b))\n')
            files = [dict(path=[d] + list(q), full=[ord(c) for c in "/".join([base, d] + list(q)) + ".pest"], text=t) for q, t in texts.items()]
            given = ["a日", "aa", "日b", "bb", "日日", "wbw", "w", "wa", "bab", "awa", "aba", "ab", "aa", "bbs", "sby", "ssy", "(b)w", "(b)w日", "(b)wa", "(w)bw", "(b)ws", "(b)bs", "(w)bb", "awab", "awb", "bwbwb", "wbwww", "bbaa",
                     "bba", "wbawwww", "wbawww", "wbaw", "syy", "bwbwwb", "bwbwb", "a日sby", "e日ssy", "(b)a日", "(bab)a日日", "abbbs", "waaba", "aaa", "bwb", "wwwaaaa", "waaa"]
            return dict(id=pid, files=files, roots=[2], given=[("file", f"{d}/root0.pest")], flags=[], every=True, inputs={f"r{c}": given for c in "123456789abcde"})
        out.append(make)
    names = ODD + RULES + ["T", "R", "F", "E", "T0", "f", "res", "this", "tracker", "input", "vec", "Sized", "TypedNode", "pairs", "Pair", "fmt", "Formatter", "Iterator", "Hash", "Eq"]
    for at in range(0, len(names), 25):
        part = names[at:at + 25]; rules = {}
        for i, n in enumerate(part): rules[f"g{i}({n})"] = f'{n} - "x" - {n}?'; rules[f"q{i}"] = f'g{i}("a") - g{i}("b")'
        out.append(grid(rules, {f"q{i}": ["axbx", "axabxb", "ax", "bx"] for i in range(len(part))}))
    return out


def strangers():
    """names that nothing has, each almost the name of something: of a rule, a module, a built-in, a parameter"""
    near = lambda w: [w.upper(), w.capitalize(), w[:-1], w + w[-1], w + "_", "_" + w, w[::-1], w.replace("_", ""), w[0], w + "1"]
    known = ["rule_b", "mold::cee", "mold::sub::deep", "pest::any", "pest::ascii_digit", "pest::stack::peek_all", "pest::unicode::han", "pest::unicode::other_letter", "st::pop", "dot", "mold"]
    seen = set(known) | {"pest", ""}; paths = []
    for path in known:
        segs = path.split("::")
        wide = ["::".join(segs[:k] + [w] + segs[k + 1:]) for k in range(len(segs)) for w in near(segs[k])]
        wide += ["::".join(q) for q in (segs[1:], segs[:-1], segs + segs[-1:], segs[:1] + segs, ["pest"] + segs, ["mold"] + segs, ["pest", "stack"] + segs[-1:], ["pest", "unicode"] + segs[-1:], ["sub"] + segs[-1:], segs[-1:], ["rule_b"] + segs[-1:])]
        for q in wide:
            if q not in seen and all(re.match(r"_?[A-Za-z]", w) for w in q.split("::")): seen.add(q); paths.append(q)
    out = []
    for i, path in enumerate(paths):
        def make(rng, pid, base, path=path, i=i):
            d = f"p{pid}"
            texts = {("sub",): 'deep = "d"\n', ("mold",): 'use sub\ncee = "c"\n'}
            use, body = [("", path), (f"use {path} as q\n", "q"), ("", f'"x" - ({path}{{2}} | rule_b)')][i % 3 if i % 7 else 0]
            texts[("root0",)] = f'use mold\nuse pest::stack as st\nuse pest::any as dot\n{use}rule_b = "b"\nmain = rule_b?\nodd = {body}\n'
            files = [dict(path=[d] + list(q), full=[ord(c) for c in "/".join([base, d] + list(q)) + ".pest"], text=t) for q, t in texts.items()]
            return dict(id=pid, files=files, roots=[3], given=[("file", f"{d}/root0.pest")], flags=[], every=True, inputs={})
        out.append(make)
    for i, (have, want) in enumerate([("x", "X"), ("sep", "Sep"), ("sep", "se"), ("e", "e_"), ("y", "yy"), ("_z", "z"), ("z", "_z")]):
        for silent in (0, 1): out.append(grid({f"f({have})": ("_{%s}" if silent else "%s") % f'{want} - {have}', "main": 'f("a")'}, {}))
    return out


def miscalls():
    """everything that can be named x every way of giving it arguments, here and behind imports of depth one and two"""
    ways = ["", "()", '("a")', '("a", "b")', '("a", "b", "c")', '("a", "b", "c", "d")', "[..]", "[0..]", "[0..1]", "[..-1]"]
    names = ["pest::any", "pest::soi", "pest::ascii_digit", "pest::han", "pest::unicode::han", "pest::stack::push", "pest::stack::peek", "pest::stack::peek_all", "pest::stack::pop", "pest::stack::drop",
             "pest::stack", "far", "far::deep", "none", "one", "two", "three", "hush", "hush2", "far::none", "far::two", "far::hush", "far::deep::one", "far::deep::none", "far::deep::hush2", "far::deep::zero"]
    rules = ['none = "n"', "one(x) = x", "two(x, y) = x - y", "three(x, y, z) = x - y - z", "hush(x) = _ x", "hush2(x, y) = _ y - x"]
    out = []
    for i, name in enumerate(names):
        for k, way in enumerate(ways):
            def make(rng, pid, base, name=name, way=way, i=i, k=k):
                d = f"p{pid}"
                mine = lambda odd: "\n".join(r for r in rules) + ("\n" + odd if odd else "") + "\n"
                depth = (i + k) % 3 if not name.startswith("far") else 0
                odd = f'odd = "-" - {name}{way}'
                texts = {("deep",): mine(odd if depth == 2 else ""), ("far",): "use deep\n" + mine(odd if depth == 1 else "")}
                texts[("root",)] = "use far\n" + mine(odd if depth == 0 else "") + "main = " + ["odd", "far::odd", "far::deep::odd"][depth] + "\n"
                files = [dict(path=[d] + list(q), full=[ord(c) for c in "/".join([base, d] + list(q)) + ".pest"], text=t) for q, t in texts.items()]
                return dict(id=pid, files=files, roots=[3], given=[("file", f"{d}/root.pest")], flags=[], every=True, inputs={"main": ["-a", "-ab", "-abc", "-ba", "-n", "-1", "-", "a", "-abcd"]})
            out.append(make)
    return out


def lookalikes():
    """literals and rules of one grammar that are almost the same: by case, by an end, by order, by an escape, by the position of their difference"""
    lit = lambda w: '"' + "".join({'"': '\\"', "\\": "\\\\", "\n": "\\n", "\t": "\\t", "\r": "\\r", "\0": "\\0"}.get(c, c) for c in w) + '"'
    sets = [["select", "SELECT", "Select", "selecT", "select ", " select", "selec", "selects", "elects", "sele ct", "tceles", "select\n", "sélect", "selеct", "select\0", "ſelect"],
            ["ab", "aB", "Ab", "AB", "ba", "a", "b", "a b", "aab", "abb", "abab", "ab\n", "ab\r\n", "ab\t", "ab\"", "ab\\", "\\n", "\n", "n", "\"", "'", "ab'"],
            ["é", "É", "e", "e\u0301", "E\u0301", "ß", "ss", "ẞ", "日本", "日", "本", "本日", "K", "K", "k", "µ", "μ", "1", "l", "I", "O", "0", "W0", "W1", "W10", "w0"]]
    out = []
    for ws in sets:
        rules = {}
        for i, w in enumerate(ws):
            rules[f"s{i}"] = lit(w); rules[f"i{i}"] = "i" + lit(w)
        order = sorted(range(len(ws)), key=lambda i: -len(ws[i]))
        rules["every"] = "(" + " | ".join(f"s{i}" for i in order) + ")*"
        rules["both"] = " | ".join(f"(s{i} - \"!\" - i{order[i]}?)" for i in order)
        inputs = {q: ws + [""] for q in rules}
        inputs["every"] = ["".join(ws), "".join(reversed(ws)), "", ws[1] + ws[0], ws[2] + ws[1] + ws[2]]
        inputs["both"] = [w + "!" + v for w in ws for v in (ws[order[ws.index(w)]], w.lower())]
        for head in ("", "~ = " + lit(ws[0]) + "?\n"): out.append(grid(rules, inputs, head=head))
    names = ["item", "Item", "ITEM", "iTEM", "item_", "_item", "item1", "item10", "item_1", "items", "ite", "it_em", "i", "I", "_", "__", "i1", "i_1"]
    names = [n for n in names if n != "_"]
    rules = {n: f'"{chr(97 + i)}"' for i, n in enumerate(names)}
    rules["every"] = " - ".join(n + "?" for n in names); rules["some"] = " | ".join(names); rules["twice"] = "(" + " | ".join(f"{a} - {b}" for a, b in zip(names, names[1:] + names[:1])) + ")*"
    al = "".join(chr(97 + i) for i in range(len(names)))
    out.append(grid(rules, {q: list(al)[:6] + ["", al, al[::2], al[1::2], "abbccdde", al[-1] + "a"] + list(al)[6:] * (q in ("some", "every")) for q in rules}))
    return out


def mixtures():
    """a grammar given as two to four texts, every mixture of files and inline texts, a switch or the module's name between any of them"""
    import itertools
    out = []
    for n in (2, 3, 4):
        for k, kinds in enumerate(itertools.product("fi", repeat=n)):
            def make(rng, pid, base, n=n, k=k, kinds=kinds):
                d = f"p{pid}"; files, given = [], []
                every = [f"{'zayb'[j]}{j}" for j in range(n)]
                for j, kind in enumerate(kinds):
                    text = f"//! text {j}\n/// rule of {j}\n{every[j]} = \"{j}\" - \"+\"?\nall{j} = " + " | ".join(every[j:] + every[:j]) + f"\nnone{j} = !{every[j]} - pest::any\n" + ('~ = " "*\nword = z0 ~ a1\n' if j == k % n else "")
                    if kind == "f":
                        path = [d] + ["s"] * (j % 2) + [f"root{j}"]
                        files.append(dict(path=path, full=[ord(c) for c in "/".join([base] + path) + ".pest"], text=text)); given.append(("file", "/".join(path) + ".pest"))
                    else: files.append(dict(path=["_"], full=[], text=text)); given.append(("inline", text))
                flags = [['rules_mod = "texts"'], ["no_getter"], [], ["box_rules_only_if_needed"], ["no_getter = false", "no_getter"]][k % 5]
                order = list(range(n)); at = k % (n + 1)
                order[at:at] = range(n, n + len(flags))
                return dict(id=pid, files=files, roots=list(range(1, n + 1)), given=given, flags=flags, order=order, every=True,
                            inputs={r: ["x", "", "0", "1", "2", "0+1", "0 1"] for j in range(n) for r in (f"all{j}", f"none{j}", "word")})
            out.append(make)
    return out


def samenames():
    """files of the same name in different directories, given and imported in every order, some of them twice or by other routes"""
    import itertools
    dirs = [(), ("one",), ("two",), ("one", "two"), ("x",)]
    out = []
    for k, (a, b) in enumerate(itertools.permutations(dirs, 2)):
        def make(rng, pid, base, k=k, places=(a, b) if k % 3 else (a, b, dirs[k % 5])):
            d = f"p{pid}"; files, roots = {}, []
            for j, q in enumerate(dict.fromkeys(places)):
                deep = [("y",), ("x", "y"), ("y", "x")][(k + j) % 3]
                root = (d,) + q + ("x",)
                roots.append(root)
                files[root] = f'use {"::".join(deep)} as w{j}\nr{j} = w{j}::leaf - "{j}"\n'
                sub = ("z",) * (k % 3) + ("x",)
                files.setdefault((d,) + q + deep, f'use {"::".join(sub)} as e\nleaf = "l" - (e::end | "")\n')
                files.setdefault((d,) + q + deep[:-1] + sub, 'end = "z"\n')
            order = [r for r in files if r not in roots]
            every = order + roots
            return dict(id=pid, files=[dict(path=list(q), full=[ord(c) for c in "/".join((base,) + q) + ".pest"], text=files[q]) for q in every],
                        roots=[every.index(r) + 1 for r in roots], given=[("file", "/".join(r) + ".pest") for r in roots], flags=[], every=True,
                        inputs={f"r{j}": ["l0", "lz0", "lz1", "l1", "lz2", ""] for j in range(len(roots))})
        out.append(make)
    return out


def occurrences():
    """rules with the same names in every arrangement, for the accessors"""
    un = ["{}", "{}?", "{}*", "{}{{2}}", "{}{{..2}}", "&{}", "!{}", "pest::stack::push({})"]
    atoms = [u.format("x") for u in un]
    few = ["x", "x?", "x{..2}", "&x"]
    bodies = []
    for a in atoms:
        for b in atoms: bodies += [f"{a} - {b}", f"{a} | {b}"] if not a.endswith(("?", "*", "..2}")) else [f"{a} - {b}"]
    for u in un[1:]:
        for a in few:
            for b in few:
                if u == "{}*" and a != "x" and b != "x": continue
                bodies.append(u.format(f"({a} - {b})"))
                bodies.append(u.format(f"({a} - y | {b})") if u != "{}*" else f"({a} - y | x)*")
    bodies += ["x - x - x", "x - (x - y)? - x", "(x | y) - (x | y)", "(x | y - x)*", "x? - y? - x?", "((x - y)? | x)", "x - x - x - x", "(x - x) | (y - y)", "(x - y)* - x?", "y - (x* - y)? - x*",
               "(x | x - y)", "x | y | x", "(x? | y)", "(x - x)?", "(x - x?)?", "((x - x?)? - y)?", "x - y - z - x", "(x | (y | z))", "(x | y | z)*", "((x - y) | (x - z) | x)"]
    items = [(f"o{i}", b) for i, b in enumerate(dict.fromkeys(bodies))]
    inputs = ["", "x", "xx", "xxx", "xxxxx", "xy", "xyx", "yx", "y", "xxy", "xyxy", "xzy", "z", "xyzx", "x" * 9, "xy" * 5]
    return [grid(q, inputs, head='x = "x"\ny = "y"\nz = "z"\n') for q in parts(items, 28)]


FLAGS = [(), ("box_rules_only_if_needed",), ("box_rules_only_if_needed = true", "no_getter"), ("no_getter",)]


def cycles():
    """reference cycles of every length, through every construct, alone and meeting"""
    out = []
    for k, fl in enumerate(FLAGS[1:3] + FLAGS[:1]):
        for n in (1, 2, 3, 5, 9, 14, 20, 27, 40):
            rules = {f"c{i}": f'"a" - c{(i + 1) % n}?' for i in range(n)}
            out.append(grid(dict(main="c0 - \"b\"", **rules), {q: ["", "a", "ab", "a" * (n - 1) + "b", "a" * n + "b", "a" * (n + 1) + "b", "a" * (2 * n + 1)] if q in ("main", "c0", f"c{n - 1}") else ["aaa"] for q in ["main", *rules]}, fl))
        wraps = ["({})?", '({} | "b")', "&({})", "!({})", '("x" - {})?', "pest::stack::push({})?", "({}){{..2}}", "({})*", "f({})?", 'g("x", {})?', "h({})?"]
        for i in range(0, len(wraps), 4):
            rules = {}
            for j, w in enumerate(wraps[i:i + 4]):
                rules[f"p{j}"] = '"a" - ' + w.format(f"q{j}"); rules[f"q{j}"] = f'"b" - p{j} | "c"'
            out.append(grid(rules, ["a", "ab", "aba", "abab", "ac", "abac", "abx", "axba", "axbaxc", "ababac", "b", "c", "babac", "abcb"], fl,
                            head='f(e) = e - ";"?\ng(d, e) = d - e\nh(e) = _ { "("? - e }\n'))
        # two cycles that meet, a rule outside that leads in, one that is led to
        out.append(grid(dict(r0='"a" - r1? - out', r1='"b" - (r2 | r3)', r2='"c" - r0?', r3='"d" - r1?', out='"."', lead='r3 | r0'),
                        ["a.", "abc.", "abca..", "abdbc.", "dbc", "d", "abdbdbc.", "bca."], fl))
        # rules found late by a walk in order of definition
        n = 12
        rules = {f"z{i}": f'"a" - z{i - 1}?' for i in range(n - 1, 0, -1)}; rules["z0"] = f'"b" - z{n - 1}?'
        out.append(grid(rules, {q: ["a", "aab", "a" * 11 + "ba", "b" + "a" * 11 + "b"] if q in ("z11", "z0", "z6") else ["ab"] for q in rules}, fl))
        out.append(grid(dict(reversed(list(rules.items()))), {q: ["a", "aab", "a" * 11 + "ba", "b" + "a" * 11 + "b"] if q in ("z11", "z0", "z6") else ["ab"] for q in rules}, fl))
    # a reference two constructs deep
    ways = ["({})?", '({} | "d")', '("d" | {})', '("x" - {})', '({} - "x")', "&({})", "!({})", "pest::stack::push({})", "({}){{..2}}", "({}){{2}}", "({})*", "f({})", 'g("x", {})', "h({})"]
    rules = {}
    for a in ways:
        for b in ways:
            if a == "({})*" and b in ("({})?", "&({})", "!({})", "({}){{..2}}", "({})*"): continue
            k = len(rules); rules[f"p{k}"] = '"a" - ' + a.format(b.format(f"q{k}")); rules[f"q{k}"] = f'"b" - p{k} | "c"'
    for q in parts(list(rules.items()), 48):
        out.append(grid(q, ["ac", "abac", "axc", "acxx", "abacc", "bac"], FLAGS[1], head='f(e) = e - ";"?\ng(d, e) = d - e\nh(e) = _ { "("? - e }\n'))
    return out


TRIVIA = [   # definitions, what they skip, what they nearly skip
    ('~ = " "*\n^ = " "+\n', [" ", "  "], ["\t"]),
    ('~ = (" " | note)*\n^ = note\nnote = "#" - (!"\\n" - pest::any)* - "\\n"\n', [" ", "#a\n", " # b\n "], ["#a", "\n"]),
    ('~ = _ (" " | note)*\n^ = _ note - " "?\nnote = _ "#" - "y"*\n', [" ", "#y", "#", "#yy "], ["y"]),
    ('~ = note?\n^ = note~+\nnote = "#" ~ "y"\n', ["#y", "##yy", "###yyy"], ["#", "##y"]),
    ('~ = (" " | blk)*\n^ = blk+\nblk = "[" - (blk | !"]" - pest::any)* - "]"\n', [" ", "[]", "[[a]b]", "[ [] []]"], ["[", "]", "[[]"]),
    ('~ = pest::stack::push(" ")?\n^ = pest::stack::push(".") - pest::stack::peek?\n', [" ", ".", ".."], ["  ", "..."]),
    ('~ = ""\n^ = "." - "."\n', ["", ".."], [".", "..."]),
    ('~ = " " ^ " "\n^ = "."?\n', ["  ", " . ", "."], [" ", " ."]),
    ('~ = " "* - &("b" | "c" | "x")\n^ = !"b" - " "\n', [" ", "   "], ["a"]),
    ('~ = w - w?\n^ = w{2}\nw = " " | "\\t"\n', [" ", " \t"], ["", "   "]),
    ('~ = " " | ""\n^ = "" | " "\n', [" "], ["  "]),
    ('~ = wrap(" ")\n^ = bare(" ", ".")\nwrap(e) = e*\nbare(e, f) = _ { e - f }\n', [" ", " ."], [". "]),
    ('~ = pest::soi | " "\n^ = pest::eoi | " "\n', [" "], ["  "]),
]
GAPPED = [("a", "b", "c"), ("a", "a", "a"), ("a", "b", "a", "b"), ("a",), ("a", "a"), ("b", "c"), ("a", "c")]


def trivias():
    """ways to define trivia, in and out of every gap of every construct"""
    out = []
    for head, skip, near in TRIVIA:
        gaps = [""] + skip + near
        inputs = []
        for w in GAPPED:
            for g in gaps:
                inputs.append(g.join(w)); inputs.append(g.join(w) + g)
                if len(w) > 2: inputs.append(w[0] + g + "".join(w[1:])); inputs.append(w[0] + w[1] + g + "".join(w[2:])); inputs.append(w[0] + skip[0] + w[1] + g + w[2])
            inputs.append(skip[0] + "".join(w))
        inputs = list(dict.fromkeys(inputs))
        rules = {}
        for o in "~^":
            rules.update({f"s{o}": f'"a" {o} "b" {o} "c"', f"m{o}": f'"a" {o} "b" - "c"', f"n{o}": f'"a" - "b" {o} "c"', f"g{o}": f'("a" {o} "b") - ("a" {o} "b")', f"st{o}": f'"a"{o}*', f"pl{o}": f'"a"{o}+ - "b"?',
                          f"ex{o}": f'"a"{o}{{2}}', f"bo{o}": f'"a"{o}{{1..2}} - "a"?', f"in{o}": f'("a" {o} "b"){o}*', f"ou{o}": f'("a" - "b"){o}*', f"op{o}": f'"a" {o} "b"? {o} "c"?', f"cho{o}": f'"a" {o} "b" | "a" {o} "c" | "b" {o} "c"',
                          f"po{o}": f'"a" {o} &"b" {o} pest::any', f"ne{o}": f'"a" {o} !"b" {o} pest::any', f"gr{o}": f'"a" {o} ("b" {o} "c")?', f"ca{o}": f'two{o}("a", "b")', f"si{o}": f'sil{o}("a", "b" | "c")',
                          f"re{o}": f'(ab | "c"){o}+', f"pu{o}": f'pest::stack::push("a") {o} pest::stack::peek', f"em{o}": f'"" {o} "a"', f"sl{o}": f'"a" {o} pest::stack::peek_all {o} "b"'})
        names = {"~": "t", "^": "c"}
        fix = lambda s: s.replace("two~", "twot").replace("two^", "twoc").replace("sil~", "silt").replace("sil^", "silc")
        rules = {n[:-1] + names[n[-1]]: fix(b) for n, b in rules.items()}
        more = 'ab = "a" | "b"\ntwot(x, y) = x ~ y\ntwoc(x, y) = x ^ y\nsilt(x, y) = _ x ~ y\nsilc(x, y) = _ x ^ y\n'
        for q in parts(list(rules.items()), 21): out.append(grid(q, {n: inputs for n in q}, head=head + more))
    return out


def values():
    """repetitions whose iterations are equal in all but one respect"""
    head = '~ = " "?\ne = ""\no = "a"?\nl = &"a"\nq = !"b"\na = "a"\nb = "b"\nab = "a" | "b"\nw = a | b\n'
    items = dict(empty='(e - "a")*', opt='(o - "b"?)*', look='(l - "a")*', unlike='(q - "a")*', named='(a | b)*', plain='("a" | "b")*', both='(ab)*', inner='(w)*', kind='(a | "a")*', alt='("a" - e | e - "b" | a)*',
                 pair='(a - b?)*', deep='((a | b)+ - "c")*', gap='(a ~ b?)*', rep='(a* - ",")*', reps='("a"* - ",")*', rngs="('a'..'b')*", insens='(i"a")*', any='(pest::any)*', opts='(a? - b? - "c")*', empties='((e | a) - "c")*',
                 whole='(e - (a - e | b - e) - e)*', max='(e - "a"){..3}', exact='(o - "b"){3}', min='(e - a | e - b){2..}', wide='(a | b | "c" | ab | e - "d")*', lists='("a" | "aa" - e)*')
    words = ["", "a", "aa", "ab", "aba", "aab", "abab", "bab", "bb", "aaaa", "ac", "acac", "acbc", "ccc", "abcabc", "a ba b", "a,a,", "aa,a,aa,", ",,", ",a,", "AaA", "abcd", "dd", "add", "cacb", "bbb", "abbab", "ababcab c"]
    return [grid(q, words, head=head) for q in parts(list(items.items()), 13)]


def larges():
    """grammars and inputs far larger than the sampled ones, by what is large"""
    big = lambda make: (lambda rng, pid, base: dict(make(rng, pid, base), big=True))
    G = lambda rules, inputs, **k: big(grid(rules, {n: inputs.get(n, []) for n in rules} if isinstance(inputs, dict) else inputs, **k))
    out = {}
    # repetitions
    rules, inputs = {}, {}
    for k, (lo, hi) in enumerate([(10, 10), (15, 17), (16, None), (None, 20), (0, 31), (33, 33), (64, 66), (100, 100), (127, 129), (255, 256), (257, None), (None, 70000), (0, 1000)]):
        f = lambda v: "" if v is None else str(v)
        b = f"{{{lo}}}" if lo == hi else f"{{{f(lo)}..{f(hi)}}}"
        rules[f"a{k}"] = f'"a"{b} - "b"?'; rules[f"t{k}"] = f'"a"~{b} - "a"?'
        ns = [n for n in sorted({(lo or 0) - 1, lo or 0, (lo or 0) + 1, hi or 40, (hi or 40) + 1, (hi or 40) - 1}) if 0 <= n < 300] + ([130] if hi and hi > 300 else [])
        inputs[f"a{k}"] = ["a" * n + t for n in ns for t in ("b",)] + ["a" * ns[0]]
        inputs[f"t{k}"] = [" ".join("a" * n) + t for n in ns[-3:] for t in (" ", "")] if ns[-1] < 140 else []
    out["rep"] = [G(q, {n: inputs[n] for n in q}, head='~ = " "*\n') for q in parts(list(rules.items()), 10)]
    # literals
    rules, inputs = {}, {}
    for n in (15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 400):
        s = "".join("é" if i % 7 == 6 else "日" if i % 31 == 30 else chr(97 + i % 26) for i in range(n))
        rules[f"s{n}"] = f'"{s}"'; rules[f"i{n}"] = f'i"{s.upper() if n % 2 else s}"'; rules[f"u{n}"] = '"' + "".join("\\u{%x}" % ord(c) for c in s[:40]) + f'{s[40:]}"'
        ws = [s, s[:-1], s + "a", s[:-1] + "!", "!" + s[1:], s[:n // 2] + "!" + s[n // 2 + 1:], "".join(c.upper() if c.isascii() else c for c in s), s.upper()]
        for q in "siu": inputs[q + str(n)] = ws
    out["lit"] = [G(q, {n: inputs[n] for n in q}) for q in parts(list(rules.items()), 16)]
    # stack
    fill = "pest::stack::push(pest::any){20}"
    w = "abcdefghijklmnopqrst"
    items = [(f"s{k}", f"{fill} - pest::stack::peek[{a}]") for k, a in enumerate(["10..20", "-20..", "-21..", "19..", "20..", "21..", "..-20", "..-21", "15..-3", "-5..-10", "..", "0..0", "-2147483647..", "..2147483647", "-1..1", "7..12"])]
    items += [("all", f"{fill} - pest::stack::pop_all - pest::stack::pop?"), ("pops", f"{fill} - pest::stack::pop{{20}}"), ("drops", f"{fill} - pest::stack::drop{{19}} - pest::stack::pop_all"),
              ("back", f"{fill} - (pest::stack::drop{{20}} - \"!\")? - pest::stack::peek_all"), ("look", f"{fill} - &(pest::stack::pop{{20}}) - pest::stack::pop_all - pest::stack::peek_all"),
              ("nest", f"{fill} - ((pest::stack::drop{{5}} - (pest::stack::drop{{5}} - \"!\")? - \"?\") | pest::stack::drop{{3}}) - pest::stack::peek_all")]
    tails = ["", w[10:], w, w[19:], w[15:17], w[7:12], w[::-1], w[0], w[::-1][3:]]
    out["stack"] = [G(q, [w + t for t in tails]) for q in parts(items, 11)]
    # rules with many parameters, applied many times
    rules, inputs = {}, {}
    for n in (4, 6, 8, 12, 16, 17, 20):
        ps = [f"p{i}" for i in range(n)]; lits = [chr(97 + i) for i in range(n)]
        for sil in ("", "_ "):
            t = "n" if not sil else "s"
            rules[f"{t}{n}({', '.join(ps)})"] = sil + " - ".join(ps[::-1])
            rules[f"m{t}{n}"] = f"{t}{n}(" + ", ".join(f'"{c}"' for c in lits) + ")"
            s = "".join(lits[::-1]); inputs[f"m{t}{n}"] = [s, s[::-1], s[:-1], s[:-2] + "!" + s[-1], s[1] + s[0] + s[2:]]
    for n in (3, 8, 15):
        for sil in ("", "_ "):
            t = "w" if not sil else "v"
            rules.setdefault(f"{t}(x)", sil + '"(" - x - ")"')
            x = '"a"'
            for _ in range(n): x = f"{t}({x})"
            rules[f"d{t}{n}"] = x; inputs[f"d{t}{n}"] = ["(" * n + "a" + ")" * n, "(" * n + "a" + ")" * (n - 1), "(" * (n - 1) + "a" + ")" * n]
    out["args"] = [big(lambda rng, pid, base, g=grid(rules, {}): dict(g(rng, pid, base), inputs=dict(inputs)))]
    # deep nesting
    def deep(n, f, x='"a"'):
        for _ in range(n): x = f(x)
        return x
    rules = dict(par=deep(40, lambda x: f"({x})"), opt=deep(20, lambda x: f'("a" - {x})?'), cho=deep(20, lambda x: f'("b" - {x} | "c")'), neg="!" * 21 + '"a" - "b"', pos="&" * 20 + '"a" - "a"',
                 mix=deep(12, lambda x: f'("a" ~ {x} | "b" - {x})'.replace('- ("a" ~', '- ("a" ~', 1) if len(x) < 40 else f'("a" ~ {x})'), rep=deep(6, lambda x: f"({x} - \"b\")+"), push=deep(15, lambda x: f"pest::stack::push({x} - \"b\"?)") + " - pest::stack::pop_all",
                 seq=deep(25, lambda x: f'("a" ~ {x})'), left=deep(25, lambda x: f'({x} - "b")'), tail=deep(15, lambda x: f'("a" - ({x} | "b"))?'))
    out["deep"] = [G(rules, ["a" * n + t for n in (0, 1, 2, 12, 20, 21, 25, 26) for t in ("", "b")] + ["a" + "b" * n for n in (6, 20, 24, 25, 26)] + ["b" * n + t for n in (15, 19, 20) for t in ("a", "c", "")]
                       + ["ab" * n for n in (6, 15, 20)] + ["a" + " a" * n for n in (12, 24, 25)] + ["a" * 15 + "b" + "a" * 15 + "b"], head='~ = " "?\n')]
    # many rules, long names
    names = [("n" * (1 + i % 59) + f"_{i}") for i in range(80)]
    rules = {n: f'"<" - "{chr(97 + i % 26)}{i}" - ">"' for i, n in enumerate(names)}
    main = dict(main="(" + " | ".join(names) + ")*", pick=" | ".join(reversed(names)), **rules)
    ins = ["".join(f"<{chr(97 + i % 26)}{i}>" for i in q) for q in ([0], [79], [40, 41, 39], [78, 3], [12] * 6)]
    out["many"] = [G(main, dict(main=ins + [ins[0] + "<zz>", ins[3] + "<a0"], pick=ins[:4] + ["<", "", "<b1"], **{names[0]: ["<a0>"], names[79]: ["<b79>", "<b79"]}))]
    # recursion in the input
    d = 16
    out["rec"] = [G(dict(main='"(" - main? - ")"', lst='"[" - (lst | "a")* - "]"', und='pest::stack::push("(" | "[") - und? - pest::stack::drop - (")" | "]")', alt='"x" - alt - "y" | "x" - alt - "z" | "x"'),
                    dict(main=["(" * n + ")" * m for n, m in ((1, 1), (d, d), (d, d - 1), (d, d + 1))], lst=["[" * d + "a" + "]" * d, "[[a][[]aa]" * 5 + "]", "[" + "[a]" * 30 + "]", "[" * d + "]" * (d - 1)],
                         und=["([" * 7 + "])" * 7, "(" * 12 + ")" * 11], alt=["x" * 5 + "yzyz", "x" * 6 + "z" * 5, "x" * 5 + "y"]))]
    # reports
    rules = {f"r{i}": f'"k{i}"' for i in range(40)}
    rules |= {f"c{i}": f'c{i + 1} - "!"?' for i in range(20)} | {"c20": '"a" - "b"'}
    rules |= dict(any_of=" | ".join(f"r{i}" for i in range(40)), none_of="".join(f"!r{i} - " for i in range(40)) + "pest::any", after='"a"* - (' + " | ".join(f"r{i}" for i in range(30)) + ")",
                  each=" | ".join(f"w{i}" for i in range(12)), **{f"w{i}": (f'"a"{{{i}}} - ' if i else "") + f'r{i} - "b"' for i in range(12)}, lines='(pest::any - pest::newline | row)* - "end"', row='word - " " - word - pest::newline', word='pest::ascii_alpha+')
    text = "".join(["a\n", "ab cd\n", "é\r\n"][i % 3] for i in range(130))
    out["report"] = [G(rules, dict(any_of=["x", "k", "k3", "k39", "k40"], none_of=["k39", "a", "k7"], after=["a" * 30 + "x", "ak29"], each=["a" * n + t for n in (0, 5, 11, 12) for t in ("x", "k", f"k{n}", f"k{n}c")],
                                   c0=["ab", "aa", "b", "ab!!", "ab" + "!" * 21], lines=[text, text + "en", text + "end", text + "ab c", text[:9 * 13] + "ab 日"]))]
    # accessors of many occurrences
    items = [(f"t{n}", " - ".join((["x", "y", "x"] * n)[:n])) for n in (5, 9, 12, 13, 16, 17, 20)] + [(f"a{n}", " | ".join(f"{'y - ' * i}x" for i in range(n))) for n in (5, 13)] + [("o9", " - ".join(["x?"] * 9)), ("nest", "((((x - y)? - x)? - y)? - x)?")]
    runs = [("xyx" * 8)[:n] for n in range(0, 22)] + ["y" * n + "x" for n in range(13)] + ["x" * 9, "xyxyx"]
    out["acc"] = [G(dict(items), runs, head='x = "x"\ny = "y"\n')]
    # long comments and documentation
    out["text"] = [G(dict(main='"a" - "b"'), ["ab", "a"], head="//! " + "m" * 3000 + "\n//! second\n" + "/* " + "x\n" * 500 + "/* inner " * 30 + "*/ " * 31 + "\n" + "// " + "é" * 1000 + "\n" + "".join(f"/// line {i}\n" for i in range(60)))]
    # modules
    def chain(rng, pid, base):
        d = f"p{pid}"; n = 9
        texts = {tuple(f"m{j}" for j in range(i)) if i else ("root0",): None for i in range(n)}
        texts = {}
        for i in range(n):
            path = ("root0",) if i == 0 else ("x",) * (i - 1) + (f"m{i}",)
            nxt = (f"use x::m{i + 1}\n" if i else "use m1\n") if i + 1 < n else ""
            body = f'top = "{i}" - m{i + 1}::top?\n' if i + 1 < n else f'top = "{i}"\n'
            texts[path] = nxt + body
        fix = {}
        for i, (path, t) in enumerate(texts.items()): fix[path] = t
        long = "m1" + "".join(f"::m{i}" for i in range(2, n)) + "::top"
        fix[("root0",)] += f"far = {long}\nhalf = m1::m2::m3::m4::top - \"!\"?\n"
        files = [dict(path=[d] + list(q), full=[ord(c) for c in "/".join([base, d] + list(q)) + ".pest"], text=t) for q, t in fix.items()]
        s = "".join(map(str, range(n)))
        return dict(id=pid, files=files, roots=[1], given=[("file", f"{d}/root0.pest")], flags=[], every=True, big=True, inputs=dict(top=[s, s[:5], s[:4] + "x", ""], far=[str(n - 1), "0"], half=[s[4:], s[4:] + "!", "4!", "5"]))
    def many(rng, pid, base):
        d = f"p{pid}"; n = 25
        texts = {("root0",): "".join(f"use mod{i}\n" if i % 3 else f"use mod{i} as alias{i}\n" for i in range(n)) + "main = (" + " | ".join(f"mod{i}::main" if i % 3 else f"alias{i}::main" for i in range(n)) + ")*\n"}
        for i in range(n): texts[(f"mod{i}",)] = f'main = "{chr(97 + i)}"\n' + (f'use mod{i + 1} as next\nfollow = next::main\n' if i + 1 < n and i % 5 == 0 else "")
        files = [dict(path=[d] + list(q), full=[ord(c) for c in "/".join([base, d] + list(q)) + ".pest"], text=t) for q, t in texts.items()]
        return dict(id=pid, files=files, roots=[1], given=[("file", f"{d}/root0.pest")], flags=[], every=True, big=True, inputs=dict(main=["abcdefghijklmnopqrstuvwxy", "yxa", "", "aaz", "p" * 30]))
    out["modules"] = [chain, many]
    return out
