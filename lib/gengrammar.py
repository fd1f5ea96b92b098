"""Grammar texts: printed from random modules in random spellings, their corruptions, and small token universes.
Only texts are produced here; what they mean is decided by spec/Syntax.tla."""
import itertools, random

NAMES = ["a", "b", "c", "abc", "_x", "_", "_1", "x9", "use", "in", "as", "r", "i", "if", "peek", "Rule", "assign", "input", "__"]
CHARS = list("abz019 _#!/*~^|-+?{}()[]=&,.:'") + ["é", "中", "😀", "\n", "\t", "\r", "\u0301", "\\", '"']
ESC = ["\\n", "\\r", "\\t", "\\0", "\\\\", '\\"', "\\'", "\\x41", "\\x7f", "\\x00", "\\u{41}", "\\u{e9}", "\\u{4e2D}", "\\u{10ffff}",
       "\\u{0}", "\\u{00007a}", "\\u{d7ff}", "\\u{E000}", "\\x0A"]
BADESC = ["\\x80", "\\xff", "\\u{d800}", "\\u{dfff}", "\\u{110000}", "\\u{ffffff}"]                     # well formed, denote nothing
BROKEN = ["\\q", "\\x4", "\\xg1", "\\u41", "\\u{}", "\\u{1234567}", "\\u{12", "\\u{g}", "\\", "\\ ", "\\é", "\\u {41}"]
NUMS = ["0", "1", "2", "3", "9", "10", "12", "255", "65536", "4294967296", "18446744073709551615", "18446744073709551616",
        "9223372036854775807", "9223372036854775808", "9223372036854775809", "99999999999999999999", "100000000000000000000"]
SPACES = [" ", "  ", "\n", "\t", "\r\n", " \n ", "/**/", "/* x */", "/* /* */ */", "/*/**/*/", "// c\n", "//\n", "// \"\r\n", " // /* \n", "/*\n*/ ",
          "/***/", "/* // */", "/** **/", "// '\n \n"]


def comment(rng, d=2):
    """a block comment, comments inside it; now and then one that is not closed where it seems to be"""
    body = ""
    apart = rng.random() < .8          # nothing but the comments inside opens or closes
    for _ in range(rng.choice([0, 1, 2, 3, 4])):
        if apart and (body[-1:] in "/*"): body += "x"
        body += comment(rng, d - 1) if d and rng.random() < .35 else rng.choice(["x", " ", "*", "/", "\n", "\"", "//", "é", "**", "* /", "'", "#", "\\"])
    if apart and (body[:1] == "/" and body[:2] != "/*" or body[-1:] in ("*", "/")): body = "x" + body + "x"
    return "/*" + body + "*/"


def space(rng):
    x = rng.random()
    if x < .2: return comment(rng)
    if x < .25: return "//" + "".join(rng.choice(["x", "*/", "/*", " ", "\"", "é", "\r", "\t"]) for _ in range(rng.choice([0, 1, 2, 3]))) + rng.choice(["\n", "\r\n"])
    return rng.choice(SPACES)


class P:
    """prints in a spelling of its own"""
    def __init__(self, rng):
        self.rng = rng
        self.style = rng.choice(["tight", "plain", "wild", "wild"])
        self.out = []
        self.toks = []

    def gap(self):
        r = self.rng
        if self.style == "tight": return ""
        if self.style == "plain": return r.choice(["", " "])
        return "".join(space(r) for _ in range(r.choice([0, 0, 1, 1, 2])))

    def t(self, s, glue=False):
        """append a token; keeps apart what would merge into one"""
        g = "" if glue else self.gap()
        if self.toks and not glue and g == "":
            p = self.toks[-1]
            if (p[-1].isalnum() or p[-1] == "_") and (s[0].isalnum() or s[0] in "_#\"") or (p[-1] == "/" ) or (p[-1] in "+-" and s[0].isdigit()):
                g = " "
            if p[-1] == "/" : g = " "
        if g: self.toks.append(g)
        self.toks.append(s)

    def text(self): return "".join(self.toks)


def literal_body(rng, good=True):
    out = ""
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        x = rng.random()
        if x < .5: 
            c = rng.choice(CHARS)
            out += c if c not in '"\\' else "\\" + c
        elif x < .93 or good: out += rng.choice(ESC)
        elif x < .97: out += rng.choice(BADESC)
        else: out += rng.choice(BROKEN)
    return out


def string(rng, good=True): return '"' + literal_body(rng, good) + '"'


def raw(rng):
    n = rng.choice([0, 0, 1, 1, 2, 3])
    body = ""
    for _ in range(rng.choice([0, 1, 2, 4])):
        body += rng.choice(CHARS + ['"', '"#', '#', "\\", "\\n", "\\u{41}"])
    end = '"' + "#" * n
    while end in body + end[:-1] if n else '"' in body:
        body = body.replace('"', "'")
    return "r" + "#" * n + '"' + body + end


def char(rng, good=True):
    x = rng.random()
    if x < .5: return "'" + rng.choice(CHARS) + "'" if good is False else "'" + rng.choice([c for c in CHARS if c != "\\"]) + "'"
    if x < .95 or good: return "'" + rng.choice(ESC) + "'"
    return "'" + rng.choice(BADESC + BROKEN) + "'"


def number(rng): return rng.choice(NUMS if rng.random() < .3 else NUMS[:6])


def index(rng): return rng.choice(["", "", "-", "+"]) + number(rng)


def name(rng): return rng.choice(NAMES)


def atom(rng, p, d, good, lit):
    x = rng.random()
    if lit: x = x * .5 + .5 if x < .8 else x * .5
    if x < .38:
        path(rng, p, d, good, lit)
    elif x < .5 and d > 0:
        p.t("("); expr(rng, p, d - 1, good, lit); p.t(")")
    elif x < .7: p.t(string(rng, good))
    elif x < .79: p.t("i" + string(rng, good))
    elif x < .9: p.t(raw(rng))
    else:
        p.t(char(rng, good)); p.t(".."); p.t(char(rng, good))


def path(rng, p, d, good, lit):
    p.t(name(rng))
    while rng.random() < .2: p.t("::"); p.t(name(rng))
    x = rng.random()
    if x < .15:
        p.t("(")
        n = rng.choice([0, 1, 1, 2, 3])
        for k in range(n):
            if k: p.t(",")
            expr(rng, p, max(0, d - 1), good, lit)
        if n and rng.random() < .3: p.t(",")
        p.t(")")
    elif x < (.6 if lit else .25):
        p.t("[")
        if rng.random() < .7: p.t(index(rng))
        p.t("..")
        if rng.random() < .7: p.t(index(rng))
        p.t("]")


def bounds(rng, p, good):
    p.t("{")
    k = rng.choice(["n", "n..m", "n..", "..m", ".."])
    if good:
        a, b = sorted([rng.randint(0, 12), rng.randint(1, 13)])
        b = max(b, 1)
        a, b = str(a), str(b)
        if k == "n": a = b
        if rng.random() < .1: b = NUMS[10]
    else: a, b = number(rng), number(rng)
    if k[0] == "n": p.t(a)
    if k != "n":
        p.t("..")
        if k[-1] == "m": p.t(b)
    p.t("}")


def term(rng, p, d, good, lit):
    while rng.random() < .15: p.t(rng.choice("!&"))
    atom(rng, p, d, good, lit)
    while rng.random() < (.3 if not lit else .4):
        if rng.random() < .3: p.t(rng.choice("~^"))
        x = rng.random()
        if x < .6 and not lit: p.t(rng.choice("?*+"))
        else: bounds(rng, p, good)


def expr(rng, p, d, good=True, lit=False):
    if rng.random() < .12:
        if rng.random() < .15: p.t(rng.choice("~^"))
        p.t("|")
    n = rng.choice([1, 1, 2, 2, 3, 4]) if d > 0 else rng.choice([1, 1, 1, 2])
    for k in range(n):
        if k:
            o = rng.choice(["-", "~", "^", "|", "|", "-", "~", "~|", "^|"])
            if len(o) == 2: p.t(o[0]); p.t("|")
            else: p.t(o)
        term(rng, p, d, good, lit)


def rule(rng, p, d, good=True, lit=False):
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        if p.toks and not p.toks[-1].endswith("\n"): p.toks.append("\n")
        p.toks.append("///" + rng.choice(["", " ", "  ", "/", "!"]) + rng.choice(["", "doc", "é 中 ", "a = \"b\"", "/* ", "//", "x\ry", "\u3000z\t"]) + rng.choice(["\n", "\r\n", "\n\n"]))
    n = name(rng) if rng.random() < .9 else rng.choice("~^")
    p.t(n)
    if rng.random() < .2 and n not in "~^":
        p.t("(")
        k = rng.choice([0, 1, 2, 3])
        for j in range(k):
            if j: p.t(",")
            p.t(name(rng))
        if k and rng.random() < .3: p.t(",")
        p.t(")")
    p.t("=")
    if rng.random() < .15:
        p.t("_")
        if rng.random() < .5: p.toks.append(" ")
    if rng.random() < .5:
        p.t("{"); expr(rng, p, d, good, lit); p.t("}")
    else: expr(rng, p, d, good, lit)


def imp(rng, p):
    g = p.gap()
    if p.toks and (p.toks[-1][-1].isalnum() or p.toks[-1][-1] == "_") and not g: g = "\n"
    p.toks.append(g + "use ")
    p.t("pest" if rng.random() < .95 else name(rng), glue=rng.random() < .5)
    for _ in range(rng.choice([0, 1, 1, 2])): p.t("::"); p.t(rng.choice(["stack", "unicode", "any", "x", "as", "in", "assign"]))
    x = rng.random()
    if x < .1: p.t("in"); p.t(string(rng))
    if rng.random() < .5: p.t("as"); p.t(name(rng))


def module(rng, rules=None, good=True, lit=False):
    p = P(rng)
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        if p.toks and not p.toks[-1].endswith("\n"): p.toks.append("\n")
        if p.style == "wild" and rng.random() < .4: p.toks.append(rng.choice(["\n", " ", "// c\n", "/* */ "]))
        p.toks.append("//!" + rng.choice(["", " ", "  "]) + rng.choice(["", "Doc", "é中", "/// a", "!!"]) + rng.choice(["\n", "\r\n"]))
    for _ in range(rng.choice([0, 0, 0, 1, 2])): imp(rng, p)
    for _ in range(rules or rng.choice([1, 1, 2, 3])):
        rule(rng, p, rng.choice([0, 1, 1, 2, 2, 3]), good, lit)
        if rng.random() < .08: imp(rng, p)
    if rng.random() < .3: p.toks.append(rng.choice(SPACES + [" // end", "/* */"]))
    return p


JUNK = ["(", ")", "{", "}", "[", "]", "=", "|", "~", "^", "-", "!", "&", "?", "*", "+", ",", "::", "..", ".", "'", '"', "\\", "#", "/*", "*/", "//", "///", "//!",
        "_", "0", "1", "01", "{0}", "{2..1}", "{..0}", "[..]", "[1]", "()", "use ", "in", "as", "r#\"", "i\"", "%", "$", "@", ";", "é", "\r", "\n", "a", "i", "'a'", '"x"',
        "{99999999999999999999}", "\u00a0", "~|", "..'", "'..'"]


def corrupt(rng, p):
    toks = list(p.toks)
    for _ in range(rng.choice([1, 1, 1, 2])):
        k = rng.randrange(len(toks))
        x = rng.random()
        if x < .3: del toks[k]
        elif x < .55: toks.insert(k, rng.choice(JUNK))
        elif x < .75: toks[k] = rng.choice(JUNK)
        elif x < .85:
            j = rng.randrange(len(toks)); toks[k], toks[j] = toks[j], toks[k]
        else:
            s = toks[k]
            if len(s) > 0:
                j = rng.randrange(len(s)); toks[k] = s[:j] + rng.choice(["", "", "x", '"', "\\", "'", " "]) + s[j + 1:]
        if not toks: toks = ["a"]
    s = "".join(toks)
    if rng.random() < .15: s = s[:rng.randrange(len(s) + 1)]
    return s


BODY = ["a", '"x"', "-", "~", "|", "(", ")", "*", "{2}", "!", "=", "?"]
SIDE = ["a", "::", "[", "]", "..", "-1", "(", ")", ",", "'a'", "^", "{", "}", "1", "&", "+"]


def universe(alpha, n, head="a = ", sep=" "):
    for k in range(n + 1):
        for ts in itertools.product(alpha, repeat=k): yield head + sep.join(ts)


NEAR = ["a = {0}", "a = {1}", "a = b{0}", "a = b{1..0}", "a = b{..0}", "a = b{0..0}", "a = b{0..}", "a = b{0..1}", "a = b{..}", "a = b{01}", "a = b{1 .. 2}",
        "a = b{-1}", "a = b{1,2}", "a = b{}", "a = b{1..2..3}", "a = b[1]", "a = b[]", "a = b[..", "a = b[1..2", "a = b{2", "a = _", "a = _{", "a = _ {b}", "a = _b",
        "a = _1", "a = __", "a = _ _", "_ = _", "_ = b", "~ = b", "^ = b", "~ = ^", "a = ~", "a = b ~ = c", "a = b ~ ^ = c", "a = b ^ = c", "a = b ~ (x) = c", "a = b ~ (x, y) = c",
        "a = b ~ () = c", "a = {b} ~ (x) = c", "use x = y", "use = y", "use(a) = y", "a = use b = c", "a = b use pest::x", "use pest::x", "use pest::x a", "use pest as as a = b", "use pest as a = b",
        "use pest as = b", "use pest in = b", "use pest::(x) a = b", "use pest[1..2] a = b", "use pest(a ~ b) a = b", "use pest(a | b) a = b", "use pest() a = b", "use pest:: a = b", "use pest::a::b::c as d e = f",
        "use pest in \"\\x80\" a = b", "use pest in \"\\q\" a = b", "use pest in \"x\" as y a = b", "use pest in\"x\"as y a = b", "use pest as y in \"x\" a = b",
        "", " ", "//", "// x", "//! x", "/// x", "/// x\na = b", "a = b /// x", "a = b\n/// x", "a = b\n//! x", "//! x\n/// y\n//! z\na = b", "/// x\nuse pest::x a = b", "a /// x\n = b", "a /* x */ = b", "a = b /*", "a = b /* /* */",
        "a = b /*/", "a = b /**/", "/*/ a = b", "/* /*/ a = b", "/* /*/ */ a = b", "/* /*/ */ */ a = b", "/* * / */ a = b", "/* */ */ a = b", "//* a = b", "a = b // c\r", "a = b // c\rd", "a = b\r", "\ra = b", "a = b\r\n", "a = \u00a0b",
        "a = '''..'''", "a = ''..'a'", "a = 'ab'..'c'", "a = '\\'..'b'", "a = '\\''..'b'", "a = '\\\\'..'b'", "a = 'a'..", "a = 'a'", "a = 'a'...'b'", "a = 'a' .. 'b'", "a = 'z'..'a'", "a = 'a'..'\\x80'", "a = '\\u{d800}'..'b'", "a = '\"'..'\"'", "a = '\n'..'\r'",
        "a = '\\u{41}'..'\\x5a'", "a = '\\u {41}'..'b'", "a = \"", "a = \"\\\"", "a = \"\\\\\"", "a = i\"", "a = i \"x\"", "a = i\"\\\"\"", "a = I\"x\"", "a = r\"\\\"", "a = r\"", "a = r#\"", "a = r#\"x\"", "a = r#\"x\"##", "a = r##\"x\"#\"##", "a = r #\"x\"#", "a = r#x",
        "a = r", "a = i", "r = i", "i = r", "a = r::i", "a = i(r)", "a = r[..]", "a = b()()", "a = b[..][..]", "a = b()[..]", "a = b (c)", "a = b\n(c)", "a = (b)(c)", "a = b(c d)", "a = b(,)", "a = b(c,,)", "a = b(c,)", "a = b(c,d,)", "a(,) = b", "a(b,) = b", "a(b c) = b", "a(b)(c) = b", "a() = b", "a( = b", "a(\"x\") = b", "a(b::c) = b",
        "a::b = c", "1a = b", "a = 1", "é = a", "a = é", "a - b = c", "a = b c", "a = b = c", "a == b", "a = b; c = d", "a = b, c = d", "a = {b", "a = b}", "a = {{b}}", "a = {b}{c}", "a = ({b})", "a = {(b)}", "a = (((b)))", "a = ()", "a = {}", "a =", "a", "= b", "a = |", "a = | | b", "a = b |", "a = b | | c", "a = b ~ ~ c", "a = b ~* c", "a = b ~ * c", "a = b ~| c ~| d", "a = b ^| c | d", "a = ~| b", "a = ^| b | c", "a = (| b)", "a = b(| c)", "a = | b - c | d", "a = b - | c", "a = ! b", "a = !", "a = &!&b", "a = b!", "a = b?*+", "a = b~?~*^+", "a = b~", "a = b~~*", "a = b*~", "a = (b ~)*", "a = b{2}{3}", "a = b~{2}^{..3}", "a = !b ~ &c", "a = !(b | c)?", "a = b ~ c - d ^ e", "a = b | c ~ d | e", "a = (b | c) ~ d | e", "a = b - (c ~ d) - e", "a = ((b - c) - d) - e"]


def deep():
    for n in (5, 20, 60):
        yield "a = " + "(" * n + "b" + ")" * n
        yield "a = " + "(" * n + "b" + ")" * (n - 1)
        yield "a = " + "!" * n + "b" + "?" * n
        yield "a = " + "f(" * n + "b" + ")" * n
        yield "a = " + " ~ ".join("b" * n) + " | c" * n
        yield "/*" * n + " x " + "*/" * n + " a = b"
        yield "/*" * n + " x " + "*/" * (n - 1) + " a = b"
        yield "/* " * n + "a = b"
        yield "a = " + "(b | " * n + "c" + ")" * n
        yield "a = " + "(| b ~ " * n + "c" + ")*" * n
        yield "a = r" + "#" * n + '"' + '"' * n + "#" * (n - 1) + '"' + "#" * n
        yield "\n".join(f"r{k} = r{k + 1}" for k in range(n))
