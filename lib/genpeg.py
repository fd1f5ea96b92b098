"""Seeded random programs (grammar + input) for the dyn harness / TracePeg."""
import json, random

STRS = ["", "a", "b", "c", "ab", "ba", "aa", "abc", "é", "aé", "\n", "\r\n", " ", "A", "aB", "É", "日", "b日", "x", "😀"]
CHR_OK = {"a", "b", "é", "😀"}
RANGES = [("a", "b"), ("a", "z"), ("b", "a"), ("é", "é"), ("\0", "\U0010ffff"), ("b", "日"), ("A", "C")]
CLASSES = ["digit", "nzdigit", "bin", "oct", "hex", "lower", "upper", "alpha", "alnum", "ascii"]
REPS = [(0, -1), (1, -1), (2, -1), (3, -1), (0, 0), (0, 1), (0, 2), (0, 3), (1, 1), (1, 2), (1, 3), (2, 2), (2, 3),
        (2, 4), (3, 3), (3, 4)]

BASE = dict(str=10, ins=1, rng=2, any=2, soi=.3, eoi=.5, nl=.3, empty=.5, never=.3, skip=.3, cls=.7,
            seq=8, cho=8, opt=3, rep=4, rule=5,
            peek=0, pop=0, drop=0, peekall=0, popall=0, sl1=0, sl2=0, push=0, pos=0, neg=0)
def prof(alpha="ab", back=0.0, trivia=0.0, stk0=0.0, wide=0.08, rules=4, start=0.15, maxlen=7, strs=None, **w):
    d = dict(BASE); d.update(w)
    return dict(w=d, back=back, alpha=alpha, trivia=trivia, stk0=stk0, wide=wide, rules=rules, start=start, maxlen=maxlen, strs=strs)
STK = dict(peek=3, pop=3, drop=2, peekall=1, popall=1, sl1=1, sl2=1, push=6)
PROFILES = {
    # C01: outcome of the plain forms
    "plain": prof(rep=0, alpha="abAé\n", trivia=0.05),
    "plainwide": prof(rep=0, wide=.5, seq=6, cho=6),
    "rep": prof(rep=14, trivia=.3, alpha="ab "),
    "repstk": prof(back=.1, rep=14, trivia=.4, stk0=.5, alpha="ab ", **STK),
    "trivia": prof(rep=6, trivia=.8, alpha="ab \n", seq=10),
    "look": prof(pos=6, neg=6, alpha="ab", trivia=.1),
    "lookstk": prof(back=.12, pos=7, neg=7, stk0=.6, alpha="ab", **STK),
    "back": prof(back=.35, cho=10, opt=6, rep=5, stk0=.6, alpha="ab", trivia=.2, pos=1, neg=1, **STK),
    "stack": prof(cho=1, opt=.5, rep=1, stk0=.8, alpha="abé", seq=12, peek=4, pop=4, drop=3, peekall=4, popall=3, sl1=5, sl2=7, push=8),
    "report": prof(rule=14, pos=2, neg=4, rules=7, trivia=.2, stk0=.2, alpha="ab", peek=.7, pop=.7, drop=.7, sl2=.7, sl1=.5, push=.7),
    "lines": prof(rule=12, pos=1, neg=2, rules=6, start=0, alpha="ab\n\r\né日", nl=2, maxlen=10, any=4,
                  peek=.5, drop=.5, sl1=.3, sl2=.3, push=.3),
    "terminals": prof(alpha="abAé日b\n\r", rep=1, seq=4, cho=3, opt=1, pos=1, neg=1, str=6, ins=6, rng=6, any=3, soi=3, eoi=3, nl=4, empty=1,
                      never=.5, skip=3, cls=5, rule=1, start=.4, maxlen=4),
    "all": prof(back=.08, trivia=.3, stk0=.3, pos=2, neg=2, rule=7, alpha="ab ", **STK),
    "utf8": prof(trivia=.2, stk0=.3, pos=2, neg=2, rule=5, alpha="aéÉ日😀b\n", skip=3, ins=5, any=4, rng=4, maxlen=8,
                 strs=["é", "aé", "É", "日", "b日", "😀", "a", "b", ""], **STK),
}

class Gen:
    def __init__(self, rng, p):
        self.r = rng; self.p = p; self.nodes = []; self.null = {}
    def add(self, op, k=(), t=(), s="", lo=0, hi=0, c=None, null=False):
        self.nodes.append(dict(op=op, k=list(k), t=list(t), s=[ord(x) for x in s], lo=lo, hi=hi, c=c or op))
        self.null[len(self.nodes)] = null
        return len(self.nodes)
    def strs(self):
        if self.p["strs"]: return self.p["strs"]
        a = set(self.p["alpha"] + "x")
        return [s for s in STRS if set(s) <= a]
    def triv(self, guarded):
        """a trivia node or 0"""
        if self.r.random() >= self.p["trivia"]: return 0
        x = self.r.random()
        sp = self.add("str", s=" ")
        if x < .35: return self.add("rep", [sp], [0], lo=0, hi=-1, null=True)
        if x < .55: return self.add("rep", [sp], [0], lo=1, hi=-1)
        if x < .65: return self.add("opt", [sp], null=True)
        if x < .72: return sp
        if x < .8 and self.nr:  # trivia that is a rule
            body = self.add("rep", [sp], [0], lo=self.r.choice([0, 1]), hi=-1, null=True)
            return self.add("rule", [body], lo=9, null=True)
        if x < .9: return self.add("cho", [sp, self.add("str", s="x")])
        return self.expr(1, guarded)
    def leaf(self, guarded):
        r = self.r; w = self.p["w"]
        ops = [o for o in ("str", "ins", "rng", "any", "soi", "eoi", "nl", "empty", "never", "skip", "cls", "peek", "pop", "drop",
                           "peekall", "popall", "sl1", "sl2", "rule") if w[o] > 0]
        op = r.choices(ops, [w[o] for o in ops])[0]
        if op == "str":
            s = r.choice(self.strs())
            return self.add("str", s=s, c="chr" if s in CHR_OK and r.random() < .2 else "str", null=s == "")
        if op == "ins":
            s = r.choice(self.strs()); return self.add("ins", s=s, null=s == "")
        if op == "rng":
            a, b = r.choice(RANGES); return self.add("rng", lo=ord(a), hi=ord(b))
        if op in ("any", "nl", "never"): return self.add(op)
        if op in ("soi", "eoi", "empty"): return self.add(op, null=True)
        if op == "skip":
            n = r.choice([0, 1, 1, 2, 3]); return self.add("skip", lo=n, null=n == 0)
        if op == "cls": return self.add(r.choice(CLASSES))
        if op in ("peek", "pop", "drop", "peekall", "popall"): return self.add(op, null=True)
        if op == "sl1": return self.add("sl1", lo=r.randint(-4, 4) if r.random() < .3 else r.randint(-2, 2), null=True)
        if op == "sl2":
            m = 4 if r.random() < .3 else 2
            return self.add("sl2", lo=r.randint(-m, m), hi=r.randint(-m, m), null=True)
        if op == "rule":
            c = [x for x in self.ruleids if x in self.done or guarded]
            if not c: return self.add("str", s=r.choice([s for s in self.strs() if s]))
            x = r.choice(c)
            return self.rulenode[x]
    def stackrun(self, guarded):
        """an attempt that moves the stack around and then mostly fails: removals, pushes, checkpoints inside"""
        r = self.r; ks = []
        def p():
            k = self.add("empty", null=True) if r.random() < .3 else self.add("str", s=r.choice([x for x in self.strs() if len(x) <= 1]))
            return self.add("push", [k], null=True)
        def rem(): return self.add(r.choices(["drop", "pop", "popall"], [5, 2, 1])[0], null=True)
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])): ks.append(rem())
        for _ in range(r.choice([0, 1, 1, 2, 2, 3])): ks.append(p())
        if r.random() < .3:
            inner = self.stackrun(guarded) if r.random() < .4 else r.choice([rem, p])()
            ks.insert(r.randint(0, len(ks)), self.add("opt", [inner], null=True) if r.random() < .6 else
                      self.add("cho", [inner, self.add("empty", null=True)], null=True))
        x = r.random()
        if x < .6: ks.append(self.add("never") if r.random() < .5 else self.add("str", s=r.choice(["b", "x", "ab"])))
        elif x < .7: ks.append(self.leaf(guarded))
        while len(ks) < 2: ks.append(self.add("never"))
        ks = ks[:8]
        return self.add("seq", ks, [0] * len(ks), null=True)
    def backtrack(self, guarded):
        r = self.r; x = r.random()
        if x < .5:
            n = r.choice([2, 2, 3, 4])
            ks = [self.stackrun(guarded) for _ in range(n - 1)] + [r.choice([self.leaf, self.stackrun])(guarded)]
            b = self.add("cho", ks, null=True)
        elif x < .7: b = self.add("opt", [self.stackrun(guarded)], null=True)
        elif x < .85:
            lo, hi = r.choice([(0, 1), (0, 2), (0, 3), (1, 2), (1, 3)])
            b = self.add("rep", [self.stackrun(guarded)], [self.triv(guarded)], lo=lo, hi=hi, null=True)
        else: b = self.add(r.choice(["pos", "neg"]), [self.stackrun(guarded)], null=True)
        obs = self.add(*r.choice([("peek",), ("pop",), ("peekall",), ("popall",), ("drop",)]), null=True)
        ks = [b, obs]
        if r.random() < .5: ks.insert(0, self.add("push", [self.leaf(guarded)], null=True))
        if r.random() < .4: ks.append(self.leaf(guarded))
        return self.add("seq", ks, [0] * len(ks), null=True)
    def expr(self, d, guarded):
        r = self.r; w = self.p["w"]
        if d > 0 and r.random() < self.p["back"]: return self.backtrack(guarded)
        if d <= 0 or r.random() < .15: return self.leaf(guarded)
        ops = [o for o in ("seq", "cho", "opt", "rep", "pos", "neg", "push") if w[o] > 0] + ["leaf"]
        ws = [w[o] for o in ops[:-1]] + [max(2, w["rule"])]
        op = r.choices(ops, ws)[0]
        if op == "leaf": return self.leaf(guarded)
        if op == "seq":
            n = r.randint(5, 12) if r.random() < self.p["wide"] else r.choice([2, 2, 2, 3, 3, 4])
            ks, ts = [], []
            g = guarded
            for i in range(n):
                ts.append(0 if i == 0 else self.triv(g))
                if ts[-1]: g = g or not self.null[ts[-1]]
                ks.append(self.expr(d - 1 if n < 5 else min(d - 1, 1), g))
                g = g or not self.null[ks[-1]]
            return self.add("seq", ks, ts, null=all(self.null[k] for k in ks))
        if op == "cho":
            n = r.randint(5, 12) if r.random() < self.p["wide"] else r.choice([2, 2, 2, 3, 3, 4])
            ks = [self.expr(d - 1 if n < 5 else min(d - 1, 1), guarded) for _ in range(n)]
            return self.add("cho", ks, null=any(self.null[k] for k in ks))
        if op == "rep":
            k = self.expr(d - 1, guarded)
            reps = REPS
            if self.null[k]: reps = [x for x in REPS if x[1] >= 0]
            lo, hi = r.choice(reps)
            return self.add("rep", [k], [self.triv(guarded)], lo=lo, hi=hi, null=lo == 0 or self.null[k])
        k = self.expr(d - 1, guarded)
        return self.add(op, [k], null=True if op != "push" else self.null[k])
    def program(self):
        r = self.r
        self.nr = r.randint(0, min(8, self.p["rules"])) if self.p["w"]["rule"] else 0
        self.ruleids = list(range(1, self.nr + 1)); self.rulenode = {}; self.done = set()
        for i in self.ruleids:   # placeholder nodes so that rules can refer to each other
            self.rulenode[i] = self.add("rule", [0], lo=i, null=True)
        for i in reversed(self.ruleids):
            body = self.expr(r.choice([0, 1, 1, 2, 2, 3]), False)
            n = self.rulenode[i]
            self.nodes[n - 1]["k"] = [body]; self.null[n] = self.null[body]
            self.done.add(i)
        if self.nr and r.random() < .4: root = self.rulenode[1]
        else: root = self.expr(r.choice([1, 2, 2, 3]), False)
        return root
    # sampling an input that is likely to match
    def sample(self, n, st, d=0):
        r = self.r; x = self.nodes[n - 1]; op = x["op"]; k = x["k"]
        self.budget -= 1
        if d > 25 or self.budget < 0: return ""
        S = lambda m: self.sample(m, st, d + 1)
        if op == "str": return "".join(map(chr, x["s"]))
        if op == "ins": return "".join(chr(c).upper() if r.random() < .5 and c < 128 else chr(c) for c in x["s"])
        if op == "rng":
            c = [ch for ch in self.p["alpha"] if x["lo"] <= ord(ch) <= x["hi"]]
            return r.choice(c) if c else ""
        if op == "any": return r.choice(self.p["alpha"])
        if op == "nl": return r.choice(["\n", "\r\n", "\r"])
        if op == "skip": return "".join(r.choice(self.p["alpha"]) for _ in range(x["lo"]))
        if op in CLASSES: return r.choice({"digit": "09", "nzdigit": "19", "bin": "01", "oct": "07", "hex": "0fFaA9", "lower": "az",
                                           "upper": "AZ", "alpha": "azAZ", "alnum": "aZ0", "ascii": "a\x7f"}[op])
        if op in ("peek", "pop"):
            if not st: return ""
            return st[-1] if op == "peek" else st.pop()
        if op == "drop":
            if st: st.pop()
            return ""
        if op in ("peekall", "popall"):
            s = "".join(reversed(st))[:40]
            if op == "popall": st.clear()
            return s
        if op in ("sl1", "sl2"):
            f = lambda i: i if i >= 0 else len(st) + i
            a = f(x["lo"]); b = len(st) if op == "sl1" else f(x["hi"])
            return "".join(st[max(a, 0):b])
        if op == "push":
            s = S(k[0])[:20]; st.append(s); del st[:-8]; return s
        if op == "pos":
            S(k[0]) if False else None
            return ""
        if op == "opt": return S(k[0]) if r.random() < .6 else ""
        if op == "seq":
            out = ""
            for i, m in enumerate(k):
                if x["t"][i]: out += S(x["t"][i])
                out += S(m)
            return out
        if op == "cho": return S(r.choice(k))
        if op == "rep":
            hi = x["hi"] if x["hi"] >= 0 else x["lo"] + 2
            n = r.randint(x["lo"], hi + (1 if r.random() < .15 else 0))
            out = ""
            for i in range(n):
                if i and x["t"][0]: out += S(x["t"][0])
                out += S(k[0])
            return out
        if op == "rule": return S(k[0])
        return ""
    def inputs(self, root, n):
        r = self.r; al = self.p["alpha"]; mx = self.p["maxlen"]; out = []
        for _ in range(n):
            x = r.random()
            if x < .2: s = "".join(r.choice(al) for _ in range(r.randint(0, mx)))
            else:
                self.budget = 300
                s = self.sample(root, [])
                if x > .5 and s:
                    i = r.randrange(len(s))
                    y = r.random()
                    if y < .3: s = s[:i] + s[i + 1:]
                    elif y < .6: s = s[:i] + r.choice(al) + s[i + 1:]
                    elif y < .8: s = s + r.choice(al)
                    else: s = s[:i] + r.choice(al) + s[i:]
            s = s[:mx + 6]
            out.append(s)
        return out

class TooLong(Exception): pass

def cost(nodes, root, inp, start, stk0, limit, classes=()):
    """Number of node evaluations a program needs (a sizing aid for generation, not an oracle); TooLong beyond the limit."""
    cnt = 0; N = len(inp)
    low = lambda s: "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)
    cls = dict(digit=str.isdigit, nzdigit=lambda c: c in "123456789", bin=lambda c: c in "01", oct=lambda c: c in "01234567",
               hex=lambda c: c in "0123456789abcdefABCDEF", lower=str.islower, upper=str.isupper, alpha=str.isalpha, alnum=str.isalnum,
               ascii=lambda c: c < "\x80", any=lambda c: True)
    def lit(s, p, st): return (p + len(s), st) if inp.startswith(s, p) else None
    def ev(n, p, st):
        nonlocal cnt
        cnt += 1
        if cnt > limit: raise TooLong
        x = nodes[n - 1]; op = x["op"]; k = x["k"]
        if op == "str": return lit("".join(map(chr, x["s"])), p, st)
        if op == "ins":
            s = "".join(map(chr, x["s"])); return (p + len(s), st) if low(inp[p:p + len(s)]) == low(s) and p + len(s) <= N else None
        if op == "rng": return (p + 1, st) if p < N and x["lo"] <= ord(inp[p]) <= x["hi"] else None
        if op in cls: return (p + 1, st) if p < N and (op == "any" or inp[p] < "\x80") and cls[op](inp[p]) else None
        if op == "uni": return (p + 1, st) if p < N and any(a <= ord(inp[p]) <= b for a, b in classes[x["lo"] - 1]) else None
        if op == "skip": return (p + x["lo"], st) if p + x["lo"] <= N else None
        if op == "nl":
            for s in ("\r\n", "\n", "\r"):
                if inp.startswith(s, p): return p + len(s), st
            return None
        if op == "soi": return (p, st) if p == 0 else None
        if op == "eoi": return (p, st) if p == N else None
        if op == "empty": return p, st
        if op == "never": return None
        T = lambda sp: inp[sp[0]:sp[1]]
        if op == "peek": return lit(T(st[-1]), p, st) if st else None
        if op == "pop": return lit(T(st[-1]), p, st[:-1]) if st else None
        if op == "drop": return (p, st[:-1]) if st else None
        if op in ("peekall", "popall"): return lit("".join(T(x) for x in reversed(st)), p, st if op == "peekall" else ())
        if op in ("sl1", "sl2"):
            a, b = x["lo"], x["hi"] if op == "sl2" else len(st)
            if a < 0: a += len(st)
            if b < 0: b += len(st)
            if not (0 <= a <= len(st) and 0 <= b <= len(st)): return None
            return lit("".join(T(x) for x in st[a:b]), p, st)
        if op == "seq":
            for i, m in enumerate(k):
                if i and x["t"][i]:
                    r = ev(x["t"][i], p, st)
                    if r is None: return None
                    p, st = r
                r = ev(m, p, st)
                if r is None: return None
                p, st = r
            return p, st
        if op == "cho":
            for m in k:
                r = ev(m, p, st)
                if r is not None: return r
            return None
        if op == "opt": return ev(k[0], p, st) or (p, st)
        if op == "rep":
            n = 0
            while n != x["hi"]:
                q, s = p, st
                if n and x["t"][0]:
                    r = ev(x["t"][0], q, s)
                    if r is None: break
                    q, s = r
                r = ev(k[0], q, s)
                if r is None: break
                p, st = r; n += 1
            return (p, st) if n >= x["lo"] else None
        if op in ("pos", "neg"):
            r = ev(k[0], p, st)
            return (p, st) if (r is not None) == (op == "pos") else None
        if op == "push":
            r = ev(k[0], p, st)
            return None if r is None else (r[0], r[1] + ((p, r[0]),))
        if op == "rule": return ev(k[0], p, st)
        raise AssertionError(op)
    ev(root, start, tuple(map(tuple, stk0)))
    return cnt

LIMIT = 1500

def cases(seed, profile, count, per=5, first=1):
    rng = random.Random(f"{seed}/{profile}")
    p = PROFILES[profile]; out = []; n = first
    while len(out) < count:
        g = Gen(rng, p)
        root = g.program()
        if len(g.nodes) > 70: continue
        seen = set()
        for s in g.inputs(root, per):
            start = 0; stk0 = []; snaps = []
            if rng.random() < p["start"]:
                pre = "".join(rng.choice(p["alpha"]) for _ in range(rng.randint(0, 3)))
                s, start = pre + s, len(pre)
            if rng.random() < p["stk0"]:
                m = rng.randint(1, 3)
                for _ in range(m):
                    a = rng.randint(0, len(s)); b = min(len(s), a + rng.choice([0, 1, 1, 1, 2]))
                    stk0.append([a, b])
                snaps = sorted(rng.sample(range(0, m + 1), rng.randint(0, m + 1)))
            key = (s, start, str(stk0))
            if key in seen: continue
            seen.add(key)
            try: cost(g.nodes, root, s, start, stk0, LIMIT)
            except (TooLong, RecursionError): continue
            out.append(dict(id=n, prof=profile, inp=[ord(c) for c in s], chs=list(s), start=start, stk0=stk0, snaps=snaps,
                            root=root, nodes=g.nodes))
            n += 1
    return out[:count]

if __name__ == "__main__":
    import sys
    for c in cases(sys.argv[1], sys.argv[2], int(sys.argv[3])): print(json.dumps(c, ensure_ascii=False))
