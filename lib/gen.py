"""Grammar projects through the derive macro and the compiler, and the parsers that come out against spec/Link.tla and spec/PegMachine.tla."""
import glob, json, os, random, re, shutil
import gengen, genpeg, vp

HERE = os.path.join(vp.ROOT, "harness", "gen")
RUNTAGS = {"out", "outc", "stk", "stkc", "bal", "balc", "pairs", "nest", "disp", "rep", "repc", "frep", "frepc", "msg", "msgf", "fout", "foutc",
           "fstk", "fstkc", "epp", "epf", "ecp", "ecf", "tpp", "tpf", "panic", "tree", "ftree", "equal", "views"}
SHARDS = 8


def classes():
    out = {}
    for line in open(os.path.join(vp.SPEC, "unicode_classes.ndjson")):
        r = json.loads(line); out[r["name"].lower()] = r["set"]
    return out


def member(cls, c): return any(a <= c <= b for a, b in cls)


def rstr(s):
    out = '"'
    for c in s:
        if c in '"\\': out += "\\" + c
        elif c == "\n": out += "\\n"
        elif 32 <= ord(c) < 127: out += c
        else: out += "\\u{%x}" % ord(c)
    return out + '"'


def attributes(p):
    """the attributes of a project as they are written, and as the specification sees them"""
    out = []
    for k, (kind, v) in enumerate(p["given"]):
        if kind == "file":
            names = v.split("/"); names[-1] = names[-1][:-5] if names[-1].endswith(".pest") else names[-1]
            out.append(dict(src=f"grammar = {rstr(v)}", name="grammar", form="str", val=names))
        else: out.append(dict(src=f"grammar_inline = {rstr(v)}", name="grammar_inline", form="str", val=[p["roots"][k]]))
    for f in p["flags"]:
        m = re.match(r'(\w+)\s*(?:(=)\s*(.*))?(.*)$', f, re.S); name, eq, v, rest = m.groups()
        a = dict(src=f, name=name, form="flag", val=[])
        if eq and v in ("true", "false"): a.update(form="bool", val=[int(v == "true")])
        elif eq and v.startswith('"'): a.update(form="str", val=[ord(c) for c in json.loads(v)])
        elif eq or rest: a.update(form="other")
        if name == "grammar" and a["form"] == "str": a["val"] = json.loads(v).removesuffix(".pest").split("/")
        out.append(a)
    if "order" in p: out = [out[i] for i in p["order"]]
    return out


class Projects:
    """The projects of one run: written to disk, given to the macro, linked by the specification."""
    def __init__(self, ctx):
        self.ctx = ctx
        self.base = os.path.join(vp.ROOT, "work", "gen", ctx.prop)
        shutil.rmtree(self.base, ignore_errors=True)
        self.items = {}            # id -> project
        self.docs = "docs" in PLAN.get(ctx.prop, (0, 0, ()))[2]
        self.told = "said" in PLAN.get(ctx.prop, (0, 0, ()))[2]
        self.rng = random.Random(f"{ctx.seed}/{ctx.prop}/gen")

    def shard(self, pid): return os.path.join(self.base, f"s{pid % SHARDS}")

    def add(self, make):
        """make(rng, id, directory) -> project"""
        pid = len(self.items) + 1
        p = make(self.rng, pid, self.shard(pid))
        p["id"] = pid; p["dir"] = self.shard(pid); p["attrs"] = attributes(p)
        self.items[pid] = p
        return p

    def write(self):
        for p in self.items.values():
            for f in p["files"]:
                if f["path"] == ["_"]: continue
                path = os.path.join(p["dir"], *f["path"]) + ".pest"
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "w", newline="") as g: g.write(f["text"])

    def derive(self):
        vp.cargo_build("gen/derive")
        exe = os.path.join(HERE, "derive/target/debug/derive-harness")
        rows = [dict(id=p["id"], dir=p["dir"], docs=self.docs, attrs=[a["src"] for a in p["attrs"]]) for p in self.items.values()]
        ans, dead = vp.run_rows(self.ctx, exe, rows)
        for a in ans: self.items[a["id"]].update(res=a["res"], why=a["why"], docs=a.get("docs", []))
        for r, why in dead:
            self.items[r["id"]].update(res="died", why=why)
            self.violation("crash", self.items[r["id"]], why)

    def violation(self, tag, p, detail, **more):
        key = json.dumps([[f["text"] for f in p["files"]], p["flags"]] + ([more["input"]] if "input" in more else []), ensure_ascii=False)
        self.ctx.violation(tag, key, dict(given=p["given"], flags=p["flags"], files={"/".join(f["path"]): f["text"] for f in p["files"]}, macro=[p.get("res"), p.get("why")],
                                          detail=detail, **more))

    def said(self, p):
        """the places (line, column), the files and the words in the message of a refusal"""
        index = {os.path.normpath("".join(map(chr, f["full"]))): k for k, f in enumerate(p["files"], 1) if f["full"]}
        places, files = [], []
        for line in p["why"].split("\n"):
            m = re.match(r"\s*--> (\d+):(\d+)$", line)
            if m:
                places.append([int(m[1]), int(m[2])]); files.append(dict(file=0, name=[]))
            elif places and line.lstrip().startswith("= "):
                m = re.search(r'"((?:[^"\\]|\\.)*)"', line)
                name = re.sub(r"\\(u\{([0-9a-f]+)\}|.)", lambda e: chr(int(e[2], 16)) if e[2] else dict(n="\n", r="\r", t="\t").get(e[1], e[1]), m[1]) if m else ""
                if m: files[-1] = dict(file=index.get(os.path.normpath(name), 0), name=[ord(c) for c in name])
        return dict(places=places, files=files, words=sorted(set(re.findall(r"[A-Za-z_][A-Za-z_0-9]*|[~^]", p["why"]))))

    def link(self, tags):
        uni = self.ctx.path("uni.ndjson")
        names = classes(); vp.jsonl(uni, sorted(names))
        rows = [dict(id=p["id"], cap=400 if "big" in p else 80, res=p["res"], asked=self.docs, docs=p["docs"], calls=p.get("calls", []), told=p.get("told", "all") if self.told else "", said=self.said(p) if self.told else [], attrs=[{k: a[k] for k in ("name", "form", "val")} for a in p["attrs"]], files=[dict(path=f["path"], full=f["full"], text=[ord(c) for c in f["text"]]) for f in p["files"]])
                for p in self.items.values() if p["res"] != "died"]
        random.Random(1).shuffle(rows)
        bad = vp.tlc_judge(self.ctx, "TraceLink", rows, chunks=min(vp.CPUS, max(1, len(rows) // 8)), heap="3g", envv=dict(UNI=uni))
        for f in glob.glob(os.path.join(self.ctx.scratch, "TraceLink-*", "*.ndjson.out")):
            for line in open(f):
                r = json.loads(line); self.items[r["id"]]["out"] = r["out"]
            os.unlink(f)
        for i, tag, text in bad:
            if tag in tags: self.violation(tag, self.items[i], text)

    # -- compiling --------------------------------------------------------------
    def glue(self, p):
        o = p["out"]; rm = "".join(map(chr, o["cfg"]["rules"])); getters = o["cfg"]["getters"]; pairs = o["cfg"]["pairs"]
        attrs = "".join(f"    #[{a['src']}]\n" for a in p["attrs"])
        s = f"use support::{{json, Dump, Value}};\npub mod g {{\n    #[derive(pest3::Parser)]\n{attrs}    pub struct P;\n}}\nuse g::{{{rm}, Rule, P}};\n"
        def ty(t, args=""): return "::".join([rm] + [x for a in t["inst"] for x in (a, rm)] + [f"r#{t['name']}"])
        if not pairs: s += "trait Pairless {}\nimpl<T: support::PairContainer<Rule>> Pairless for T {}\n"
        for k, t in enumerate(o["types"]):
            ps = [f"A{i}" for i in range(len(t["params"]))]
            accs = "".join(f'({rstr(a)}, support::Acc::acc(&self.r#{a}())), ' for a in t["accs"]) if getters else ""
            if not getters and t["accs"]:       # were they there, they would be called, and have another type
                s += (f"trait No{k} {{ {' '.join(f'fn r#{a}(&self) -> support::Absent {{ support::Absent }}' for a in t['accs'])} }}\n"
                      f"impl<'i, {', '.join(ps)}> No{k} for {ty(t)}<'i, {', '.join(ps)}> {{}}\n"
                      f"fn no{k}<'i, {', '.join(ps)}>(x: &{ty(t)}<'i, {', '.join(ps)}>) {{ {' '.join(f'let _: support::Absent = x.r#{a}();' for a in t['accs'])} }}\n")
            if not pairs and not ps:            # were it one, it would have two implementations
                s += f"impl Pairless for {ty(t)}<'static> {{}}\n"
            s += (f"impl<'i, {', '.join(q + ': Dump' for q in ps)}> Dump for {ty(t)}<'i, {', '.join(ps)}> {{\n"
                  f"    fn dump(&self, full: bool) -> Value {{ support::view(support::name(&<Self as support::RuleWrapper>::RULE) == {rstr(t['name'])}); support::rule({rstr(t['shown'])}, &self.span, &|f| self.content.dump(f), full, &|| vec![{accs}]) }}\n"
                  f"    fn brief(&self) -> Value {{ support::rule_brief({rstr(t['shown'])}, &self.span) }}\n}}\n")
        for op, n in sorted(map(tuple, o["wide"])):
            if op == "seq": s += "support::dump_seq!(g::generics::Sequence%d<%s>, %s);\n" % (n, ", ".join(f"T{i}, R{i}" for i in range(n)), ", ".join(f"field_{i} T{i} R{i}" for i in range(n)))
            else: s += "support::dump_cho!(g::generics::Choice%d<%s>, %s);\n" % (n, ", ".join(f"T{i}" for i in range(n)), ", ".join(f"{i} Choice{i} T{i} choice_{i}" for i in range(n)))
        s += "pub fn run(row: &Value) -> Value {\n    let _ = json!(0);\n    match row[\"rt\"].as_u64().unwrap() {\n"
        def asked(t): return f"{ty(t)}<{', '.join(chr(39) + 'static' if a is None else asked(dict(inst=[], **a)) for a in [None] + t['args'])}>"
        pairs_of = "Some(support::pairs::<Rule, _>)" if pairs else "None"
        for i, st in enumerate(p["starts"]): s += f"        {i} => support::observe::<Rule, {asked(st)}, P>(row, {pairs_of}),\n"
        return s + "        _ => unreachable!(),\n    }\n}\n"

    def compile(self, tags):
        """Compiles every project the specification and the macro both take; returns those that compile."""
        ok = {i: p for i, p in self.items.items() if p.get("res") == "built" and p.get("out", {}).get("res") == "built" and p["out"]["starts"]}
        for p in ok.values(): self.choose_starts(p)
        for s in range(SHARDS):
            d = os.path.join(self.base, f"s{s}"); os.makedirs(os.path.join(d, "src"), exist_ok=True)
            with open(os.path.join(d, "Cargo.toml"), "w") as f:
                f.write(f'[package]\nname = "s{s}"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nsupport = {{ path = "{HERE}/support" }}\n'
                        f'pest3 = {{ path = "{vp.REPO}/pest", features = ["derive"] }}\n')
        with open(os.path.join(self.base, "Cargo.toml"), "w") as f:
            f.write("[workspace]\nresolver = \"2\"\nmembers = [%s]\n[profile.dev]\nopt-level = 0\ndebug = 0\nincremental = false\n" % ", ".join(f'"s{s}"' for s in range(SHARDS)))
        shutil.copy(os.path.join(vp.REPO, "Cargo.lock"), os.path.join(self.base, "Cargo.lock"))
        for p in ok.values():
            with open(os.path.join(p["dir"], "src", f"g{p['id']}.rs"), "w") as f: f.write(self.glue(p))
        env = vp.env(); env["CARGO_TARGET_DIR"] = os.path.join(vp.ROOT, "work", "gen-target")
        for rnd in range(6):
            for s in range(SHARDS):
                ids = [i for i in ok if i % SHARDS == s]
                with open(os.path.join(self.base, f"s{s}", "src", "main.rs"), "w") as f:
                    f.write('#![recursion_limit = "2048"]\n#![allow(warnings)]\n' + "".join(f"mod g{i};\n" for i in ids) +
                            "fn main() { support::serve(|row| match row[\"g\"].as_u64().unwrap() {\n" + "".join(f"    {i} => g{i}::run(row),\n" for i in ids) +
                            "    _ => unreachable!(),\n}) }\n")
            r = vp.sh(["cargo", "build", "--offline", "--quiet", "--keep-going", "--message-format=json"], cwd=self.base, env_=env, timeout=800)
            if r.returncode == 0: break
            errs = {}; other = []
            for line in r.stdout.splitlines():
                try: m = json.loads(line)
                except ValueError: continue
                if m.get("reason") != "compiler-message" or m["message"]["level"] not in ("error", "error: internal compiler error"): continue
                hit = False
                for sp in spans(m["message"]):
                    b = os.path.basename(sp)
                    if b.startswith("g") and b.endswith(".rs") and b[1:-3].isdigit():
                        errs.setdefault(int(b[1:-3]), []).append(m["message"]["rendered"][:1500]); hit = True; break
                if not hit and m["message"]["spans"]: other.append(m["message"]["rendered"][:1500])
            if not errs or rnd == 5: raise vp.ToolError("cargo build of generated parsers failed:\n" + "\n".join(other)[:3000] + r.stderr[-2000:])
            for i, e in errs.items():
                if i not in ok: continue
                if "compile" in tags: self.violation("compile", ok[i], e[:3])
                del ok[i]
        if "watched" in tags: self.watched(ok)
        self.exe = lambda s: os.path.join(vp.ROOT, "work", "gen-target", "debug", f"s{s}")
        return ok

    def watched(self, ok):
        """the files each parser is rebuilt for: what the compiler says the crate depends on"""
        deps = {}
        for s in range(SHARDS):
            for w in re.split(r"(?<!\\)\s+", open(os.path.join(vp.ROOT, "work", "gen-target", "debug", f"s{s}.d")).read()):
                w = os.path.realpath(w.replace("\\ ", " ").rstrip(":"))
                m = re.search(r"/p(\d+)/", w)
                if m and w.endswith(".pest"): deps.setdefault(int(m.group(1)), set()).add(w)
        for i, p in ok.items():
            want = {os.path.realpath("".join(map(chr, p["files"][f - 1]["full"]))) for f in p["out"]["reads"]}
            if want != deps.get(i, set()):
                self.violation("watched", p, dict(read=sorted(want), rebuilt_for=sorted(deps.get(i, set()))))

    def choose_starts(self, p):
        st = p["out"]["starts"]; rng = random.Random(p["id"])
        if p.get("every"):
            if isinstance(p["inputs"], dict): st = [x for x in st if x["name"] in p["inputs"]]
            p["starts"] = st; return
        own = [x for x in st if not x["inst"] and not x["args"]]; far = [x for x in st if x["inst"]]; calls = [x for x in st if x["args"]]
        rng.shuffle(own); rng.shuffle(far); rng.shuffle(calls)
        p["starts"] = own[:4 if not calls else 3] + far[:1] + calls[:2]

    # -- running ----------------------------------------------------------------
    def rows(self, ok, per):
        cls = classes(); rows = []; dropped = 0
        for p in ok.values():
            nodes = p["out"]["nodes"]; rng = random.Random(f"{self.ctx.seed}/{p['id']}/inputs")
            alpha = alphabet(nodes)
            for k, st in enumerate(p["starts"]):
                ns, root, unis = prune(nodes, st["node"])
                if len(ns) > 150 and "big" not in p: dropped += 1; continue
                if not p["out"]["cfg"]["getters"]:
                    ns = [dict(n, accs=[]) for n in ns]
                g = Sampler(rng, ns, alpha, [cls[u] for u in unis])
                seen = set()
                given = p.get("inputs")
                if isinstance(given, dict): given = given.get(st["name"], [])
                for s in given if given is not None else g.inputs(root, per):
                    start = 0
                    if "inputs" not in p and rng.random() < .12:
                        pre = "".join(rng.choice(alpha) for _ in range(rng.randint(1, 2))); s = pre + s; start = len(pre)
                    if (s, start) in seen: continue
                    seen.add((s, start))
                    try: "big" in p or genpeg.cost(ns, root, s, start, [], genpeg.LIMIT, g.classes)
                    except (genpeg.TooLong, RecursionError): dropped += 1; continue
                    cp = [ord(c) for c in s]
                    rows.append(dict(id=len(rows) + 1, g=p["id"], rt=k, inp=cp, chs=list(s), start=start, stk0=[], snaps=[], root=root, nodes=ns, names=p["out"]["names"],
                                     uni=[sorted({c for c in cp if member(x, c)}) for x in g.classes]))
        self.ctx.extra["rows_dropped_as_too_long"] = dropped
        return rows

    def run(self, rows):
        obs = []
        from concurrent.futures import ThreadPoolExecutor
        def one(s):
            part = [r for r in rows if r["g"] % SHARDS == s]
            send = [{k: r[k] for k in ("id", "g", "rt", "inp", "start", "stk0")} for r in part]
            return vp.run_rows(self.ctx, self.exe(s), send, procs=1) if send else ([], [])
        byid = {r["id"]: r for r in rows}
        with ThreadPoolExecutor(SHARDS) as ex:
            for ans, dead in ex.map(one, range(SHARDS)):
                for a in ans:
                    r = dict(byid[a["id"]]); r["obs"] = numbered(a["obs"], r["names"]); obs.append(r)
                for r, why in dead: self.violation("crash", self.items[r["g"]], why, input="".join(map(chr, r["inp"])))
        return obs

    def judge(self, obs, tags):
        byid = {r["id"]: r for r in obs}
        rows = list(obs); random.Random(1).shuffle(rows)
        for i, tag, text in vp.tlc_judge(self.ctx, "TracePeg", rows, heap="3g"):
            if tag in tags:
                r = byid[i]; p = self.items[r["g"]]
                self.violation(tag, p, text, input="".join(r["chs"]), start=r["start"], rule=p["starts"][r["rt"]]["name"], obs=r["obs"])


def spans(m):
    """file names of a compiler message, through macro expansions"""
    for s in m["spans"]:
        while s:
            yield s["file_name"]
            s = (s.get("expansion") or {}).get("span")
    for c in m["children"]: yield from spans(c)


def numbered(obs, names):
    num = {"EOI": 0, "": -1}
    for i, n in enumerate(names): num[n] = i + 1
    f = lambda n: num.get(n, -99)
    def pair(p): return [f(p[0]), p[1], p[2], [pair(x) for x in p[3]]]
    for v in obs.values():
        if not isinstance(v, dict): continue
        if "rep" in v: v["rep"]["att"] = [[f(u), list(map(f, a)), list(map(f, b)), s] for u, a, b, s in v["rep"]["att"]]
        if "pairs" in v: v["pairs"] = [pair(x) for x in v["pairs"]]
    return obs


def alphabet(nodes):
    out = []
    for n in nodes:
        if n["op"] in ("str", "ins"): out += map(chr, n["s"])
        if n["op"] == "rng": out += [chr(c) for c in (n["lo"], n["hi"]) if c not in (0, 0x10ffff)]
    return sorted(set(out)) + ["a", "b", "1", " "] if len(set(out)) < 14 else sorted(set(out))


def prune(nodes, root):
    """the nodes reachable from root, renumbered; Unicode classes become indices"""
    num = {}; order = []
    todo = [root]
    while todo:
        n = todo.pop()
        if n in num: continue
        order.append(n); num[n] = len(order)
        x = nodes[n - 1]; todo += [m for m in x["k"] + x["t"] if m and m not in num]
    unis = []; out = []
    for n in order:
        x = dict(nodes[n - 1])
        x["k"] = [num[m] for m in x["k"]]; x["t"] = [num[m] if m else 0 for m in x["t"]]
        if x["op"] == "uni":
            if x["uni"] not in unis: unis.append(x["uni"])
            x["lo"] = unis.index(x["uni"]) + 1
        del x["uni"]; out.append(x)
    return out, 1, unis


class Sampler(genpeg.Gen):
    def __init__(self, rng, nodes, alpha, classes):
        self.r = rng; self.nodes = nodes; self.p = dict(alpha=alpha, maxlen=8); self.classes = classes; self.budget = 0

    def sample(self, n, st, d=0):
        x = self.nodes[n - 1]
        if x["op"] == "uni":
            a, b = self.r.choice(self.classes[x["lo"] - 1]); c = self.r.choice([a, b])
            return chr(c) if not 0xd800 <= c <= 0xdfff else "a"
        if x["op"] == "rng" and self.r.random() < .7:
            return chr(x["lo"]) if self.r.random() < .5 and x["lo"] <= x["hi"] else chr(x["hi"])
        if x["op"] in ("pos",) and self.r.random() < .05: return super().sample(x["k"][0], st, d + 1)
        return super().sample(n, st, d)


LINKED = {"verdict", "compile"}
# property -> (projects of every profile, faulty projects (number, faults, imports), tags)
STACKED = {"out", "outc", "stk", "stkc", "panic"} | LINKED
PLAN = {
    "C01": (dict(genplain=60), None, {"out", "outc", "panic"} | LINKED),
    "C02": (dict(genrep=50), None, STACKED | {"tree", "pairs"}),
    "C04": (dict(genlook=60), None, STACKED),
    "C05": (dict(genback=60), None, STACKED),
    "C06": (dict(genstack=50), None, STACKED | {"tree"}),
    "C07": (dict(gen=50), None, {"twin", "twinstk", "twinrep", "twinmsg", "ftwin", "ftwinrep", "ftwinmsg", "panic", "compile"}),
    "C08": (dict(genreport=50), None, {"fout", "foutc", "fstk", "fstkc", "ftree", "epp", "epf", "ecp", "ecf", "tpp", "tpf", "frep", "frepc", "panic", "compile"}),
    "C09": (dict(genreport=60), None, {"rep", "repc", "frep", "frepc", "panic", "compile"}),
    "C10": (dict(genreport=60), None, {"msg", "msgf", "panic", "compile"}),
    "C22": (dict(), None, {"out", "outc", "tree", "panic"} | LINKED),
    "C24": (dict(genutf=60), None, {"panic", "bound", "nest", "compile"}),
    "C03": (dict(gentrivia=70), None, {"out", "outc", "stk", "stkc", "tree", "pairs", "panic"} | LINKED),
    "C11": (dict(genpairs=80), None, {"pairs", "nest", "disp", "panic", "compile"}),
    "C12": (dict(gentree=80), None, {"tree", "ftree", "panic", "compile"}),
    "C14": (dict(genlit=90), None, {"out", "outc", "panic"} | LINKED),
    "C15": (dict(), (500, gengen.FAULTS, .5), {"verdict"}),
    "C16": (dict(gen=500), (100, gengen.FAULTS, .3), RUNTAGS | LINKED),
    "C17": (dict(genparams=500), (80, ["args", "silent", "none"], .3), RUNTAGS | LINKED),
    "C18": (dict(genimports=450), (150, ["name", "import", "alias", "none"], 1), RUNTAGS | LINKED),
    "C25": (dict(genopts=240), (160, None), RUNTAGS | LINKED),
    "C26": (dict(genvalue=130, genrep=30), None, {"equal", "views", "tree", "panic", "compile"}),
    "C27": (dict(genfiles=330), None, {"watched"} | LINKED),
    "C28": (dict(gendocs=420), None, {"docs", "verdict"}),
    "C30": (dict(), (800, gengen.FAULTS, .5), {"said"}),
    "C23": (dict(genbox=350, gengraph=200), None, RUNTAGS | LINKED),
}
FIXED = {"C01": gengen.widths, "C02": gengen.bounds, "C03": lambda: gengen.bounds() + gengen.trivias(), "C06": gengen.slices, "C12": lambda: gengen.occurrences() + gengen.lookalikes()[-1:] + gengen.widths(),
         "C14": gengen.lookalikes, "C15": lambda: gengen.strangers() + gengen.miscalls(), "C30": lambda: gengen.strangers() + gengen.miscalls(), "C16": lambda: gengen.lookalikes() + gengen.widths() + gengen.bounds() + gengen.slices() + gengen.builtins(classes()), "C17": lambda: gengen.parameters() + gengen.miscalls(), "C18": lambda: [gengen.trivia_of_inlined] + gengen.aliases() + gengen.parameters() + gengen.strangers(),
         "C22": lambda: gengen.builtins(classes()), "C23": gengen.cycles, "C26": lambda: gengen.widths() + gengen.bounds() + gengen.values(), "C25": gengen.mixtures, "C27": gengen.samenames}
LARGE = dict(C01="deep", C02="rep", C03="deep", C04="deep", C05="rec deep", C06="stack", C07="rep stack rec", C08="rec report", C09="report", C10="report", C11="rec many", C12="rec acc", C14="lit", C16="rep lit stack args deep many",
             C17="args", C18="modules", C23="rec many", C25="modules many", C26="rep rec", C27="modules", C28="text many modules")

FAULTY = dict(C30=[(gengen.misread, 1800), (gengen.misgiven, 90)])       # more projects to refuse
FLAGS = dict(C23=[["box_rules_only_if_needed"], ["box_rules_only_if_needed", "no_getter"]], C25=[["no_pair"], ["box_rules_only_if_needed", "no_getter", "no_span"]])


def check(ctx, per=6):
    plan, faulty, tags = PLAN[ctx.prop]
    f = ctx.scale(1, 6)
    ps = Projects(ctx)
    for make in FIXED.get(ctx.prop, list)(): ps.add(make)
    large = gengen.larges()
    for k in LARGE.get(ctx.prop, "").split():
        for make in large[k]:
            for flags in FLAGS.get(ctx.prop, [[]]): ps.add(lambda rng, pid, base: dict(make(rng, pid, base), flags=list(flags)))
    for prof, n in plan.items():
        for _ in range(n * f): ps.add(lambda rng, pid, base: gengen.project(rng, gengen.PROFILES[prof], pid, base))
    if faulty:
        for _ in range(faulty[0] * f): ps.add(lambda rng, pid, base: gengen.broken(rng, pid, base, *faulty[1:]) if faulty[1] else gengen.misgiven(rng, pid, base))
    for make, n in FAULTY.get(ctx.prop, []):
        for _ in range(n * f): ps.add(make)
    judge(ctx, ps, tags, per)


def judge(ctx, ps, tags, per):
    ps.write()
    ps.derive(); ctx.log(f"{len(ps.items)} projects given to the macro")
    ps.link(tags); ctx.log("projects linked by the specification")
    info = dict(projects=len(ps.items), refused=sum(p["res"] == "refused" for p in ps.items.values()), project_tags=sorted(tags))
    if tags - {"verdict", "docs", "said"}:
        ok = ps.compile(tags); ctx.log(f"{len(ok)} parsers compiled")
        rows = ps.rows(ok, per)
        obs = ps.run(rows); ctx.log(f"{len(obs)} runs of generated parsers")
        ps.judge(obs, tags); ctx.log("runs judged")
        info.update(parsers=len(ok), parser_runs=len(obs), parser_runs_accepted=sum(bool(r["obs"].get("p", {}).get("ok")) for r in obs))
        ctx.cov["samples"] += [dict(grammar=ps.items[r["g"]]["files"][-1]["text"], rule=ps.items[r["g"]]["starts"][r["rt"]]["name"], input="".join(r["chs"]),
                                    observed=dict(r["obs"].get("p", {}), tree=0)) for r in obs[:2]]
    else:
        ctx.cov["samples"] += [dict(grammar=p["files"][-1]["text"], macro=p["res"], why=p["why"]) for p in list(ps.items.values())[:2]]
    ctx.extra.update(info)
    shutil.rmtree(ps.base, ignore_errors=True)


def run(ctx):
    check(ctx)
    return ctx.finish()
