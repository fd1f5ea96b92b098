"""Histories of derives in one process, against spec/History.tla."""
import itertools, os, random, re, shutil
from concurrent.futures import ThreadPoolExecutor
import gen, gengen, vp

N = 200          # histories
PROFILES = ["genfiles", "genopts", "genimports", "gendocs", "genparams", "gengraph", "gen"]


def edited(rng, text, pid):
    """the text as someone might leave it after a minute"""
    x = rng.random(); lit = [m.start() for m in re.finditer(r'"[a-z]"', text)]
    if x < .3 and lit: k = rng.choice(lit); return text[:k + 1] + rng.choice("qrs") + text[k + 2:]
    if x < .45: return text + f'added{rng.randrange(100)} = "{rng.choice("ab")}"\n'
    if x < .55: return text + "/// said\n" + f'noted{rng.randrange(100)} = "n"\n'
    if x < .62: return text + "// remark\n"
    if x < .72: return text + rng.choice([" =", '"', "x = (", "a = b{0}", "use nowhere\n", '"\\x80"'])
    lines = text.split("\n"); k = [i for i, l in enumerate(lines) if re.match(r"[a-z]\w* = ", l)]
    if x < .88 and k: i = rng.choice(k); return "\n".join(lines[:i] + lines[i + 1:])
    if k: i = rng.choice(k); return "\n".join(lines[:i + 1] + [lines[i]] + lines[i + 1:])
    return text + "\n"


def history(rng, hid, base):
    """dict(id, dir, files, steps): steps of [(file, text or None)] and attributes"""
    d = os.path.join(base, f"s{hid % gen.SHARDS}")
    p = gengen.broken(rng, hid, d) if rng.random() < .15 else gengen.project(rng, gengen.PROFILES[rng.choice(PROFILES)], hid, d)
    files = p["files"]; now = [f["text"] for f in files]; past = [list(now)]
    mine = dict(p)
    def attrs():
        q = dict(mine, given=[(k, v) if k == "file" else (k, now[mine["roots"][i] - 1]) for i, (k, v) in enumerate(mine["given"])])
        return gen.attributes(q)
    steps = [dict(edits=list(enumerate(now)), attrs=attrs())]
    on_disk = [i for i, f in enumerate(files) if f["path"] != ["_"]]
    for _ in range(rng.randint(4, 8)):
        was = list(now); x = rng.random()
        if x < .36: k = rng.randrange(len(files)); now[k] = edited(rng, now[k] or files[k]["text"], hid)
        elif x < .62: now = list(rng.choice(past))                       # everything as it was
        elif x < .72: k = rng.randrange(len(files)); now[k] = files[k]["text"]
        elif x < .80 and on_disk: now[rng.choice(on_disk)] = None        # removed
        elif x < .86 and len(on_disk) > 1: a, b = rng.sample(on_disk, 2); now[a], now[b] = now[b], now[a]
        elif x < .93: mine["flags"] = gengen.switches(rng) if rng.random() < .7 else p["flags"]; mine.pop("order", None)
        past.append(list(now))
        steps.append(dict(edits=[(k, t) for k, t in enumerate(now) if t != was[k]], attrs=attrs()))
    return dict(id=hid, dir=d, files=files, steps=steps)


# every state of a small disk, visited from every other: (given, {path: texts, None: no file}, flags)
WALKS = [
    ([("inline", "use mod0\na = mod0::x\n")], {"mod0": [None, 'x = "a"\n', 'x = "b"\n', "x = \n", 'y = "a"\n'], "side": [None, 'z = "q"\n']}, [[], ["no_getter"], ['rules_mod = "pieces"']]),
    ([("file", "g.pest")], {"g": [None, 'a = "x"\n', "a = b\n"], "src/g": [None, 'a = "y"\n', 'c = "x"\n']}, [[], ["no_pair"], ["box_rules_only_if_needed", "no_getter"]]),
    ([("file", "r.pest")], {"r": ["use m1\na = m1::x\n"], "m1": [None, 'x = "a"\n', "use m2\nx = m2::y\n", "use r\nx = r::a\n"], "m2": [None, 'y = "a"\n', 'y = "b"\n', "use m1\ny = m1::x\n"]}, [[], ["no_getter = true"]]),
    ([("file", "r.pest")], {"r": ["use m1 as p\nuse m1 as q\nuse d::m2\na = p::x - q::x - m2::x\n", "use m1 as p\na = p::x\n"], "m1": ['x = "a"\n', "use d::m2 as t\nx = t::x\n", None], "d/m2": ['x = "b"\n', "x = 'a'..'b'\n", "use super::m1\nx = m1::x\n"]}, [[], ["no_getter"]]),
    ([("inline", 'a = "x" ~ "y"\n'), ("file", "t.pest")], {"t": ['~ = " "\n', '^ = " "\n', '~ = "-"*\nb = "x"+\n', None, '~ = " "\n~ = " "\n'], "src/t": [None, 'c = "a"\n']}, [[], ["no_pair"], ["no_getter", "no_pair"]]),
    ([("file", "r.pest")], {"r": ["use s\na = s::f(\"x\")\n", "use s\na = s::f(\"x\", \"y\")\n"], "s": ["f(e) = _{e*}\n", "f(e) = e*\n", "f(e) = {e - e}\n", "f(e, d) = _{e - d}\n", "f = \"a\"\n", None]}, [[], ["box_rules_only_if_needed"]]),
    ([("inline", "use pest::stack::push as p\na = p(b) - pest::pop\nb = \"b\"\n"), ("file", "x.pest")], {"x": ["b = 'c'\n", "c = \"a\" - \"b\" - \"c\"\n", "c = \"a\" | \"b\"\n", "///said\nc = b{2..}\n", "//! said\nc = b?\n", "use pest::unicode as p\nc = p::lu\n"]}, [[], ['rules_mod = "p"'], ["no_span"]]),
    ([("inline", "a = " + " - ".join(['"x"'] * 17) + "\n"), ("file", "w.pest")], {"w": ["b = " + " | ".join(['"y"'] * 18) + "\n", "b = " + " - ".join(["a"] * 17) + "\n", "b = a(\n", None, "c = a\n"], "v": [None, "c = "]}, [[], ["no_getter"], ['rules_mod = "fn"']]),
]


def circuit(n):
    """states 0..n-1, each after each (itself included), in n*n + 1 steps"""
    nxt = [list(range(n)) for _ in range(n)]; stack, out = [0], []
    while stack:
        if nxt[stack[-1]]: stack.append(nxt[stack[-1]].pop())
        else: out.append(stack.pop())
    return out[::-1]


def walk(rng, hid, base, w):
    d = os.path.join(base, f"w{hid}"); given, texts, flags = w; full = lambda q: [ord(c) for c in d + "/" + "/".join(q) + ".pest"]
    files = [dict(path=k.split("/"), full=full(k.split("/"))) for k in texts]; inline = [v for k, v in given if k == "inline"]
    files += [dict(path=["_"], full=[]) for _ in inline]
    roots = [len(texts) + 1 + inline.index(v) if k == "inline" else 0 for k, v in given]
    states = [(now, f) for now in itertools.product(*texts.values()) for f in flags]; rng.shuffle(states)
    steps = [dict(edits=list(enumerate(list(states[c][0]) + inline)), attrs=gen.attributes(dict(given=given, roots=roots, flags=states[c][1])), state=c) for c in circuit(len(states))]
    return dict(id=hid, dir=d, files=files, steps=steps)


def rows(h):
    """what to have on disk at every step, and what to derive there"""
    now = {}; out = []
    for s, st in enumerate(h["steps"]):
        now.update(dict(st["edits"]))
        out.append(dict(id=[h["id"], s], dir=h["dir"], docs=False, attrs=[a["src"] for a in st["attrs"]],
                        write=[[os.path.join(h["dir"], *f["path"]) + ".pest", now[k]] for k, f in enumerate(h["files"]) if f["path"] != ["_"]]))
    return out


def orders(hs):
    """each: the derives of one process, in order"""
    rs = [rows(h) for h in hs]; n = max(map(len, rs))
    if "state" in hs[0]["steps"][0]:
        yield rs[0]
        yield rs[0][::-1]
        first = {st["state"]: k for k, st in reversed(list(enumerate(hs[0]["steps"])))}
        for k in first.values(): yield [rs[0][k]]                        # a process of its own for every state
        return
    yield [r[s] for s in range(n) for r in rs if s < len(r)]             # all histories, a step of each at a time
    for s in range(n): yield [r[s] for r in rs if s < len(r)]            # a process that has not seen any of them before
    yield [x for r in rs for x in reversed(r)]                           # backwards, one history after another


def check(ctx):
    rng = random.Random(f"{ctx.seed}/{ctx.prop}/history")
    base = os.path.join(vp.ROOT, "work", "gen", ctx.prop); shutil.rmtree(base, ignore_errors=True)
    vp.cargo_build("gen/derive")
    exe = os.path.join(gen.HERE, "derive/target/debug/derive-harness")
    hs = [history(rng, k, base) for k in range(1, N * ctx.scale(1, 5) + 1)]
    ws = [walk(rng, len(hs) + 1 + k, base, w) for k, w in enumerate(WALKS)]
    groups = [[w] for w in ws] + [[h for h in hs if h["id"] % gen.SHARDS == s] for s in range(gen.SHARDS)]       # whatever shares a directory
    hs = hs + ws; byid = {h["id"]: h for h in hs}
    def report(tag, h, detail):
        ctx.violation(tag, repr([[st["edits"], [a["src"] for a in st["attrs"]]] for st in h["steps"]]),
                      dict(files=["/".join(f["path"]) for f in h["files"]], steps=[dict(edits=st["edits"], attributes=[a["src"] for a in st["attrs"]], verdicts=st["res"], digests=st["dig"])
                                                                                  for st in h["steps"]], detail=detail))
    for h in hs:
        for st in h["steps"]: st["res"] = []; st["dig"] = []
    def derive(part):
        died = []
        for order in orders(part) if part else []:
            got, dead = vp.run_rows(ctx, exe, order, procs=1)
            for a in got:
                st = byid[a["id"][0]]["steps"][a["id"][1]]; st["res"].append(a["res"]); st["dig"].append(a.get("digest", ""))
            died += dead
        return died
    with ThreadPoolExecutor(gen.SHARDS) as ex:
        for died in ex.map(derive, groups):
            for r, why in died: report("crash", byid[r["id"][0]], [r["id"][1], why])
    asked = sum(len(st["res"]) for h in hs for st in h["steps"])
    ctx.log(f"{len(hs)} histories of {sum(len(h['steps']) for h in hs)} steps, {asked} derives")
    uni = ctx.path("uni.ndjson"); vp.jsonl(uni, sorted(gen.classes()))
    lines = [dict(id=h["id"], files=[dict(path=f["path"], full=f["full"]) for f in h["files"]],
                  steps=[dict(edits=[dict(file=k + 1, there=t is not None, text=[ord(c) for c in t or ""]) for k, t in st["edits"]],
                              attrs=[{k: a[k] for k in ("name", "form", "val")} for a in st["attrs"]], res=st["res"], dig=st["dig"]) for st in h["steps"]]) for h in hs]
    n = vp.CPUS * 2; lines.sort(key=lambda r: -len(r["steps"])); lines = [r for i in range(n) for r in lines[i::n]]      # the long ones apart
    for i, tag, text in vp.tlc_judge(ctx, "TraceHistory", lines, chunks=n, heap="3g", envv=dict(UNI=uni)):
        report(tag, byid[i], text)
    ctx.extra.update(histories=len(hs), derives=asked, derives_built=sum(r == "built" for h in hs for st in h["steps"] for r in st["res"]))
    ctx.cov["samples"] += [dict(files=["/".join(f["path"]) for f in h["files"]], steps=[dict(edits=st["edits"], verdicts=st["res"], digests=st["dig"]) for st in h["steps"]]) for h in hs[:1]]
    shutil.rmtree(base, ignore_errors=True)


def run(ctx):
    check(ctx)
    return ctx.finish()
