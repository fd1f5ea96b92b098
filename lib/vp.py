"""Shared machinery of the checks: building, running TLC, verdicts, evidence."""
import atexit, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
REPO = "/repo"
CPUS = os.cpu_count() or 8
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.pop("RUSTFLAGS", None)
    return e


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"vp-{prop}-")
        atexit.register(lambda: shutil.rmtree(self.scratch, ignore_errors=True))
        self.violations = []      # (kind, key, detail dict)
        self.known_hits = {}
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.extra = {}
        self.assumptions = []
        self.known = load_known()
        self.log_lines = []

    @property
    def thorough(self): return self.tier == "thorough"

    def scale(self, quick, thorough): return thorough if self.thorough else quick

    def log(self, msg):
        print(f"[{self.prop} {time.time() - self.t0:6.1f}s] {msg}", flush=True)

    def path(self, name): return os.path.join(self.scratch, name)

    # -- verdicts -----------------------------------------------------------
    def violation(self, kind, key, detail):
        """kind: what disagrees; key: identifies the failing input (for known findings)."""
        for k in self.known:
            if k["property"] == self.prop and k["match"](kind, key, detail):
                self.known_hits.setdefault(k["id"], (k, 0))
                self.known_hits[k["id"]] = (k, self.known_hits[k["id"]][1] + 1)
                return
        self.violations.append((kind, key, detail))

    def finish(self, level="model_checking"):
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=self.cov,
                  wall_s=round(time.time() - self.t0, 2), assumptions=self.assumptions,
                  violations=len(self.violations))
        ev["coverage"].update(self.extra)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        for k, n in self.known_hits.values():
            print(f"KNOWN-FINDING: property={self.prop} {k['text']} ({n} occurrences)")
        if self.violations:
            d = os.path.join(ROOT, "work", "replay"); os.makedirs(d, exist_ok=True)
            for i, (kind, key, detail) in enumerate(self.violations[:5]):
                p = os.path.join(d, f"{self.prop}-{i}.json")
                with open(p, "w") as f:
                    json.dump(dict(property=self.prop, kind=kind, key=key, detail=detail), f, indent=1,
                              ensure_ascii=False, default=str)
                print(f"  {kind}: {str(key)[:200]}")
                print(f"VIOLATION property={self.prop} replay={os.path.relpath(p, ROOT)}")
            print(f"{len(self.violations)} violations")
            return 1
        self.log(f"ok: {json.dumps({k: v for k, v in self.cov.items() if k != 'samples'})}")
        return 0


def load_known():
    """known_findings.jsonl: one object per line; see DESIGN.md."""
    out = []
    p = os.path.join(ROOT, "known_findings.jsonl")
    if not os.path.exists(p): return out
    for line in open(p):
        line = line.strip()
        if not line or line.startswith("#") or line.startswith("fixed:"): continue
        k = json.loads(line)
        keys = set(k["keys"])
        k["match"] = lambda kind, key, detail, keys=keys: key in keys
        out.append(k)
    return out


def sh(cmd, cwd=None, timeout=800, inp=None, env_=None, outfile=None):
    e = env_ or env()
    try:
        return subprocess.run(cmd, cwd=cwd, timeout=timeout, input=inp, env=e, text=True,
                              stdout=subprocess.PIPE if outfile is None else outfile, stderr=subprocess.PIPE)
    except subprocess.TimeoutExpired:
        raise ToolError(f"timeout: {cmd}")


def cargo_build(crate, features=(), target=None):
    d = os.path.join(ROOT, "harness", crate)
    cmd = ["cargo", "build", "--offline", "--quiet"]
    if features: cmd += ["--features", ",".join(features)]
    r = sh(cmd, cwd=d)
    if r.returncode != 0:
        raise ToolError(f"cargo build {crate} failed:\n{r.stderr[-3000:]}")
    return d


def jsonl(path, rows):
    with open(path, "w") as f:
        for r in rows: f.write(json.dumps(r, ensure_ascii=False) + "\n")


def java(module, cfg, envv, metadir, workers=1, heap="2g", timeout=800, extra=()):
    e = env(); e.update(envv)
    os.makedirs(metadir, exist_ok=True)
    cmd = ["java", f"-Djava.io.tmpdir={metadir}", f"-Xmx{heap}", "-Xss256m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-XX:TieredStopAtLevel=4", "-cp", JARS, "tlc2.TLC", "-config", cfg, "-workers", str(workers),
           "-nowarning", "-noTE", "-metadir", metadir, *extra, module]
    return sh(cmd, cwd=SPEC, timeout=timeout, env_=e)


def run_rows(ctx, exe, rows, timeout=300, procs=None, envv=None):
    """Feed rows (JSON lines) to a line-by-line harness, in parallel. Returns (answers, [(row, why)]):
    a row on which the process dies or hangs is set aside and the rest is run in a new process."""
    import threading, queue
    n = procs or CPUS
    size = max(1, (len(rows) + n - 1) // n)
    parts = [rows[i:i + size] for i in range(0, len(rows), size)]
    e = env(); e.update(envv or {})

    def one(part):
        out, dead = [], []
        i = 0
        while i < len(part):
            p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
            todo = part[i:]
            def feed():
                try:
                    for r in todo:
                        p.stdin.write(json.dumps(r, ensure_ascii=False).encode() + b"\n")
                    p.stdin.close()
                except (BrokenPipeError, ValueError, OSError):
                    pass
            err = []
            last = [time.time()]; hung = [False]; done = threading.Event()
            def watch():
                while not done.wait(0.5):
                    if time.time() - last[0] > 20:
                        hung[0] = True; p.kill(); return
            ts = [threading.Thread(target=feed), threading.Thread(target=watch),
                  threading.Thread(target=lambda: err.append(p.stderr.read()[-500:]))]
            for t in ts: t.daemon = True; t.start()
            got = 0
            for line in p.stdout:
                last[0] = time.time()
                if not line.endswith(b"\n"): break
                out.append(json.loads(line)); got += 1
            rc = p.wait(); done.set()
            for t in ts: t.join(5)
            i += got
            if got < len(todo):
                why = "no answer for 20 s" if hung[0] else f"process ended with {rc}: {err[0].decode(errors='replace') if err else ''}"
                dead.append((part[i], why)); i += 1
                if len(dead) >= 3: break      # enough to report
            elif rc != 0:
                raise ToolError(f"{exe}: rc={rc} {err}")
        return out, dead
    with ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(one, parts))
    return [x for a, _ in rs for x in a], [x for _, b in rs for x in b]


TUPLE = re.compile(r'^<<"([A-Z]+)",\s*(.*)>>$', re.S)


def parse_prints(out):
    """Yields (tag, raw-rest) of every <<"TAG", ...>> value TLC printed (values may span lines)."""
    cur = None; depth = 0; instr = False
    for line in out.splitlines():
        if cur is None:
            if not (line.startswith('<<"') or line.startswith('<< "')): continue
            cur = []; depth = 0; instr = False
        cur.append(line)
        depth, instr = scan(line, depth, instr)
        if depth <= 0 and not instr:
            m = re.match(r'^<<\s*"([A-Z]+)"\s*,\s*(.*)>>\s*$', "\n".join(cur), re.S)
            if m: yield m.group(1), m.group(2)
            cur = None


TOKENS = re.compile(r'\\.|"|<<|>>', re.S)


def scan(s, d, instr):
    for m in TOKENS.finditer(s):
        t = m.group()
        if t == '"': instr = not instr
        elif instr: continue
        elif t == "<<": d += 1
        elif t == ">>": d -= 1
    return d, instr


def tlc_judge(ctx, module, rows, chunks=None, cfg=None, heap="2g", timeout=800, envv=None):
    """Judge recorded rows with a trace module, in parallel chunks.
    Returns list of (row id, tag, text); accounts states/transitions."""
    if not rows: return []
    n = chunks or max(1, min(CPUS, (len(rows) + 199) // 200))
    size = (len(rows) + n - 1) // n
    parts = [rows[i:i + size] for i in range(0, len(rows), size)]
    base = ctx.path(f"{module}-{len(os.listdir(ctx.scratch))}")
    os.makedirs(base)

    def one(i):
        f = os.path.join(base, f"{i}.ndjson")
        jsonl(f, parts[i])
        ev = dict(CASES=f); ev.update(envv or {})
        r = java(module + ".tla", cfg or module + ".cfg", ev, os.path.join(base, f"m{i}"), heap=heap, timeout=timeout)
        os.unlink(f)
        bad = []; judged = None
        for tag, rest in parse_prints(r.stdout):
            if tag == "BAD":
                m = re.match(r'^\s*(\d+)\s*,\s*"([^"]*)"\s*,\s*(.*)$', rest, re.S)
                bad.append((int(m.group(1)), m.group(2), m.group(3)[:3000]))
            elif tag == "JUDGED":
                judged = [int(x) for x in re.findall(r"-?\d+", rest)]
        if r.returncode != 0 or judged is None or judged[0] != len(parts[i]):
            raise ToolError(f"TLC {module} chunk {i}: rc={r.returncode} judged={judged} of {len(parts[i])}\n{tlc_error(r.stdout)}\n{r.stderr[-1000:]}")
        return bad, judged
    bad = []
    with ThreadPoolExecutor(CPUS) as ex:
        for b, j in ex.map(one, range(len(parts))):
            bad += b
            ctx.cov["states"] += j[2]; ctx.cov["transitions"] += j[3] - j[0]
            ctx.cov["traces_validated_against_impl"] += j[0]
    return bad


def tlc_error(out):
    i = out.find("Error:")
    return out[i:i + 1500] + "\n...\n" + out[-1500:] if i >= 0 else out[-3000:]


def model_check(ctx, module, cfg, workers=None, heap="8g", timeout=800, envv=None, extra=()):
    """Exhaustive TLC run of a design model; an error here is a fault of the specification."""
    meta = ctx.path(f"mc-{module}-{cfg}")
    r = java(module + ".tla", cfg, envv or {}, meta, workers=workers or CPUS, heap=heap, timeout=timeout, extra=extra)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", r.stdout)
    if r.returncode != 0 or not m or m.group(3) != "0" or "No error has been found" not in r.stdout:
        raise ToolError(f"model {module}/{cfg}: rc={r.returncode}\n{r.stdout[-4000:]}\n{r.stderr[-1000:]}")
    ctx.cov["states"] += int(m.group(2)); ctx.cov["transitions"] += int(m.group(1))
    return r.stdout
