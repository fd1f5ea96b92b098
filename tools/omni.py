#!/usr/bin/env python3
"""omni.py FILE: a cheap mixture of all the checks that may notice an edit of FILE (for mutate.py; not a check)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, peg, text, syntax, gen, gengen, history
f = sys.argv[1]


def done(ctx):
    if ctx.violations:
        for kind, key, _ in ctx.violations[:3]: print(f"  {ctx.prop} {kind}: {str(key)[:150]}")
        sys.exit(1)


class All:
    def __contains__(self, x): return True
    def __sub__(self, o): return True
    def __iter__(self): return iter(())
if f == "classes":
    import classes
    c = vp.Ctx("C22"); classes.run(c); done(c); sys.exit(0)
if f.startswith("core/"):
    if any(x in f for x in ("position", "span", "formatter")):
        for p in ("C19", "C20", "C21", "C29"):
            c = vp.Ctx(p); text.run(c); done(c)
    if "tracker" in f:
        import session
        for p in ("C09", "C10"):
            c = vp.Ctx(p); session.check(c, os.path.join(vp.cargo_build("dyn"), "target/debug/dyn-harness")); done(c)
    c = vp.Ctx("C00")
    peg.judge_profiles(c, dict(plain=1, rep=2, repstk=2, trivia=1, look=1, lookstk=2, back=2, stack=2, report=3, lines=1, utf8=2, all=2, plainwide=1), All(), 20000); done(c)
if f.startswith("meta/"):
    for p in ("C13", "C14", "C15"):
        c = vp.Ctx(p); syntax.check(c); done(c)
c = vp.Ctx("C16")
ps = gen.Projects(c)
for prof, n in dict(gen=110, gentree=25, genparams=60, genimports=60, genbox=40, gengraph=25, gentrivia=15, genpairs=20, genlit=15, genopts=40, genvalue=20, genfiles=30).items():
    for _ in range(n if not f.startswith("core/") else n // 3): ps.add(lambda rng, pid, base: gengen.project(rng, gengen.PROFILES[prof], pid, base))
for _ in range(120): ps.add(lambda rng, pid, base: gengen.broken(rng, pid, base, gengen.FAULTS, .5))
for _ in range(50): ps.add(lambda rng, pid, base: gengen.misgiven(rng, pid, base))
for makes in gengen.larges().values():
    for make in makes: ps.add(make)
for make in gengen.values() + gengen.slices()[:4]: ps.add(make)
for make in gengen.cycles()[:4] + gengen.trivias()[:4] + gengen.occurrences()[:4] + gengen.widths()[:4] + gengen.bounds()[:4] + gengen.aliases()[:4]: ps.add(make)
gen.judge(c, ps, gen.RUNTAGS | gen.LINKED | {"watched", "ftree", "pairs"}, 6); done(c)
c = vp.Ctx("C28"); ps = gen.Projects(c)
for _ in range(60): ps.add(lambda rng, pid, base: gengen.project(rng, gengen.PROFILES["gendocs"], pid, base))
gen.judge(c, ps, gen.PLAN["C28"][2], 6); done(c)
c = vp.Ctx("C30"); ps = gen.Projects(c)
for _ in range(150): ps.add(lambda rng, pid, base: gengen.broken(rng, pid, base, gengen.FAULTS, .5))
for _ in range(300): ps.add(gengen.misread)
for _ in range(60): ps.add(gengen.misgiven)
gen.judge(c, ps, {"said"}, 6); done(c)
history.N = 60; history.WALKS = history.WALKS[:3]
c = vp.Ctx("C31"); history.check(c); done(c)
