#!/usr/bin/env python3
"""selftest.py [WORD]: do the invariants and the conformance checks notice a wrong specification?
Small edits of a copy of the parsing machine; for each, TLC explores a bounded universe: the edit is noticed
by an invariant or a temporal property of the model, or by the real combinators not doing what the edited model says."""
import os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, vp
E = [  # what, text, replaced by, property whose universe shows it
    ("a choice that fails keeps the stack of its last alternative", "ChoiceFail == At(\"cho\") /\\ Got(\"fail\") /\\ Top.ph = NKids /\\ Ctrl /\\ Restore", "ChoiceFail == At(\"cho\") /\\ Got(\"fail\") /\\ Top.ph = NKids /\\ Ctrl /\\ DropSnap", "C05"),
    ("the next alternative starts with the stack of the one before", "/\\ Top.ph < NKids /\\ Ctrl /\\ Resnap", "/\\ Top.ph < NKids /\\ Ctrl /\\ NoSnap", "C05"),
    ("the next alternative starts without a snapshot", "/\\ Top.ph < NKids /\\ Ctrl /\\ Resnap", "/\\ Top.ph < NKids /\\ Ctrl /\\ Restore", "C05"),
    ("an option that is absent keeps the stack", "OptNone == At(\"opt\") /\\ Got(\"fail\") /\\ Ctrl /\\ Restore", "OptNone == At(\"opt\") /\\ Got(\"fail\") /\\ Ctrl /\\ DropSnap", "C05"),
    ("an option that is present takes the stack back", "OptSome == At(\"opt\") /\\ Got(\"ok\") /\\ Ctrl /\\ DropSnap", "OptSome == At(\"opt\") /\\ Got(\"ok\") /\\ Ctrl /\\ Restore", "C05"),
    ("a repetition keeps the stack of the iteration that failed", "RepStop == /\\ At(\"rep\") /\\ Got(\"fail\") /\\ Ctrl /\\ Restore", "RepStop == /\\ At(\"rep\") /\\ Got(\"fail\") /\\ Ctrl /\\ DropSnap", "C05"),
    ("a repetition keeps the trivia before the iteration that failed", "THEN Succeed(Top.pl, <<>>, Top.ks) ELSE Fail", "THEN Succeed(pos, <<>>, Top.ks) ELSE Fail", "C02"),
    ("a repetition takes everything back", "ELSE /\\ Commit\n", "ELSE /\\ NoSnap\n", "C05"),
    ("a repetition goes on past its upper bound", "IN IF n = RepMax(Top.n) THEN", "IN IF n = RepMax(Top.n) + 1 THEN", "C02"),
    ("a repetition is content with one less", "IF Len(Top.ks) >= Node(Top.n).lo", "IF Len(Top.ks) + 1 >= Node(Top.n).lo", "C02"),
    ("trivia is skipped before the first iteration", "ELSE TakeSnap /\\ Call(Kid(1), Phase(2))", "ELSE TakeSnap /\\ Call(IF Triv(1) = 0 THEN Kid(1) ELSE Triv(1), Phase(IF Triv(1) = 0 THEN 2 ELSE 1))", "C02"),
    ("a lookahead keeps what its subject did to the stack", "ret # NONE /\\ Restore\n", "ret # NONE /\\ DropSnap\n", "C04"),
    ("a positive lookahead consumes", "THEN IF Got(\"ok\") THEN Succeed(Top.p0, <<>>, <<ret.v>>)", "THEN IF Got(\"ok\") THEN Succeed(pos, <<>>, <<ret.v>>)", "C04"),
    ("a negative lookahead turned round", "ELSE IF Got(\"fail\") THEN Succeed(Top.p0, <<>>, <<>>)", "ELSE IF Got(\"ok\") THEN Succeed(Top.p0, <<>>, <<>>)", "C04"),
    ("a push of nothing is not made", "IF Got(\"ok\") THEN stk' = Append(stk, <<Top.p0, pos>>)", "IF Got(\"ok\") THEN stk' = IF pos = Top.p0 THEN stk ELSE Append(stk, <<Top.p0, pos>>)", "C05"),
    ("the whole stack is matched from the bottom", "PeekAll == /\\ At(\"peekall\") /\\ LeafFrame\n           /\\ LET s == Cat(Rev(stk))", "PeekAll == /\\ At(\"peekall\") /\\ LeafFrame\n           /\\ LET s == Cat(stk)", "C06"),
    ("a slice reaching below the bottom matches nothing", "InSlice(i) == IF i >= 0 THEN i <= Len(stk) ELSE -i <= Len(stk)", "InSlice(i) == IF i >= 0 THEN i <= Len(stk) ELSE -i <= Len(stk) + 1", "C06"),
    ("the report forgets what was tried at the same place", "Advance(tr, p) == IF p > tr.pos", "Advance(tr, p) == IF p >= tr.pos", "C09"),
    ("the report goes back", "  IF p < tr.pos THEN tr\n  ELSE LET t1 == Advance(tr, p)\n           u == UpperOf(rs, p)\n           e == Entry(t1, u)\n       IN IF succeeded", "  IF FALSE THEN tr\n  ELSE LET t1 == IF p # tr.pos THEN EmptyReport(p) ELSE tr\n           u == UpperOf(rs, p)\n           e == Entry(t1, u)\n       IN IF succeeded", "C09"),
    ("what matched is reported as expected", "IN IF succeeded = positive THEN t1", "IN IF ~succeeded = positive THEN t1", "C09"),
    ("expected and unexpected turned round", "SetEntry(t1, u, IF positive THEN [e", "SetEntry(t1, u, IF ~positive THEN [e", "C09"),
    ("the rule above is the nearest open rule", "ELSE IF rs[Len(rs)].pos # p THEN rs[Len(rs)].r", "ELSE IF TRUE THEN rs[Len(rs)].r", "C09"),
    ("every rule is recorded, not only innermost ones", "IF rst[Len(rst)].kids THEN trk", "IF FALSE THEN trk", "C09"),
    ("a lookahead inside a lookahead undoes the polarity", "/\\ pol' = (Op = \"pos\")", "/\\ pol' = ((Op = \"pos\") = pol)", "C09"),
    ("the polarity is not put back", "/\\ pol' = Top.pol", "/\\ UNCHANGED pol", "C09"),
    ("the end of input is not asked for", "/\\ ret' = IF pos = Len0 THEN ret ELSE FAIL", "/\\ ret' = ret", "C08"),
    ("the end of input is not reported", "THEN /\\ trk' = Record(trk, rst, EOIRule, pos, pos = Len0, pol)", "THEN /\\ trk' = trk", "C08"),
    ("a terminal reads past the end", "MatchesAt(s, p) == /\\ p + Len(s) <= Len0", "MatchesAt(s, p) == /\\ p + Len(s) <= Len0 + 1", "C01"),
    ("a range leaves its upper end out", "InRange(c, lo, hi) == lo <= c /\\ c <= hi", "InRange(c, lo, hi) == lo <= c /\\ (c < hi \\/ lo = hi)", "C01"),
    ("an insensitive string is a plain one", "MatchesInsensAt(s, p) == /\\ p + Len(s) <= Len0", "MatchesInsensAt(s, p) == /\\ p + Len(s) < Len0", "C01"),
]


def main():
    want = sys.argv[1:]; missed = []
    ctx0 = vp.Ctx("C00"); exe = os.path.join(vp.cargo_build("dyn"), "target/debug/dyn-harness")
    work = ctx0.path("spec"); shutil.copytree(vp.SPEC, work); vp.SPEC = work
    good = open(os.path.join(work, "PegMachine.tla")).read()
    for what, old, new, prop in E:
        if want and not any(w in what for w in want): continue
        assert good.count(old) == 1, (what, good.count(old))
        open(os.path.join(work, "PegMachine.tla"), "w").write(good.replace(old, new))
        ctx = vp.Ctx(prop)
        try:
            mc.check(ctx, exe)
            how = f"real code: {sorted({k for k, _, _ in ctx.violations})}" if ctx.violations else None
        except vp.ToolError as e:
            m = re.search(r"(Invariant|Temporal|Action property|property) ?(\w*) ?(is|was|were) violated", str(e))
            how = "model: " + (m.group(0) if m else re.sub(r"\s+", " ", str(e))[:300])
        print(f"{'noticed' if how else 'MISSED '} | {what} | {prop} | {how}", flush=True)
        if not how: missed.append(what)
    print(f"{len(missed)} missed")
    return 1 if missed else 0


if __name__ == "__main__": sys.exit(main())
