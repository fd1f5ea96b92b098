import classes, gen, history, peg, syntax, text
RUN = {p: peg.run for p in peg.PLAN}
RUN.update({p: text.run for p in text.TAGS})
RUN["C22"] = classes.run
TECH = {"*": "TLA+ parsing machine (TLC); recorded runs of the real combinators validated against it"}
NOTE = {"*": "TLC executes the explicit machine on every recorded program and compares outcome, stack, report and tree; "
             "exhaustive for the recorded universe only, programs beyond the generated sizes are not covered"}
for p in text.TAGS:
    TECH[p] = "TLA+ cursor machine and snippet rendering (TLC); observations of the real Position/Span/FormatOption API validated against it"
    NOTE[p] = ("every text up to length 4-5 over a 5-character alphabet (LF, CR, 1-, 2- and 3-byte characters) exhaustively, longer texts sampled; "
               "TLC walks the cursor over each text and compares every observation")
TECH["C22"] = "TLA+ character-class intervals walked by TLC against the sets the real classes accept; parsing machine for terminals"
NOTE["C22"] = "every class on every Unicode scalar value (parse, check, captured character, consumed length); terminals in context by generated programs"
for p in ("C13", "C14", "C15"):
    RUN[p] = syntax.run
    TECH[p] = "TLA+ grammar-reading machine (TLC) executed on every generated grammar text; the real grammar parser's result validated against it"
    NOTE[p] = ("all token sequences of a small vocabulary exhaustively, printed random modules in random spellings, every escape and number boundary, "
               "single-token corruptions; nesting up to 60 levels")


def both(first):
    """the library itself first, then grammars through the derive macro"""
    def run(ctx):
        first(ctx)
        if not ctx.violations: gen.check(ctx)
        return ctx.finish()
    return run
PROJ = "; generated grammar projects through the derive macro and rustc, linked and run by the specification (Link, PegMachine), verdicts and runs compared"
for p in peg.PLAN: RUN[p] = both(peg.check); TECH[p] = TECH["*"] + PROJ
RUN["C22"] = both(classes.check); TECH["C22"] += PROJ
for p in ("C14", "C15"): RUN[p] = both(syntax.check); TECH[p] += PROJ
for p in ("C16", "C17", "C18", "C23", "C25", "C26", "C27", "C28", "C30"):
    RUN[p] = gen.run
    TECH[p] = "TLA+ linking machine (reading, imports, name resolution, substitution, inlining) and parsing machine (TLC)" + PROJ
    NOTE[p] = ("a fresh sample of several hundred grammar projects per run, each compiled by rustc and run on inputs sampled from the grammar; "
               "programs of at most 150 nodes; rustc is trusted")
RUN["C17"] = both(syntax.check)
TECH["C17"] = "TLA+ grammar-reading machine (TLC) and its substitution, the real reader's substitution validated against it" + PROJ
NA = {}
TECH["C27"] += "; the files the specification reads against the compiler's record of what the crate depends on"
TECH["C28"] = "TLA+ reading and linking machine (TLC): documentation of every module and rule, against the code the derive macro's generator gives"
NOTE["C28"] = "a fresh sample of several hundred documented grammar projects per run; the generated code is read with syn, not compiled"
TECH["C30"] = "TLA+ reading and linking machine (TLC): every chain of places and every name a refusal may report, against the message of the derive macro's generator"
NOTE["C30"] = "a fresh sample of over a thousand grammar projects with a fault in a text (up to four imports deep), between texts or in an attribute per run; line and column, files and names of the message are decided, its wording is not"
RUN["C31"] = history.run
TECH["C31"] = "TLA+ machine of histories (edits of the disk, derives) over the linking machine (TLC); recorded histories of the real generator, in several processes, replayed by it"
NOTE["C31"] = "a fresh sample of 200 histories of up to nine steps per run, each step derived by at least three processes that saw different things before; code is compared as its token text"
for p in ("C09", "C10"):
    TECH[p] += "; TLA+ machine of tracker sessions (TLC, exhaustive for short scripts), every script replayed into the real tracker"
    NOTE[p] = ("every script of five tracker events exhaustively, long ones sampled; " + NOTE["*"])
