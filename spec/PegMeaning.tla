----------------------------- MODULE PegMeaning -----------------------------
(***************************************************************************)
(* What an expression means, stated without any machinery: the outcome of  *)
(* a node at a position with a stack, by structural recursion. Failure     *)
(* gives back the stack it was given (there are no snapshots here), so     *)
(* this is what PegMachine's snapshots, frames and commits have to amount  *)
(* to; MCPeg checks that they do, on bounded universes.                    *)
(***************************************************************************)
EXTENDS PegMachine

Yes(p, s) == [ok |-> TRUE, pos |-> p, stk |-> s]
No == [ok |-> FALSE, pos |-> 0, stk |-> <<>>]
Lit(w, p, s) == IF MatchesAt(w, p) THEN Yes(p + Len(w), s) ELSE No

RECURSIVE Mean(_, _, _), SeqMean(_, _, _, _), ChoMean(_, _, _, _), RepMean(_, _, _, _)
\* items i.. of a sequence
SeqMean(n, i, p, s) ==
  IF i > Len(Node(n).k) THEN Yes(p, s)
  ELSE LET tr == IF i = 1 \/ Node(n).t[i] = 0 THEN Yes(p, s) ELSE Mean(Node(n).t[i], p, s)
           r == IF tr.ok THEN Mean(Node(n).k[i], tr.pos, tr.stk) ELSE No
       IN IF r.ok THEN SeqMean(n, i + 1, r.pos, r.stk) ELSE No
\* the first alternative that matches
ChoMean(n, i, p, s) ==
  IF i > Len(Node(n).k) THEN No
  ELSE LET r == Mean(Node(n).k[i], p, s) IN IF r.ok THEN r ELSE ChoMean(n, i + 1, p, s)
\* as many iterations as possible after c of them
RepMean(n, c, p, s) ==
  LET done == IF c >= Node(n).lo THEN Yes(p, s) ELSE No
      tr == IF c = 0 \/ Node(n).t[1] = 0 THEN Yes(p, s) ELSE Mean(Node(n).t[1], p, s)
      r == IF tr.ok THEN Mean(Node(n).k[1], tr.pos, tr.stk) ELSE No
  IN IF c = Node(n).hi THEN done
     ELSE IF r.ok THEN RepMean(n, c + 1, r.pos, r.stk) ELSE done
At_(i, s) == IF i >= 0 THEN i ELSE Len(s) + i
Mean(n, p, s) ==
  LET x == Node(n) IN
  CASE x.op = "str" -> Lit(x.s, p, s)
    [] x.op = "ins" -> IF MatchesInsensAt(x.s, p) THEN Yes(p + Len(x.s), s) ELSE No
    [] x.op = "rng" -> IF p < Len0 /\ InRange(P.inp[p + 1], x.lo, x.hi) THEN Yes(p + 1, s) ELSE No
    [] x.op \in Classes -> IF p < Len0 /\ InClass(x.op, P.inp[p + 1]) THEN Yes(p + 1, s) ELSE No
    [] x.op = "skip" -> IF p + x.lo <= Len0 THEN Yes(p + x.lo, s) ELSE No
    [] x.op = "nl" -> IF MatchesAt(<<13, 10>>, p) THEN Yes(p + 2, s)
                      ELSE IF p < Len0 /\ P.inp[p + 1] \in {10, 13} THEN Yes(p + 1, s) ELSE No
    [] x.op = "soi" -> IF p = 0 THEN Yes(p, s) ELSE No
    [] x.op = "eoi" -> IF p = Len0 THEN Yes(p, s) ELSE No
    [] x.op = "empty" -> Yes(p, s)
    [] x.op = "never" -> No
    [] x.op = "peek" -> IF s = <<>> THEN No ELSE Lit(Cat(<<s[Len(s)]>>), p, s)
    [] x.op = "pop" -> IF s = <<>> THEN No ELSE Lit(Cat(<<s[Len(s)]>>), p, SubSeq(s, 1, Len(s) - 1))
    [] x.op = "drop" -> IF s = <<>> THEN No ELSE Yes(p, SubSeq(s, 1, Len(s) - 1))
    [] x.op = "peekall" -> Lit(Cat(Rev(s)), p, s)
    [] x.op = "popall" -> Lit(Cat(Rev(s)), p, <<>>)
    [] x.op \in {"sl1", "sl2"} ->
         LET a == At_(x.lo, s)  b == IF x.op = "sl1" THEN Len(s) ELSE At_(x.hi, s)
         IN IF a \notin 0..Len(s) \/ b \notin 0..Len(s) THEN No
            ELSE Lit(IF a >= b THEN <<>> ELSE Cat(SubSeq(s, a + 1, b)), p, s)
    [] x.op = "seq" -> SeqMean(n, 1, p, s)
    [] x.op = "cho" -> ChoMean(n, 1, p, s)
    [] x.op = "opt" -> LET r == Mean(x.k[1], p, s) IN IF r.ok THEN r ELSE Yes(p, s)
    [] x.op = "rep" -> RepMean(n, 0, p, s)
    [] x.op = "pos" -> IF Mean(x.k[1], p, s).ok THEN Yes(p, s) ELSE No
    [] x.op = "neg" -> IF Mean(x.k[1], p, s).ok THEN No ELSE Yes(p, s)
    [] x.op = "push" -> LET r == Mean(x.k[1], p, s)
                        IN IF r.ok THEN Yes(r.pos, Append(r.stk, <<p, r.pos>>)) ELSE No
    [] x.op = "rule" -> Mean(x.k[1], p, s)
=============================================================================
