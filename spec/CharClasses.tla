---------------------------- MODULE CharClasses ----------------------------
(***************************************************************************)
(* The sets of characters the built-in classes stand for, as sequences of  *)
(* intervals <<lo, hi>> of Unicode scalar values in ascending order, with  *)
(* no gap between neighbours other than the surrogates.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Max == 1114111
AsciiClass ==
  [any |-> <<(<<0, Max>>)>>,
   newline |-> <<(<<10, 10>>), (<<13, 13>>)>>,
   ascii_digit |-> <<(<<48, 57>>)>>,
   ascii_nonzero_digit |-> <<(<<49, 57>>)>>,
   ascii_bin_digit |-> <<(<<48, 49>>)>>,
   ascii_oct_digit |-> <<(<<48, 55>>)>>,
   ascii_hex_digit |-> <<(<<48, 57>>), (<<65, 70>>), (<<97, 102>>)>>,
   ascii_alpha_lower |-> <<(<<97, 122>>)>>,
   ascii_alpha_upper |-> <<(<<65, 90>>)>>,
   ascii_alpha |-> <<(<<65, 90>>), (<<97, 122>>)>>,
   ascii_alphanumeric |-> <<(<<48, 57>>), (<<65, 90>>), (<<97, 122>>)>>,
   ascii |-> <<(<<0, 127>>)>>]
\* a range matches both of its ends and everything in between; an inverted one nothing
RangeSet(lo, hi) == IF lo <= hi THEN <<(<<lo, hi>>)>> ELSE <<>>
\* a one-character string matches that character, ignoring case matches both cases of an ASCII letter
StrSet(c) == <<(<<c, c>>)>>
InsensSet(c) == IF c >= 65 /\ c <= 90 THEN <<(<<c, c>>), (<<c + 32, c + 32>>)>>
                ELSE IF c >= 97 /\ c <= 122 THEN <<(<<c - 32, c - 32>>), (<<c, c>>)>>
                ELSE StrSet(c)
Has(set, c) == \E k \in 1..Len(set) : set[k][1] <= c /\ c <= set[k][2]

WellFormed(set) == \A k \in 1..Len(set) :
  /\ 0 <= set[k][1] /\ set[k][1] <= set[k][2] /\ set[k][2] <= Max
  /\ k > 1 => set[k - 1][2] + 1 < set[k][1]
=============================================================================
