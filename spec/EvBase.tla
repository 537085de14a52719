------------------------------- MODULE EvBase -------------------------------
(***************************************************************************)
(* Evidential bases are finite sets of evidence identifiers; stamps carry  *)
(* one together with times.  Merging two bases takes entries alternately,  *)
(* oldest (smallest) first and beginning with the second base, until the   *)
(* maximum is reached.  An entry both bases have is taken from both, so it *)
(* counts twice against the maximum.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Ascending(S) == SetToSortSeq(S, <)
Smaller(x, y) == IF x < y THEN x ELSE y

\* The same at once
Closed(n, len1, len2) ==
  LET half == (n + 1) \div 2
      two == IF len2 < half THEN len2 ELSE IF n - len1 > half THEN n - len1 ELSE half
  IN <<n - two, two>>

\* How many entries come from the first and from the second base, of n in all
RECURSIVE Shares(_, _, _, _, _)
Shares(n, len1, len2, got1, got2) ==
  IF n = 0 THEN <<got1, got2>>
  ELSE LET two == got2 < len2
           n1 == IF two THEN n - 1 ELSE n
           one == n1 > 0 /\ got1 < len1
           n2 == IF one THEN n1 - 1 ELSE n1
       IN IF n2 = n THEN <<got1, got2>>
          ELSE Shares(n2, len1, len2, got1 + (IF one THEN 1 ELSE 0), got2 + (IF two THEN 1 ELSE 0))

Merge(b1, b2, max) ==
  LET s1 == Ascending(b1)
      s2 == Ascending(b2)
      h == Closed(Smaller(Len(s1) + Len(s2), max), Len(s1), Len(s2))
  IN {s1[j] : j \in 1..h[1]} \cup {s2[j] : j \in 1..h[2]}

Overlap(b1, b2) == b1 \cap b2 # {}

\* The tense of an occurrence time, seen from now
TenseOf(eternal, at, now, duration) ==
  IF eternal THEN ":-:" ELSE IF at >= now + duration THEN ":/:" ELSE IF at <= now - duration THEN ":\\:" ELSE ":|:"
=============================================================================
