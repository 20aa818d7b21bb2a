------------------------------ MODULE BlocksMC ------------------------------
(***************************************************************************)
(* How formulae are found in an HTML page: the page is read as a sequence  *)
(* of opening, closing and self-closing math tags, "x" being other text.   *)
(* The counting reader against the meaning: the outermost balanced         *)
(* stretches.  A closing tag that closes nothing means nothing.  Nothing   *)
(* is said about pages with a math tag that is never closed.               *)
(* Mode "negative" lets the counter go below zero, "skips" overlooks the   *)
(* tag after a self-closing one, "inner" takes the innermost stretches.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS MaxTags, Mode, Emit

VARIABLES page, depth, start, found, skip
vars == <<page, depth, start, found, skip>>
Init == page = << >> /\ depth = 0 /\ start = 0 /\ found = << >> /\ skip = FALSE
Tag(t) ==
   LET n == Len(page) + 1
       eat == Mode = "skips" /\ skip /\ t # "x"
       d == CASE t = "open" -> 1 [] t = "close" -> -1 [] OTHER -> 0
       low == depth + d < 0 /\ Mode # "negative"
       nd == IF low THEN 0 ELSE depth + d
       begins == ~eat /\ t \in {"open", "self"} /\ (depth = 0 \/ (Mode = "inner" /\ t = "open"))
       st == IF begins THEN n ELSE start
       ends == ~eat /\ ~low /\ t \in {"close", "self"} /\ nd = 0
   IN /\ page' = Append(page, t)
      /\ depth' = IF eat THEN depth ELSE nd
      /\ start' = st
      /\ found' = IF ends THEN Append(found, <<st, n>>) ELSE found
      /\ skip' = (t = "self" \/ (skip /\ t = "x"))
Next == Len(page) < MaxTags /\ \E t \in {"open", "close", "self", "x"} : Tag(t)
Spec == Init /\ [][Next]_vars

(* the meaning, with no counter carried along *)
Height(i, j) == Cardinality({k \in i..j : page[k] = "open"}) - Cardinality({k \in i..j : page[k] = "close"})
Balanced(i, j) == \/ i = j /\ page[i] = "self"
                  \/ /\ page[i] = "open" /\ page[j] = "close" /\ Height(i, j) = 0
                     /\ \A k \in i..(j - 1) : Height(i, k) > 0
Stretches == {<<i, j>> \in (1..Len(page)) \X (1..Len(page)) : i <= j /\ Balanced(i, j)}
Outermost == {s \in Stretches : ~\E b \in Stretches : b # s /\ b[1] <= s[1] /\ s[2] <= b[2]}
Closed == \A i \in 1..Len(page) : page[i] = "open" => \E j \in i..Len(page) : Balanced(i, j)
FindsAll == Closed => ToSet(found) = Outermost
EachOnce == \A i, j \in 1..Len(found) : found[i] = found[j] => i = j
EmitPage == (Emit /\ Closed /\ Len(page) = MaxTags /\ found # << >>) => PrintT("GEN " \o ToJson([page |-> page, found |-> found]))
=============================================================================
