------------------------------- MODULE Family -------------------------------
(***************************************************************************)
(* Large indexes given by a rule: expressions 1 .. count, the i-th one      *)
(* being a template filled in with its residue i % period (or with i        *)
(* itself, if period is 0), at the address "u<i>", linked to document       *)
(* i % docs (or to none, if docs is 0).  In the template a text may end in  *)
(* "@", for the number, or in "&", for its last digit.                      *)
(*                                                                          *)
(* What a query must answer is said class by class, without listing the     *)
(* index.  With period 0 all numbers with one last digit make one class,    *)
(* apart from those below 10 and those a constant of the query ends in:     *)
(* they cannot be told apart by the query (FamilyMC checks this).           *)
(***************************************************************************)
EXTENDS Index, FiniteSetsExt

FillText(x, c) ==
   IF Len(x) = 0 THEN x
   ELSE CASE Ch(x, Len(x)) = "@" -> SubSeq(x, 1, Len(x) - 1) \o ToString(c)
          [] Ch(x, Len(x)) = "&" -> SubSeq(x, 1, Len(x) - 1) \o ToString(c % 10)
          [] OTHER               -> x
RECURSIVE Fill(_, _)
Fill(t, c) == [t EXCEPT !.x = FillText(@, c), !.k = [j \in 1..Len(@) |-> Fill(@[j], c)]]

(* numbers a text ends in *)
RECURSIVE Endings(_, _, _, _)
Endings(x, n, val, p) ==
   IF n = 0 \/ p > 1000000 \/ Ch(x, n) \notin Digits THEN {}
   ELSE LET v == val + p * DigitVal[Ch(x, n)] IN {v} \cup Endings(x, n - 1, v, p * 10)
RECURSIVE Mentioned(_)
Mentioned(n) == Endings(n.m, Len(n.m), 0, 1) \cup UNION {Mentioned(n.c[i]) : i \in 1..Len(n.c)}

Special(f, q) == ((0..9) \cup Mentioned(Norm(q))) \cap 1..f.count

Rep(f, sp, d) == LET C == {i \in {10 * k + d : k \in 1..(Cardinality(sp) + 2)} : i \notin sp /\ i <= f.count} IN
                 IF C = {} THEN 0 ELSE Min(C)
ClassOf(f, sp, i) == IF f.period # 0 THEN i % f.period ELSE IF i \in sp THEN i ELSE Rep(f, sp, i % 10)
Classes(f, sp) == IF f.period # 0 THEN 0..(f.period - 1) ELSE sp \cup ({Rep(f, sp, d) : d \in 0..9} \ {0})
UpTo(n, d, p) == n \div p + (IF d # 0 /\ d <= n % p THEN 1 ELSE 0)       \* numbers in 1..n with residue d
Members(f, sp, c) ==
   IF f.period # 0 THEN UpTo(f.count, c, f.period)
   ELSE IF c \in sp THEN 1
   ELSE UpTo(f.count, c % 10, 10) - Cardinality({i \in sp : i % 10 = c % 10})

(* where the query matches in the i-th expression *)
PlacesIn(f, qt, ren, c) ==
   LET t   == Norm(Fill(f.t, c))
       occ == IF ren THEN FirstOccurrencesRen(t) ELSE FirstOccurrences(t)
       ok  == SelectSeq(occ, LAMBDA o : Encodable(o[2]) /\ Matches(qt, o[2]))
   IN {ok[j][1] : j \in 1..Len(ok)}
Places(f, sp, q, ren) ==
   LET qt == QueryTerm(q, ren) IN TLCEval([c \in Classes(f, sp) |-> PlacesIn(f, qt, ren, c)])

AllPlaces(f, sp, places) == FoldSet(LAMBDA c, acc : acc + Cardinality(places[c]) * Members(f, sp, c), 0, Classes(f, sp))

DataOf(f, i) == IF f.docs = 0 THEN << >> ELSE <<"T:doc" \o ToString(i % f.docs)>>
IsHit(f, sp, places, h) == h[1] \in 1..f.count /\ h[2] \in places[ClassOf(f, sp, h[1])] /\ h[3] = DataOf(f, h[1])
=============================================================================
