------------------------------ MODULE FamilyMC ------------------------------
(***************************************************************************)
(* The classes of a family against the list of its expressions: over small  *)
(* templates, counts and queries, each expression gives what its class      *)
(* gives, and the classes have as many members as they are said to have.    *)
(***************************************************************************)
EXTENDS Family

CONSTANTS Texts, QTexts, Counts, Periods

Lf(x) == [t |-> "ci", a |-> EmptyEnv, x |-> x, k |-> << >>]
QL(x) == IF x = "?x" THEN [Lf("x") EXCEPT !.t = QvarTag] ELSE Lf(x)
Nd(S) == S \cup {[t |-> "f", a |-> EmptyEnv, x |-> "", k |-> <<a, b>>] : a \in S, b \in S}

VARIABLES f, q, ren
Init == /\ \E t \in Nd({Lf(x) : x \in Texts}), n \in Counts, p \in Periods : f = [t |-> t, count |-> n, period |-> p, docs |-> 0]
        /\ q \in Nd({QL(x) : x \in QTexts}) /\ ren \in BOOLEAN
Next == UNCHANGED <<f, q, ren>>
Spec == Init /\ [][Next]_<<f, q, ren>>

sp == Special(f, q)
Direct(i) == PlacesIn(f, QueryTerm(q, ren), ren, IF f.period = 0 THEN i ELSE i % f.period)
ClassesTell ==
   LET p == Places(f, sp, q, ren) IN
   /\ \A i \in 1..f.count : ClassOf(f, sp, i) \in Classes(f, sp) /\ p[ClassOf(f, sp, i)] = Direct(i)
   /\ AllPlaces(f, sp, p) = FoldSet(LAMBDA i, acc : acc + Cardinality(Direct(i)), 0, 1..f.count)
   /\ \A c \in Classes(f, sp) : Members(f, sp, c) = Cardinality({i \in 1..f.count : ClassOf(f, sp, i) = c})
=============================================================================
