------------------------------- MODULE Index -------------------------------
(***************************************************************************)
(* What an index holds and how a search over it answers.                   *)
(*                                                                         *)
(* An index is the sequence of hits                                        *)
(*    [u |-> url, d |-> data tokens, p |-> path, s |-> normal term]        *)
(* one for each first occurrence of each distinct subterm of each          *)
(* harvested expression.                                                   *)
(***************************************************************************)
EXTENDS Harvest

MaxTotal == 100000      \* documented maximum of counted results
DefaultSize == 30       \* documented default page size
MaxArity == 255         \* terms with a wider node are rejected

RECURSIVE Encodable(_)
Encodable(n) == Len(n.c) <= MaxArity /\ \A i \in 1..Len(n.c) : Encodable(n.c[i])

(* Capacities of one query: with more than these it may be rejected, i.e.   *)
(* answered as if nothing matched (or, nested too deeply for the XML        *)
(* parser, refused); it must not be answered wrongly.                       *)
MaxNamed == 31
MaxAnon  == 32
MaxRange == 32
MaxDepth == 250
RECURSIVE Count4(_, _)
Count4(n, sort) ==
   LET RECURSIVE Sum(_)
       Sum(i) == IF i = 0 THEN 0 ELSE Count4(n.c[i], sort) + Sum(i - 1)
   IN (IF n.s = sort THEN 1 ELSE 0) + Sum(Len(n.c))
Names(n) == LET vo == VarOccurrences(n) IN {vo[i].name : i \in 1..Len(vo)}
OverCapacity(n) == \/ Cardinality(Names(n)) > MaxNamed \/ Count4(n, "w") > MaxAnon
                   \/ Count4(n, "r") > MaxRange \/ ~Encodable(n)
TooDeep(n) == TermDepth(n) > MaxDepth

EntryHits(e, ren) ==
   LET n   == Norm(e.term)
       occ == IF ren THEN FirstOccurrencesRen(n) ELSE FirstOccurrences(n)
       ok  == SelectSeq(occ, LAMBDA o : Encodable(o[2]))
   IN [i \in 1..Len(ok) |-> [u |-> e.url, d |-> e.d, p |-> ok[i][1], s |-> ok[i][2]]]

IndexOf(entries, ren) ==
   LET RECURSIVE From(_)
       From(n) == IF n > Len(entries) THEN << >> ELSE EntryHits(entries[n], ren) \o From(n + 1)
   IN From(1)

QueryTerm(q, ren) == IF ren THEN Canon(Norm(q)) ELSE Norm(q)

Answer(hits, q) == SelectSeq(hits, LAMBDA h : Matches(q, h.s))

MinOf(a, b) == IF a < b THEN a ELSE b
Total(ans) == MinOf(Len(ans), MaxTotal)

(* a page of a list: size elements after skipping off *)
Page(full, off, size) ==
   IF off >= Len(full) \/ size = 0 THEN << >> ELSE SubSeq(full, off + 1, MinOf(Len(full), off + size))

(* what is visible of a hit *)
Shown(h) == <<h.u, h.p, h.d>>

(* equality of sequences as bags *)
Count(sq, x) == Cardinality({i \in 1..Len(sq) : sq[i] = x})
SameBag(a, b) == a = b \/
                 /\ Len(a) = Len(b)
                 /\ \A x \in {a[i] : i \in 1..Len(a)} : Count(a, x) = Count(b, x)

(* number of distinct formulae among the answers (what the id format counts) *)
Formulae(ans) == {ans[i].s : i \in 1..Len(ans)}
=============================================================================
