---------------------------- MODULE AnalysisTrace ----------------------------
(***************************************************************************)
(* Recorded analyses of saved indexes.  An analysis begins, is shown each   *)
(* distinct formula of the index once, as it was indexed, with the number   *)
(* of its hits, and ends; it may say at any point that it has seen enough.  *)
(* A renamed identifier is shown as an identifier with its new name.        *)
(***************************************************************************)
EXTENDS SearchTrace

(* the meaning a formula is shown with *)
RECURSIVE Show(_)
Show(n) == [s |-> n.s, m |-> IF n.s = "c" /\ Len(n.m) > 0 /\ Ch(n.m, 1) = "~" THEN "ci#" \o n.m ELSE n.m,
            c |-> [i \in 1..Len(n.c) |-> Show(n.c[i])]]
ShowN(n) == Show(n)

RECURSIVE SizeOfTerm(_)
SizeOfTerm(n) == FoldLeft(LAMBDA acc, c : acc + SizeOfTerm(c), 1, n.c)

Distinct(hits) == {hits[i].s : i \in 1..Len(hits)}
HitsOf(hits, s) == Cardinality({i \in 1..Len(hits) : hits[i].s = s})
Roots(hits) == Cardinality({<<s.m, Len(s.c)>> : s \in Distinct(hits)})

(* what an analysis shows of a formula *)
Rows(hits) == TLCEval({[t |-> ShowN(s), h |-> HitsOf(hits, s), d |-> TermDepth(s), z |-> SizeOfTerm(s)] : s \in Distinct(hits)})

Row(e) == LET n == Norm(e.t) IN [t |-> ShowN(n), h |-> e.h, d |-> e.d, z |-> e.z]

(* an analysis that stops after ev.stop formulae, or never (-1); 0: stops before the first *)
ShownRight(all, roots) ==
   LET got  == [i \in 1..Len(ev.rows) |-> Row(ev.rows[i])]
       seen == {got[i] : i \in 1..Len(got)}
       n    == IF ev.stop < 0 THEN Cardinality(all) ELSE MinOf(ev.stop, Cardinality(all))
   IN Verify(<< <<"exit code", ev.rc = 0, 0>>,
                <<"children of the root", ev.roots = roots, roots>>,
                <<"formulae not indexed like that", seen \subseteq all, [shown |-> seen \ all, not_shown |-> all \ seen]>>,
                <<"each once", Cardinality(seen) = Len(got), Len(got)>>,
                <<"number of formulae", Len(got) = n, [n |-> n, not_shown |-> all \ seen]>>,
                <<"ended", ev.ended = (IF ev.stop = 0 THEN 0 ELSE 1), 1>> >>)

Analysis ==
   /\ ev.e = "Analysis"
   /\ ShownRight(Rows(idx[ev.n]), Roots(idx[ev.n]))
   /\ UNCHANGED <<idx, ren, full, ids>>

(* an index given by a rule, with a period (module Family) *)
FormulaeOf(f, r, c) ==
   LET t == Norm(Fill(f.t, c))
       occ == IF r THEN FirstOccurrencesRen(t) ELSE FirstOccurrences(t)
   IN {occ[j][2] : j \in {k \in 1..Len(occ) : Encodable(occ[k][2])}}
ByClass(f, r) == TLCEval([c \in {k \in Classes(f, {}) : Members(f, {}, k) > 0} |-> FormulaeOf(f, r, c)])
FamilyHits(f, by, s) == FoldSet(LAMBDA c, acc : acc + (IF s \in by[c] THEN Members(f, {}, c) ELSE 0), 0, DOMAIN by)

AnalysisFamily ==
   /\ ev.e = "AnalysisFamily"
   /\ LET f == ev.family
          by == ByClass(f, ev.ren)
          D == UNION {by[c] : c \in DOMAIN by}
      IN ShownRight({[t |-> ShowN(s), h |-> FamilyHits(f, by, s), d |-> TermDepth(s), z |-> SizeOfTerm(s)] : s \in D},
                    Cardinality({<<s.m, Len(s.c)>> : s \in D}))
   /\ UNCHANGED <<idx, ren, full, ids>>

(* the averages are printed with six digits; ev gives whole part and digits *)
Average(sum, n, whole, micro) ==
   LET r == sum % n
       m == (r * 1000000) \div n
       v == (sum \div n) * 1000 + m \div 1000         \* compared to three digits, then to six
   IN LET d == (whole - sum \div n) * 1000000 + (micro - m) IN d \in {-1, 0, 1}

Counted(D, hits) ==
   LET depth == FoldSet(LAMBDA s, acc : acc + TermDepth(s), 0, D)
       size  == FoldSet(LAMBDA s, acc : acc + SizeOfTerm(s), 0, D)
       roots == Cardinality({<<s.m, Len(s.c)>> : s \in D})
       n == Cardinality(D)
   IN Verify(<< <<"exit code", ev.rc = 0, 0>>,
                <<"children of the root", ev.roots = roots, roots>>,
                <<"hits", ev.hits = hits, hits>>,
                <<"unique expressions", ev.unique = n, n>>,
                <<"average depth", Average(depth, n, ev.depth[1], ev.depth[2]), <<depth, n>> >>,
                <<"average size", Average(size, n, ev.size[1], ev.size[2]), <<size, n>> >> >>)

Statistics ==
   /\ ev.e = "Statistics"
   /\ Counted(Distinct(idx[ev.n]), Len(idx[ev.n]))
   /\ UNCHANGED <<idx, ren, full, ids>>

StatisticsFamily ==
   /\ ev.e = "StatisticsFamily"
   /\ LET by == ByClass(ev.family, ev.ren)
          D == UNION {by[c] : c \in DOMAIN by}
      IN Counted(D, FoldSet(LAMBDA s, acc : acc + FamilyHits(ev.family, by, s), 0, D))
   /\ UNCHANGED <<idx, ren, full, ids>>

ANext == l <= Len(Trace) /\ l' = l + 1
         /\ (AnIndex \/ Alias \/ Forget \/ Ask \/ Built \/ Fact \/ Analysis \/ Statistics
             \/ AnalysisFamily \/ StatisticsFamily)
ASpec == Init /\ [][ANext]_vars
=============================================================================
