------------------------------- MODULE Schema -------------------------------
(***************************************************************************)
(* Schematisation: the formulae of one query are cut at a depth; those     *)
(* with the same result form a class, represented by that result.          *)
(***************************************************************************)
EXTENDS Query

DefaultDepth == 3

DepthOf(a) == IF "schema_depth" \in DOMAIN a THEN IntOf(a["schema_depth"]) ELSE DefaultDepth
Relative(a) == "cutoff_mode" \in DOMAIN a /\ Len(a["cutoff_mode"]) > 0 /\ Ch(a["cutoff_mode"], 1) = "R"
SchemaFormat(a) == IF "output" \in DOMAIN a /\ a["output"] = "xml" THEN "xml" ELSE "json"

(* where a formula is cut: at a number of levels, or a percentage of its own *)
CutDepth(n, a) == IF Relative(a) THEN (DepthOf(a) * TermDepth(n)) \div 100 ELSE DepthOf(a)

(* Everything that stands D levels or more below the root is cut, except   *)
(* the operator of an application (recursively: the operator of that one). *)
Hole == [hole |-> TRUE, m |-> "", c |-> << >>]
RECURSIVE CutAt(_, _, _, _)
CutAt(n, level, D, isOp) ==
   IF level >= D /\ ~isOp THEN Hole
   ELSE [hole |-> FALSE, m |-> n.m,
         c |-> [i \in 1..Len(n.c) |-> CutAt(n.c[i], level + 1, D, i = 1 /\ IsApply(n))]]
Cut(n, D) == CutAt(n, 0, D, FALSE)

(* the raw subterms which were cut off, in document order *)
RECURSIVE CutOff(_, _)
CutOff(r, s) ==
   IF s.hole THEN <<r>>
   ELSE LET RECURSIVE Kids(_)
            Kids(i) == IF i > Len(s.c) THEN << >> ELSE CutOff(r.k[i], s.c[i]) \o Kids(i + 1)
        IN Kids(1)
RECURSIVE HolesIn(_)
HolesIn(s) == IF s.hole THEN 1
              ELSE LET RECURSIVE Sum(_)
                       Sum(i) == IF i = 0 THEN 0 ELSE HolesIn(s.c[i]) + Sum(i - 1)
                   IN Sum(Len(s.c))

(* a schema as an element: its holes are variables numbered in document order *)
RECURSIVE FirstHash(_, _)
FirstHash(str, i) == IF i > Len(str) THEN 0 ELSE IF Ch(str, i) = "#" THEN i ELSE FirstHash(str, i + 1)
TagOf(m)  == LET i == FirstHash(m, 1) IN IF i = 0 THEN "ci" ELSE SubSeq(m, 1, i - 1)
TextOf(m) == LET i == FirstHash(m, 1) IN IF i = 0 THEN m ELSE SubSeq(m, i + 1, Len(m))
HoleTree(k) == [t |-> QvarTag, x |-> "x" \o ToString(k), k |-> << >>]
RECURSIVE TreeFrom(_, _)        \* k: number of holes before this subterm
TreeFrom(s, k) ==
   IF s.hole THEN HoleTree(k + 1)
   ELSE LET RECURSIVE Before(_)
            Before(i) == IF i = 1 THEN k ELSE Before(i - 1) + HolesIn(s.c[i - 1])
        IN [t |-> TagOf(s.m), x |-> TextOf(s.m), k |-> [i \in 1..Len(s.c) |-> TreeFrom(s.c[i], Before(i))]]
RootHole == [t |-> QvarTag, x |-> "x0", k |-> << >>]
SchemaTree(s) == IF s.hole THEN RootHole ELSE TreeFrom(s, 0)

(***************************************************************************)
(* Classes.  Formulae are known by their 0-based position in the query.    *)
(***************************************************************************)
SNorm(r, renaming) == LET n == Norm(r) IN IF renaming THEN Canon(n) ELSE n
Counted(terms) == {i \in 1..Len(terms) : Encodable(Norm(terms[i]))}
Simple(terms) == \A i \in 1..Len(terms) : Count4(Norm(terms[i]), "v") + Count4(Norm(terms[i]), "w") + Count4(Norm(terms[i]), "r") = 0
SchemataOf(terms, a, renaming) == [i \in Counted(terms) |-> LET n == SNorm(terms[i], renaming) IN Cut(n, CutDepth(n, a))]
ClassSizes(sch) == [s \in {sch[i] : i \in DOMAIN sch} |-> Cardinality({i \in DOMAIN sch : sch[i] = s})]
Ascending(S) == SortSeq(SetToSeq(S), <)
(* how many classes are shown *)
ShownOf(a, total) == LET s == SizeOf(a) IN IF s = 0 THEN total ELSE MinOf(s, total)
(* coverages of the shown classes, largest first *)
Coverages(sch, a) ==
   LET cs == ClassSizes(sch)
       all == SortSeq(FoldSet(LAMBDA s, acc : Append(acc, cs[s]), << >>, DOMAIN cs), LAMBDA x, y : x > y)
   IN SubSeq(all, 1, ShownOf(a, Len(all)))
XrefOf(r) == IF HasAttr(r, "xref") THEN r.a["xref"] ELSE ""
SubstOf(r, s) == SelectSeq([i \in 1..Len(CutOff(r, s)) |-> XrefOf(CutOff(r, s)[i])], LAMBDA x : x # "")
=============================================================================
