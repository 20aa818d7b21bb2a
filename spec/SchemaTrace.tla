---------------------------- MODULE SchemaTrace ----------------------------
(***************************************************************************)
(* Recorded exchanges with the schema daemon against the specification.    *)
(***************************************************************************)
EXTENDS HttpTrace, Schema

RECURSIVE Bare(_)
Bare(r) == [t |-> r.t, x |-> r.x, k |-> [i \in 1..Len(r.k) |-> Bare(r.k[i])]]

SchemaChecks(q) ==
   LET terms == [i \in 1..Len(q.terms) |-> RawOf(q.terms[i])]
       sch == SchemataOf(terms, q.a, ev.ren)
       cs  == ClassSizes(sch)
       xml == SchemaFormat(q.a) = "xml"
       total == Cardinality(DOMAIN cs)
       cov == Coverages(sch, q.a)
       mine(s) == Ascending({i - 1 : i \in {j \in DOMAIN sch : SchemaTree(sch[j]) = s}})
       n == Len(ev.schemata)
       seen == [i \in 1..n |-> [ev.schemata[i] EXCEPT !.tree = Bare(RawOf(@))]]
       Of(i) == seen[i]
       known == IF xml THEN FALSE ELSE \A i \in 1..n : Of(i).f # << >> /\ \A j \in 1..Len(Of(i).f) : Of(i).f[j] + 1 \in DOMAIN sch
       First(i) == Of(i).f[1] + 1
   IN << <<"readable answer", ev.bad = "", "">>,
         <<"content type", ev.ctype = IF xml THEN "application/xml" ELSE "application/json", SchemaFormat(q.a)>> >>
      \o IF ev.bad # "" \/ ~Simple(terms) THEN << >> ELSE
      << <<"total", ev.total = total, total>>,
         <<"size", ev.size = n, n>>,
         <<"coverages", [i \in 1..n |-> Of(i).cov] = cov, cov>>,
         <<"distinct schemata", \A i, j \in 1..n : i # j => Of(i).tree # Of(j).tree, "">>,
         <<"schemata", \A i \in 1..n : \E j \in DOMAIN sch : SchemaTree(sch[j]) = Of(i).tree, {SchemaTree(s) : s \in DOMAIN cs}>>,
         <<"classes by coverage", \A i \in 1..n : Of(i).cov = Len(mine(Of(i).tree)), [i \in 1..n |-> Len(mine(Of(i).tree))]>>,
         <<"formulae", IF xml THEN TRUE ELSE \A i \in 1..n : Of(i).f = mine(Of(i).tree), [i \in 1..n |-> mine(Of(i).tree)]>>,
         <<"substitutions", IF xml THEN TRUE ELSE IF ~known THEN FALSE ELSE \A i \in 1..n : Of(i).subst = SubstOf(terms[First(i)], sch[First(i)]),
              IF known THEN [i \in 1..n |-> SubstOf(terms[First(i)], sch[First(i)])] ELSE << >> >> >>

SRequest ==
   /\ ev.e = "SReq"
   /\ LET st == StatusOf(ev.m, ev.root, ev.body)
          q  == ReadQuery(ev.body)
      IN Verify(IF TurnedAway THEN << >> ELSE << <<"status", ev.status = st, st>> >> \o
                   (IF ev.status # st THEN << >>
                    ELSE CASE ev.m = "OPTIONS" -> << <<"allowed methods", ev.acam = Methods(ev.root), Methods(ev.root)>>,
                                                     <<"no body", ev.len = 0, 0>> >>
                           [] st = 405 -> << <<"allowed methods", ev.allow = Methods(ev.root), Methods(ev.root)>> >>
                           [] st = 200 /\ ev.m = "POST" -> SchemaChecks(q)
                           [] OTHER -> << <<"content type", ev.ctype = "text/xml", "text/xml">>, <<"a body", ev.len > 0, 1>> >>))
   /\ UNCHANGED <<idx, ren, full, ids, lists>>

(***************************************************************************)
(* A request given by a rule: formula i (from 0) is an application of plus *)
(* to the W identifiers s(iW) ... s(iW + W - 1).  Cut at 1 they are all    *)
(* alike, deeper each is a class.  (Small requests of this kind are also   *)
(* judged by what the formulae themselves give.)                           *)
(***************************************************************************)
FamLeaf(i, j, W, D) == IF D = 1 THEN [t |-> QvarTag, x |-> "x" \o ToString(j), k |-> << >>]
                       ELSE [t |-> "ci", x |-> "s" \o ToString(i * W + j - 1), k |-> << >>]
FamTree(i, W, D) == [t |-> "apply", x |-> "",
                     k |-> << [t |-> "plus", x |-> "", k |-> << >>] >> \o [j \in 1..W |-> FamLeaf(i, j, W, D)]]
SFamily ==
   /\ ev.e = "SFam"
   /\ LET n == Len(ev.schemata)
          classes == IF ev.depth = 1 THEN 1 ELSE ev.n
          F(i) == ev.schemata[i].f
          whole == \A i \in 1..n : Len(F(i)) = (IF ev.depth = 1 THEN ev.n ELSE 1)
      IN Verify(<< <<"status", ev.status = 200, 200>>, <<"readable answer", ev.bad = "", "">>,
                   <<"total", ev.total = classes, classes>>, <<"size", ev.size = n /\ n = classes, classes>>,
                   <<"coverages", \A i \in 1..n : ev.schemata[i].cov = Len(F(i)), "">>,
                   <<"classes", whole, "">>,
                   <<"every formula once", {F(i)[j] : i \in 1..n, j \in 1..(IF ev.depth = 1 THEN ev.n ELSE 1)} = 0..(ev.n - 1), "">> >> \o
                (IF ~whole THEN << >> ELSE
                << <<"schemata", \A i \in 1..n : Bare(ev.schemata[i].tree) = FamTree(F(i)[1], ev.width, ev.depth), "">> >>))
   /\ UNCHANGED <<idx, ren, full, ids, lists>>

SNext == \/ l <= Len(Trace) /\ l' = l + 1 /\ SRequest
         \/ l <= Len(Trace) /\ l' = l + 1 /\ SFamily
         \/ HNext
SSpec == HInit0 /\ [][SNext]_<<vars, lists>>
=============================================================================
