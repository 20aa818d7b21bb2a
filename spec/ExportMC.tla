------------------------------ MODULE ExportMC ------------------------------
(***************************************************************************)
(* The exporter as it reads a harvest - one pass, with a map of the data   *)
(* elements met so far - against what is meant: an expression belongs to   *)
(* the last completed data element before it that bears the identifier it  *)
(* names, and a document lists the subterms of its expressions, each with  *)
(* the addresses where it is found.                                        *)
(*                                                                         *)
(* A harvest is a sequence of "D1" "D2" (data with that identifier), "A1"  *)
(* "A2" "B1" (expression f(a) or f(b) linked to it), "A0" (not linked),    *)
(* "Dx" "Ax" (the file breaks off inside an element).                      *)
(* Mode "map" is the exporter; "current": expressions belong to the last   *)
(* data element; "first": the first data element of an identifier counts.  *)
(***************************************************************************)
EXTENDS Export, Json
CONSTANTS N, Mode, Emit

VARIABLES hist, st
vars == <<hist, st>>

NoAttr == [x \in {} |-> ""]
At(f, v) == f :> v
Open(n, a) == [e |-> "S", n |-> n, a |-> a, al |-> << >>]
End == [e |-> "E"]
Txt(x) == [e |-> "T", x |-> x]
Break == [e |-> "X"]
IdAttr(x) == IF x = "0" THEN NoAttr ELSE At("mws:data_id", x)
Data(n, id) == << Open("mws:data", IdAttr(id)), Open("id", NoAttr), Txt("doc" \o ToString(n)), End, End >>
Expr(n, id, c) == << Open("mws:expr", At("url", "u" \o ToString(n)) @@ IdAttr(id)),
                     Open("apply", NoAttr), Open("ci", NoAttr), Txt("f"), End, Open("ci", NoAttr), Txt(c), End, End, End >>
Cut(ev, n) == SubSeq(ev, 1, n) \o << Break >>

EventsOf(x, n) ==
   CASE x = "D1" -> Data(n, "1") [] x = "D2" -> Data(n, "2")
     [] x = "A1" -> Expr(n, "1", "a") [] x = "A2" -> Expr(n, "2", "a") [] x = "B1" -> Expr(n, "1", "b")
     [] x = "A0" -> Expr(n, "0", "a")
     [] x = "Dx" -> Cut(Data(n, "1"), 4)
     [] x = "Ax" -> Cut(Expr(n, "1", "a"), 7)
Names_ == {"D1", "D2", "A1", "A2", "B1", "A0", "Dx", "Ax"}
IdOf(x) == CASE x \in {"D1", "A1", "B1", "Dx", "Ax"} -> "1" [] x \in {"D2", "A2"} -> "2" [] OTHER -> "0"
IsData(x) == x \in {"D1", "D2"}
IsExpr(x) == x \in {"A1", "A2", "B1", "A0"}

(* the machine: EStep of module Export, and two that are wrong *)
Reading(s, evs) == FoldLeft(EStep, s, evs)
Step_(s, x, n) ==
   LET s2 == Reading(s, EventsOf(x, n)) IN
   CASE Mode = "current" /\ IsExpr(x) /\ Len(s2.ex) > Len(s.ex) -> [s2 EXCEPT !.ex[Len(s2.ex)].doc = Len(s2.docs)]
     [] Mode = "first" /\ IsData(x) /\ IdOf(x) \in DOMAIN s.links -> [s2 EXCEPT !.links = s.links]
     [] OTHER -> s2

Init == hist = << >> /\ st = Reading(EInit, << Open("mws:harvest", NoAttr) >>)
Going == Len(hist) < N /\ ~st.h.dead
Read(x) == Going /\ hist' = Append(hist, x) /\ st' = Step_(st, x, Len(hist) + 1)
DataRead == \E x \in {"D1", "D2"} : Read(x)
ExprRead == \E x \in {"A1", "A2", "B1", "A0"} : Read(x)
Broken == \E x \in {"Dx", "Ax"} : Read(x)
Next == DataRead \/ ExprRead \/ Broken
Spec == Init /\ [][Next]_vars

(* what is meant, by positions *)
DataAt == {i \in 1..Len(hist) : IsData(hist[i])}
Belongs(i) == LET S == {j \in DataAt : j < i /\ IdOf(hist[j]) = IdOf(hist[i])} IN
              IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : k <= j
Arg(x) == IF x = "B1" THEN "b" ELSE "a"
Meant(j) == {[u |-> "u" \o ToString(i), arg |-> Arg(hist[i])] : i \in {k \in 1..Len(hist) : IsExpr(hist[k]) /\ Belongs(k) = j}}

Doc(k) == CHOOSE j \in DataAt : Cardinality({i \in DataAt : i <= j}) = k
Everything == UNION {Positions(st.ex[i], FALSE) : i \in 1..Len(st.ex)}
AllTerms == {o.s : o \in Everything}
DocumentsAsMeant ==
   /\ Len(st.docs) = Cardinality(DataAt)
   /\ \A k \in 1..Len(st.docs) :
        /\ FirstText(DataTree(st.docs[k]), "id") = "doc" \o ToString(Doc(k))
        /\ LET occ == OccurrencesIn(st, k, FALSE, AllTerms) IN
           /\ {o.u : o \in occ} = {m.u : m \in Meant(Doc(k))}
           (* of every expression the application and what it is applied to *)
           /\ \A m \in Meant(Doc(k)) : Cardinality({o \in occ : o.u = m.u}) = 3
           (* same term in two places: one term, two addresses *)
           /\ Cardinality({o.s : o \in occ}) = (IF Meant(Doc(k)) = {} THEN 0 ELSE 1 + 2 * Cardinality({m.arg : m \in Meant(Doc(k))}))
EmitStreams == (Emit /\ hist # << >> /\ ~Going) => PrintT("GEN " \o ToJson(hist))
=============================================================================
