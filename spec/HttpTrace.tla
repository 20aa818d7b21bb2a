----------------------------- MODULE HttpTrace -----------------------------
(***************************************************************************)
(* Recorded HTTP exchanges against the specification.  Every request is    *)
(* judged by itself: by its method, whether its URL is the root, and the   *)
(* XML events of its body - not by how the body was cut, what came before, *)
(* or what else was going on.                                              *)
(***************************************************************************)
EXTENDS SearchTrace, Query

VARIABLE lists      \* <<server, normal query>> -> the full list, as first given

IsSubBag(a, b) == a = b \/ \A x \in {a[i] : i \in 1..Len(a)} : Count(a, x) <= Count(b, x)

AnswerChecks(q) ==
   LET term == q.terms[1]
       exp  == LET a == Answer(idx[ev.n], QueryTerm(term, ren[ev.n])) IN a
       shown == [i \in 1..Len(exp) |-> Shown(exp[i])]
       off == OffsetOf(q.a)  size == SizeOf(q.a)  fmt == FormatOf(q.a)
       key == <<ev.s, Norm(term)>>
       vo == VarOccurrences(Norm(term))
       nf == Cardinality(Formulae(exp))
       wantlen == IF off >= Len(exp) THEN 0 ELSE MinOf(size, Len(exp) - off)
       wantids == IF off >= nf THEN 0 ELSE MinOf(size, nf - off)
       qv == [i \in 1..Len(vo) |-> <<vo[i].name, vo[i].xpath>>]
   IN << <<"readable answer", ev.bad = "", "">>,
         <<"content type", ev.ctype = ContentType(fmt), ContentType(fmt)>>,
         <<"total", ev.total = IF fmt = "mws-ids" THEN nf ELSE Len(exp), IF fmt = "mws-ids" THEN nf ELSE Len(exp)>>,
         <<"number of hits", Len(ev.hits) = (IF fmt = "mws-ids" THEN 0 ELSE wantlen), wantlen>>,
         <<"number of ids", fmt # "mws-ids" \/ (Len(ev.ids) = wantids /\ Cardinality({ev.ids[i] : i \in 1..Len(ev.ids)}) = wantids), wantids>>,
         <<"hits", fmt = "mws-ids" \/ (key \in DOMAIN lists /\ ev.hits = Page(lists[key], off, size)) \/ IsSubBag(ev.hits, shown), Difference(ev.hits, shown)>>,
         <<"page", (fmt # "mws-ids" /\ key \in DOMAIN lists) => ev.hits = Page(lists[key], off, size),
                   IF key \in DOMAIN lists THEN Page(lists[key], off, size) ELSE << >> >>,
         <<"qvars", fmt = "xml" \/ ev.qvars = qv, qv>>,
         <<"substpairs", fmt # "xml" \/ \A i \in 1..Len(ev.hits) :
               ev.subst[i] = [j \in 1..Len(qv) |-> <<qv[j][1], ev.hits[i][2] \o qv[j][2]>>], qv>> >>

(* Beyond the limit of simultaneous connections a client may be turned away without a response. *)
TurnedAway == "crowd" \in DOMAIN ev /\ ev.crowd /\ ev.status = 0 /\ ev.len = 0

ARequest ==
   /\ ev.e = "Req"
   /\ LET st == StatusOf(ev.m, ev.root, ev.body)
          q  == ReadQuery(ev.body)
      IN /\ Verify(IF TurnedAway THEN << >> ELSE << <<"status", ev.status = st, st>> >> \o
                   (IF ev.status # st THEN << >>
                    ELSE CASE ev.m = "OPTIONS" -> << <<"allowed methods", ev.acam = Methods(ev.root), Methods(ev.root)>>,
                                                     <<"no body", ev.len = 0, 0>> >>
                           [] st = 405 -> << <<"allowed methods", ev.allow = Methods(ev.root), Methods(ev.root)>> >>
                           [] st = 200 /\ ev.m = "POST" -> AnswerChecks(q)
                           [] OTHER -> << <<"content type", ev.ctype = "text/xml", "text/xml">>, <<"a body", ev.len > 0, 1>> >>))
         /\ lists' = IF st = 200 /\ ev.status = 200 /\ ev.m = "POST" /\ FormatOf(q.a) # "mws-ids" /\ OffsetOf(q.a) = 0
                        /\ ev.total <= SizeOf(q.a) /\ <<ev.s, Norm(q.terms[1])>> \notin DOMAIN lists
                     THEN (<<ev.s, Norm(q.terms[1])>> :> ev.hits) @@ lists ELSE lists
   /\ UNCHANGED <<idx, ren, full, ids>>

HInit0 == Init /\ lists = EmptyEnv
HNext == l <= Len(Trace) /\ l' = l + 1
         /\ \/ (AnIndex \/ ATree \/ Alias \/ Ask \/ PageOf \/ XmlOf \/ IdsOf \/ AskFamily \/ Built \/ Fact) /\ UNCHANGED lists
            \/ Forget /\ lists' = EmptyEnv
            \/ ARequest
HSpec == HInit0 /\ [][HNext]_<<vars, lists>>
=============================================================================
