---------------------------- MODULE SearchTrace ----------------------------
(***************************************************************************)
(* Is a recorded run of the real programs a behaviour of the search        *)
(* specification?  The trace is a sequence of JSON events; each one is     *)
(* either something the driver did (declare what is in an index, forget)   *)
(* or something the programs were observed to answer.  An observation that *)
(* the specification does not allow in the current state is reported as    *)
(* REJECT and skipped, so that one run lists every deviation.              *)
(***************************************************************************)
EXTENDS Loader, Family, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,       \* position in the trace
          idx,     \* index name -> its hits
          ren,     \* index name -> identifier renaming on?
          full,    \* <<server, question>> -> full list of hits as first observed
          ids      \* <<index, normal term>> -> formula id as observed
vars == <<l, idx, ren, full, ids>>

Init == l = 1 /\ idx = EmptyEnv /\ ren = EmptyEnv /\ full = EmptyEnv /\ ids = EmptyEnv
        /\ TLCSet(1, 0)

ev == Trace[l]

Has(f) == f \in DOMAIN ev

Reject(what, expected) ==
   /\ PrintT("REJECT " \o ToString(l) \o " " \o what)
   /\ PrintT(expected)
   /\ TLCSet(1, TLCGet(1) + 1)

(* check a list of <<name, holds, expected>> *)
Verify(checks) ==
   LET bad == SelectSeq(checks, LAMBDA c : ~c[2]) IN
   IF bad = << >> THEN TRUE ELSE Reject(bad[1][1], bad[1][3])

----------------------------------------------------------------------------
(* what an answer must be *)

Proj(h) == IF Has("cmp") /\ ev.cmp = "pairs" THEN <<h[1], h[2]>> ELSE h
ProjAll(sq) == [i \in 1..Len(sq) |-> Proj(sq[i])]

Expected(q) == LET a == Answer(idx[ev.n], QueryTerm(q, ren[ev.n]))
               IN [i \in 1..Len(a) |-> Shown(a[i])]

Difference(got, want) ==
   LET E(sq) == {sq[i] : i \in 1..Len(sq)} IN
   [missing |-> E(want) \ E(got), extra |-> E(got) \ E(want),
    differently_often |-> {x \in E(got) \cap E(want) : Count(got, x) # Count(want, x)}]

QVarsOf(q) == LET vo == VarOccurrences(Norm(q)) IN [i \in 1..Len(vo) |-> <<vo[i].name, vo[i].xpath>>]

(* kinds of events *)
AnIndex ==
   /\ ev.e = "Index"
   /\ idx' = (ev.n :> IndexOf(Entries(ev.streams, ev.data), ev.ren)) @@ idx
   /\ ren' = (ev.n :> ev.ren) @@ ren
   /\ UNCHANGED <<full, ids>>

ATree ==                       \* an index of the harvests found in a file tree
   /\ ev.e = "Tree"
   /\ LET st == SelectedStreams(ev.tree, ev.tops, ev.ext, ev.rec) IN
      idx' = (ev.n :> IndexOf(Entries(st, ev.data), ev.ren)) @@ idx
   /\ ren' = (ev.n :> ev.ren) @@ ren
   /\ UNCHANGED <<full, ids>>

Alias ==                       \* another index with the same contents
   /\ ev.e = "Alias"
   /\ idx' = (ev.n :> idx[ev.of]) @@ idx
   /\ ren' = (ev.n :> ren[ev.of]) @@ ren
   /\ UNCHANGED <<full, ids>>

Forget ==
   /\ ev.e = "Forget"
   /\ idx' = EmptyEnv /\ ren' = EmptyEnv /\ full' = EmptyEnv /\ ids' = EmptyEnv

(* building succeeds iff there is something to index *)
Built ==
   /\ ev.e = "Built"
   /\ LET want == IF idx[ev.n] = << >> THEN 1 ELSE 0 IN Verify(<< <<"exit code of mws-index", ev.rc = want, want>> >>)
   /\ UNCHANGED <<idx, ren, full, ids>>

(* a question whose page is large enough for everything *)
Ask ==
   /\ ev.e = "Ask"
   /\ LET exp == Expected(ev.q)
          t == Norm(ev.q)
          empty == OverCapacity(t) /\ ev.hits = << >> /\ ev.total = 0
          refused == TooDeep(t) /\ ev.status = 400
      IN Verify(IF refused THEN << >> ELSE
                << <<"status", ev.status = 200 /\ ev.bad = "", 200>>,
                   <<"hits", empty \/ SameBag(ProjAll(ev.hits), ProjAll(exp)), Difference(ProjAll(ev.hits), ProjAll(exp))>>,
                   <<"content type", ~Has("ctype") \/ ev.ctype = "application/json", "application/json">>,
                   <<"total", empty \/ ev.total = MinOf(Len(exp), MaxTotal), Len(exp)>>,
                   <<"qvars", empty \/ ~Has("qvars") \/ (Has("cmp") /\ ev.cmp = "pairs")
                              \/ ev.qvars = QVarsOf(ev.q), QVarsOf(ev.q)>> >>)
   /\ full' = IF Has("id") THEN (<<ev.s, ev.id>> :> ev.hits) @@ full ELSE full
   /\ UNCHANGED <<idx, ren, ids>>

(* a page of a question already asked in full of the same server *)
PageOf ==
   /\ ev.e = "Page"
   /\ LET f == full[<<ev.s, ev.id>>]
          exp == Page(f, ev.off, ev.size)
      IN Verify(<< <<"status", ev.status = 200 /\ ev.bad = "", 200>>,
                   <<"page", ev.hits = exp, exp>>,
                   <<"total", ev.total = MinOf(Len(f), MaxTotal), Len(f)>> >>)
   /\ UNCHANGED <<idx, ren, full, ids>>

(* the same question in the XML format, same page *)
XmlOf ==
   /\ ev.e = "Xml"
   /\ LET f == full[<<ev.s, ev.id>>]
          exp == Page(f, ev.off, ev.size)
          qv == QVarsOf(ev.q)
          got == [i \in 1..Len(ev.hits) |-> <<ev.hits[i][1], ev.hits[i][2], ev.hits[i][3]>>]
      IN Verify(<< <<"status", ev.status = 200 /\ ev.bad = "", 200>>,
                   <<"hits", got = exp, exp>>,
                   <<"substpairs", \A i \in 1..Len(ev.hits) :
                       ev.hits[i][4] = [j \in 1..Len(qv) |-> <<qv[j][1], ev.hits[i][2] \o qv[j][2]>>], qv>>,
                   <<"content type", ev.ctype = "application/xml", "application/xml">>,
                   <<"total", ev.total = MinOf(Len(f), MaxTotal), Len(f)>>,
                   <<"size", ev.size1 = Len(ev.hits), Len(ev.hits)>> >>)
   /\ UNCHANGED <<idx, ren, full, ids>>

(* the same question in the id format: distinct matching formulae, each with an id that is always the same *)
IdsOf ==
   /\ ev.e = "Ids"
   /\ LET a == Answer(idx[ev.n], QueryTerm(ev.q, ren[ev.n]))
          f == Formulae(a)
          want == IF ev.off >= Cardinality(f) THEN 0 ELSE MinOf(ev.size, Cardinality(f) - ev.off)
      IN Verify(<< <<"status", ev.status = 200 /\ ev.bad = "", 200>>,
                   <<"total", ev.total = MinOf(Cardinality(f), MaxTotal), Cardinality(f)>>,
                   <<"number of ids", Len(ev.ids) = want, want>>,
                   <<"ids differ", Cardinality({ev.ids[i] : i \in 1..Len(ev.ids)}) = Len(ev.ids), want>>,
                   <<"size", ev.size1 = Len(ev.ids), Len(ev.ids)>>,
                   <<"content type", ev.ctype = "application/json", "application/json">>,
                   <<"qvars", ev.qvars = QVarsOf(ev.q), QVarsOf(ev.q)>>,
                   <<"same ids", (<<ev.n, Norm(ev.q)>> \in DOMAIN ids /\ ev.off = 0 /\ ev.size >= Cardinality(f))
                                 => ids[<<ev.n, Norm(ev.q)>>] = {ev.ids[i] : i \in 1..Len(ev.ids)},
                                 IF <<ev.n, Norm(ev.q)>> \in DOMAIN ids THEN ids[<<ev.n, Norm(ev.q)>>] ELSE {}>> >>)
      /\ ids' = IF ev.off = 0 /\ ev.size >= Cardinality(f)
                THEN (<<ev.n, Norm(ev.q)>> :> {ev.ids[i] : i \in 1..Len(ev.ids)}) @@ ids ELSE ids
   /\ UNCHANGED <<idx, ren, full>>

(* A page of a large index given by a rule.  All pages of one question must be parts of one list. *)
(* ev.hits are the first hits of the page (more than any page asked for should have), ev.len is   *)
(* how many it had.                                                                               *)
AskFamily ==
   /\ ev.e = "AskFamily"
   /\ LET f == ev.family
          sp == Special(f, ev.q)
          places == Places(f, sp, ev.q, ev.ren)
          n == AllPlaces(f, sp, places)
          want(top) == IF ev.off >= top THEN 0 ELSE MinOf(ev.size, top - ev.off)
          key == <<ev.s, ev.id>>
          old == IF key \in DOMAIN full THEN full[key] ELSE EmptyEnv
          got == [p \in (ev.off + 1)..(ev.off + Len(ev.hits)) |-> ev.hits[p - ev.off]]
          both == DOMAIN old \cap DOMAIN got
          all == got @@ old
      IN /\ Verify(<< <<"status", ev.status = 200 /\ ev.bad = "", 200>>,
                      <<"total", ev.total = MinOf(n, MaxTotal), MinOf(n, MaxTotal)>>,
                      <<"number of hits", ev.len = want(MinOf(n, MaxTotal)), want(MinOf(n, MaxTotal))>>,
                      <<"hits", \A i \in 1..Len(ev.hits) : IsHit(f, sp, places, ev.hits[i]),
                                SelectSeq(ev.hits, LAMBDA h : ~IsHit(f, sp, places, h))>>,
                      <<"same list", \A p \in both : got[p] = old[p], [p \in {p \in both : got[p] # old[p]} |-> old[p]]>>,
                      <<"each hit once", Cardinality({all[p] : p \in DOMAIN all}) = Cardinality(DOMAIN all), "">>,
                      <<"qvars", ev.qvars = QVarsOf(ev.q), QVarsOf(ev.q)>> >>)
         /\ full' = (key :> all) @@ full
   /\ UNCHANGED <<idx, ren, ids>>

(* plain observations: the driver states what it saw and what it must be.  *)
(* Used for facts with no state: exit codes, statuses, files left alone.   *)
Fact ==
   /\ ev.e = "Fact"
   /\ Verify(<< <<ev.what, ev.got = ev.want, ev.want>> >>)
   /\ UNCHANGED <<idx, ren, full, ids>>

Next == l <= Len(Trace) /\ l' = l + 1
        /\ (AnIndex \/ ATree \/ Alias \/ Forget \/ Ask \/ PageOf \/ XmlOf \/ IdsOf \/ AskFamily \/ Built \/ Fact)

Spec == Init /\ [][Next]_vars

Complete == /\ TLCGet("stats").diameter - 1 = Len(Trace)
            /\ PrintT("ACCEPTED-LENGTH " \o ToString(Len(Trace)) \o " REJECTS " \o ToString(TLCGet(1)))
=============================================================================
