----------------------------- MODULE StoreTrace -----------------------------
(***************************************************************************)
(* Recorded operations on index directories (builds, servings, damage),    *)
(* with the answers each serving gave, against Store.tla.                  *)
(***************************************************************************)
EXTENDS SearchTrace, Store

VARIABLE store      \* directory -> set of what it may hold

Held(d) == IF d \in DOMAIN store THEN store[d] ELSE {Fresh}
Known == {n \in DOMAIN idx : TRUE}
EmptyIndex(g) == g \in DOMAIN idx /\ idx[g] = << >>

Unchanged == UNCHANGED <<idx, ren, full, ids>>

ABuild ==
   /\ ev.e = "Build"
   /\ LET after == BuildAfter(Held(ev.d), ev.n, ev.del, ev.fault, EmptyIndex(ev.n), ev.rc = 0)
      IN /\ Verify(<< <<"exit code of the build", after # {}, Held(ev.d)>> >>)
         /\ store' = (ev.d :> IF after = {} THEN Held(ev.d) ELSE after) @@ store
   /\ Unchanged

(* all the answers of the server are those of index g *)
AnswersOf(g) ==
   \A k \in 1..Len(ev.asked) :
      LET a == ev.asked[k]
          exp == Answer(idx[g], QueryTerm(a.q, ren[g]))
      IN a.status = 200 /\ a.bad = "" /\ SameBag(a.hits, [i \in 1..Len(exp) |-> Shown(exp[i])]) /\ a.total = Len(exp)

AServe ==
   /\ ev.e = "Serve"
   /\ LET out == UNION {ServeOutcomes(o, ev.given, ev.n, ev.del, ev.fault, EmptyIndex(ev.n)) : o \in Held(ev.d)}
          possible == {x \in out : IF ev.up THEN x[1] # Refused ELSE x[1] = Refused}
          agree == {x \in possible : ~ev.up \/ AnswersOf(x[1])}
      IN /\ Verify(<< <<IF ev.up THEN "served a directory that holds no complete index" ELSE "refused to serve", possible # {}, out>>,
                      <<"answers are not those of the index", agree # {}, possible>>,
                      <<"exit code of a refusal", ev.up \/ ev.fault \/ ev.rc = 1, 1>> >>)
         /\ store' = (ev.d :> IF agree = {} THEN Held(ev.d) ELSE {x[2] : x \in agree}) @@ store
   /\ Unchanged

(* the memory sector (or another part) was damaged by the driver *)
ADamage ==
   /\ ev.e = "Damage"
   /\ store' = (ev.d :> (IF Held(ev.d) = {Fresh} THEN {Fresh} ELSE {Debris})) @@ store
   /\ Unchanged

(* a copy of a directory *)
ACopy ==
   /\ ev.e = "Copy"
   /\ store' = (ev.d :> Held(ev.of)) @@ store
   /\ Unchanged

SInit == Init /\ store = EmptyEnv
SNext == l <= Len(Trace) /\ l' = l + 1
         /\ \/ (AnIndex \/ ATree \/ Alias \/ Ask \/ PageOf \/ XmlOf \/ IdsOf \/ Built \/ Fact) /\ UNCHANGED store
            \/ Forget /\ store' = EmptyEnv
            \/ ABuild \/ AServe \/ ADamage \/ ACopy
SSpec == SInit /\ [][SNext]_<<vars, store>>
=============================================================================
