------------------------------ MODULE StoreMC ------------------------------
(***************************************************************************)
(* How an index directory is written, file by file, and what a later load  *)
(* makes of it, checked against the outside view of Store.tla.             *)
(*                                                                         *)
(* The directory has four parts: the two databases, the dictionary and the *)
(* memory sector (whose header makes it valid).  A build is a sequence of  *)
(* steps; at each one the process may be killed (leaving the part being    *)
(* written unfinished) or the operation may fail (the build reports        *)
(* failure).  Order is the sequence of parts; CommitLast = <<"crawl",      *)
(* "formula", "dict", "mem">> is what the program does.                    *)
(***************************************************************************)
EXTENDS Store, TLC, Json

CONSTANTS Gens, Order, RemoveFirst, HeaderLast, Depth, Emit

CommitLast == <<"crawl", "formula", "dict", "mem">>
MemBeforeDict == <<"crawl", "formula", "mem", "dict">>
Parts == {"crawl", "formula", "dict", "mem"}
VARIABLES file,      \* part -> [g: index it belongs to, ok: opens, whole: has all its contents]
          pc,        \* 0: idle; k in 1..n: about to write part k; 0 < pc
          job,       \* the build being run [g, del]
          poss,      \* what the outside view says the directory may hold
          hist       \* operations so far (for replay)
vars == <<file, pc, job, poss, hist>>

None == [g |-> "none", ok |-> FALSE, whole |-> FALSE]
NoJob == [g |-> "", del |-> FALSE, by |-> ""]
Init == /\ file = [p \in Parts |-> None] /\ pc = 0 /\ job = NoJob
        /\ poss = {Fresh} /\ hist = << >>

(* what a load sees: every part opens; an unfinished database or dictionary opens too *)
Valid == \A p \in Parts : file[p].ok
Consistent == \A p \in Parts : file[p].whole /\ file[p].g = file["mem"].g

Rec(op) == hist' = Append(hist, op)

(* "index": mws-index, which never deletes; "serve": mwsd -D -I, which     *)
(* builds only if it cannot load; "serve -f" deletes                       *)
Start(g, by) ==
   /\ pc = 0 /\ Len(hist) < Depth
   /\ LET del == by = "servef" IN
      IF by \in {"serve", "servef"} /\ Valid
      THEN /\ poss' = {o \in poss : o \notin Nothing}
           /\ UNCHANGED <<file, pc, job>> /\ Rec(<<by, g, "ok">>)
      ELSE IF file["mem"] # None /\ ~del
      THEN /\ poss' = BuildAfter(poss, g, del, FALSE, FALSE, FALSE)
           /\ UNCHANGED <<file, pc, job>> /\ Rec(<<by, g, "ok">>)
      ELSE IF ~del /\ \E p \in {"crawl", "formula"} : file[p] # None     \* left-overs: refused
      THEN /\ poss' = BuildAfter(poss, g, del, FALSE, FALSE, FALSE)
           /\ UNCHANGED <<file, pc, job>> /\ Rec(<<by, g, "ok">>)
      ELSE /\ file' = IF RemoveFirst THEN [file EXCEPT !["mem"] = None] ELSE file
           /\ pc' = 1 /\ job' = [g |-> g, del |-> del, by |-> by]
           /\ UNCHANGED poss /\ hist' = hist

(* an unfinished memory sector opens only if its header was written first *)
Part(p, whole) == [file EXCEPT ![p] = [g |-> job.g, whole |-> whole, ok |-> whole \/ p # "mem" \/ ~HeaderLast]]

Finish(fault, succeeded) ==
   /\ pc' = 0 /\ job' = NoJob
   /\ poss' = BuildAfter(poss, job.g, job.del, fault, FALSE, succeeded)
   /\ Rec(<<job.by, job.g, IF ~fault THEN "ok" ELSE "stopped">>)

Write ==                                   \* part written completely
   /\ pc > 0 /\ pc <= Len(Order)
   /\ file' = Part(Order[pc], TRUE)
   /\ pc' = pc + 1 /\ UNCHANGED <<job, poss, hist>>

Stop ==                                    \* killed or failed while writing a part
   /\ pc > 0 /\ pc <= Len(Order)
   /\ \E touched \in BOOLEAN :
        file' = IF ~touched THEN file ELSE Part(Order[pc], FALSE)
   /\ Finish(TRUE, FALSE)

Done == pc = Len(Order) + 1 /\ UNCHANGED file /\ Finish(FALSE, TRUE)

Damage ==
   /\ pc = 0 /\ Len(hist) < Depth /\ Valid
   /\ \E p \in Parts :
        /\ file' = [file EXCEPT ![p] = IF p = "mem" THEN [@ EXCEPT !.ok = FALSE] ELSE None]
        /\ Rec(<<"damage", p, "ok">>)
   /\ poss' = {Debris}
   /\ UNCHANGED <<pc, job>>

Serve ==
   /\ pc = 0 /\ Len(hist) < Depth
   /\ poss' = IF Valid THEN {o \in poss : o \notin Nothing} ELSE {o \in poss : o \in Nothing}
   /\ Rec(<<"load", "", "ok">>)
   /\ UNCHANGED <<file, pc, job>>

Next == Write \/ Stop \/ Done \/ Damage \/ Serve
        \/ \E g \in Gens, by \in {"index", "serve", "servef"} : Start(g, by)
Spec == Init /\ [][Next]_vars

(* what is served is complete *)
ServedIsComplete == pc = 0 /\ Valid => Consistent
(* the directory holds one of the things the outside view allows *)
Abstraction == pc = 0 => (IF Valid THEN file["mem"].g \in poss ELSE poss \cap Nothing # {})
(* an index, once complete, stays until deletion or damage *)
Kept == [][ (pc = 0 /\ Valid /\ pc' # 0) => job'.del ]_vars

EmitHist == (Emit /\ pc = 0 /\ Len(hist) = Depth) => PrintT("GEN " \o ToJson(hist))
=============================================================================
