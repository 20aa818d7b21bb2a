----------------------------- MODULE HandlerMC -----------------------------
(***************************************************************************)
(* What one request does inside the server, interleaved with the others:   *)
(* read the query, encode it (numbering its variables as they appear),     *)
(* search page by page with a cursor over the index, write the answer.     *)
(* The dictionary and the trie are shared and only read.  Everything else  *)
(* - the query read, the variable numbers, the cursor, the output - has to *)
(* belong to the request; Shared names what is (wrongly) one for all.      *)
(* A request is a sequence of variable names; the abstract answer is the   *)
(* list of its first occurrences, in order.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Reqs, Body, Shared      \* Body: request -> sequence of names

Parts == {"query", "names", "cursor", "output"}
VARIABLES pc, mem
vars == <<pc, mem>>

Slot(part, r) == IF part \in Shared THEN "all" ELSE r
Get(part, r) == mem[part][Slot(part, r)]

Init == /\ pc = [r \in Reqs |-> "read"]
        /\ mem = [p \in Parts |-> [s \in Reqs \cup {"all"} |-> IF p = "cursor" THEN 0 ELSE << >>]]

Put(part, r, v) == [mem EXCEPT ![part][Slot(part, r)] = v]
Go(r, to) == pc' = [pc EXCEPT ![r] = to]

Read(r) == pc[r] = "read" /\ mem' = Put("query", r, Body[r]) /\ Go(r, "clear")
Clear(r) == /\ pc[r] = "clear"
            /\ mem' = [p \in Parts |-> IF p = "query" THEN mem[p] ELSE
                         [mem[p] EXCEPT ![Slot(p, r)] = IF p = "cursor" THEN 0 ELSE << >>]]
            /\ Go(r, "encode")
Mentioned(sq, x) == \E i \in 1..Len(sq) : sq[i] = x
Encode(r) ==
   /\ pc[r] = "encode"
   /\ LET c == Get("cursor", r)  q == Get("query", r)  n == Get("names", r) IN
      IF c >= Len(q) THEN mem' = Put("cursor", r, 0) /\ Go(r, "write")
      ELSE /\ mem' = [mem EXCEPT !["cursor"][Slot("cursor", r)] = c + 1,
                                 !["names"][Slot("names", r)] = IF Mentioned(n, q[c + 1]) THEN n ELSE Append(n, q[c + 1])]
           /\ UNCHANGED pc
Write(r) ==
   /\ pc[r] = "write"
   /\ LET c == Get("cursor", r)  n == Get("names", r) IN
      IF c >= Len(n) THEN Go(r, "done") /\ UNCHANGED mem
      ELSE /\ mem' = [mem EXCEPT !["cursor"][Slot("cursor", r)] = c + 1,
                                 !["output"][Slot("output", r)] = Append(@, n[c + 1])]
           /\ UNCHANGED pc
Next == \E r \in Reqs : Read(r) \/ Clear(r) \/ Encode(r) \/ Write(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE Firsts(_, _)
Firsts(q, acc) == IF q = << >> THEN acc
                  ELSE Firsts(Tail(q), IF Mentioned(acc, q[1]) THEN acc ELSE Append(acc, q[1]))
(* what the client is sent is what the output holds when the request is done *)
Sent(r) == Get("output", r)
AsIfAlone == [][\A r \in Reqs : (pc[r] # "done" /\ pc'[r] = "done") => Sent(r)' = Firsts(Body[r], << >>)]_vars
Answered == <>(\A r \in Reqs : pc[r] = "done")

Bodies2 == [r \in Reqs |-> CASE r = "r1" -> <<"x", "y", "x">> [] r = "r2" -> <<"y", "z">> [] OTHER -> <<"z">>]
=============================================================================
