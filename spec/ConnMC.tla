------------------------------ MODULE ConnMC ------------------------------
(***************************************************************************)
(* The connections of the server and the upload buffers behind them.  Each *)
(* connection carries one request: a method and a body in fragments.  The  *)
(* library calls the handler once when the head has arrived, once per      *)
(* fragment, once when the body is complete; a client may go away at any   *)
(* point.  What is sent back may depend on the method and on the bytes of  *)
(* that body alone.                                                        *)
(*                                                                         *)
(* Buffers: "own" - allocated when the head arrives, as the program does;  *)
(* "shared" - one for all; "kept" - one per slot, not emptied when a       *)
(* client goes away.  The last two are wrong and TLC must say so.          *)
(* Finished schedules are printed; the driver plays them on real sockets.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Conns, Frags, Buffers, Emit

VARIABLES st,      \* connection -> "new", "open", "body", "done", "gone"
          sent,    \* connection -> number of fragments sent
          buf,     \* buffer -> fragments received, as <<connection, k>>
          resp,    \* connection -> the bytes the response was computed from
          slot,    \* connection -> buffer ("none" before the head)
          hist
vars == <<st, sent, buf, resp, slot, hist>>

Slots == {"b1", "b2", "b3"}
Init == /\ st = [c \in Conns |-> "new"] /\ sent = [c \in Conns |-> 0]
        /\ buf = [s \in Slots |-> << >>] /\ resp = [c \in Conns |-> << >>]
        /\ slot = [c \in Conns |-> "none"] /\ hist = << >>

Log(c, a) == hist' = Append(hist, <<c, a>>)
InUse == {slot[c] : c \in {d \in Conns : st[d] = "body"}}

Arrive(c) == /\ st[c] = "new" /\ st' = [st EXCEPT ![c] = "body"] /\ Log(c, "head")
           /\ LET s == IF Buffers = "shared" THEN "b1" ELSE CHOOSE x \in Slots : x \notin InUse
              IN /\ slot' = [slot EXCEPT ![c] = s]
                 /\ buf' = IF Buffers = "own" THEN [buf EXCEPT ![s] = << >>] ELSE buf
           /\ UNCHANGED <<sent, resp>>
Fragment(c) == /\ st[c] = "body" /\ sent[c] < Frags
               /\ sent' = [sent EXCEPT ![c] = @ + 1] /\ Log(c, "frag")
               /\ buf' = [buf EXCEPT ![slot[c]] = Append(@, <<c, sent[c] + 1>>)]
               /\ UNCHANGED <<st, resp, slot>>
Finish(c) == /\ st[c] = "body" /\ sent[c] = Frags
             /\ st' = [st EXCEPT ![c] = "done"] /\ resp' = [resp EXCEPT ![c] = buf[slot[c]]]
             /\ buf' = [buf EXCEPT ![slot[c]] = << >>]
             /\ Log(c, "finish") /\ UNCHANGED <<sent, slot>>
Abort(c) == /\ st[c] \in {"new", "body"} /\ st' = [st EXCEPT ![c] = "gone"] /\ Log(c, "abort")
            /\ UNCHANGED <<sent, buf, resp, slot>>
Next == \E c \in Conns : Arrive(c) \/ Fragment(c) \/ Finish(c) \/ Abort(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Own(c) == [k \in 1..Frags |-> <<c, k>>]
AnsweredByOwnBody == \A c \in Conns : st[c] = "done" => resp[c] = Own(c)
EverybodyAnswered == <>(\A c \in Conns : st[c] \in {"done", "gone"})
Over == \A c \in Conns : st[c] \in {"done", "gone"}
EmitSchedule == (Emit /\ Over) => PrintT("GEN " \o ToJson(hist))
=============================================================================
