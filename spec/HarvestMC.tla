----------------------------- MODULE HarvestMC -----------------------------
(***************************************************************************)
(* Every harvest stream over a small alphabet of XML events, up to N       *)
(* events.  At every point of every stream, what the ingestion machine has *)
(* produced must equal what the stream means, said without a machine       *)
(* (Meaning below, on positions in the stream).                            *)
(* Each maximal stream is printed; the driver writes it to a file and has  *)
(* the real loader read it.                                                *)
(***************************************************************************)
EXTENDS Harvest, Json, Randomization

CONSTANTS N, Names, EmitAll

VARIABLES h, hist, open
vars == <<h, hist, open>>

At(n, url, id) == (IF url # "" THEN ("url" :> url) ELSE EmptyEnv) @@ (IF id # "" THEN ("mws:data_id" :> id) ELSE EmptyEnv)

(* names of the alphabet are abbreviations of start tags *)
Tag == [H  |-> [e |-> "S", n |-> "mws:harvest", a |-> EmptyEnv, al |-> << >>],
        E1 |-> [e |-> "S", n |-> "mws:expr", a |-> At("", "u", "d"), al |-> <<"mws:data_id=d", "url=u">>],
        E2 |-> [e |-> "S", n |-> "mws:expr", a |-> At("", "v", ""), al |-> <<"url=v">>],
        E3 |-> [e |-> "S", n |-> "mws:expr", a |-> At("", "", "e"), al |-> <<"mws:data_id=e">>],
        D1 |-> [e |-> "S", n |-> "mws:data", a |-> At("", "", "d"), al |-> <<"mws:data_id=d">>],
        D2 |-> [e |-> "S", n |-> "mws:data", a |-> EmptyEnv, al |-> << >>],
        D3 |-> [e |-> "S", n |-> "mws:data", a |-> At("", "", "e"), al |-> <<"mws:data_id=e">>],
        F  |-> [e |-> "S", n |-> "foo", a |-> EmptyEnv, al |-> << >>]]

Init == h = HInit /\ hist = << >> /\ open = << >>

Do(ev) == h' = HStep(h, ev, TRUE) /\ hist' = Append(hist, ev)

Going == Len(hist) < N /\ ~h.dead /\ (hist = << >> \/ open # << >>)

Open(n)  == Going /\ Len(hist) + 1 < N /\ Do(Tag[n]) /\ open' = Append(open, n)
Close    == Going /\ open # << >> /\ Do([e |-> "E"]) /\ open' = SubSeq(open, 1, Len(open) - 1)
Text     == Going /\ open # << >> /\ hist[Len(hist)].e # "T" /\ Do([e |-> "T", x |-> "t"]) /\ UNCHANGED open
Error    == Going /\ open # << >> /\ Do([e |-> "X"]) /\ UNCHANGED open

First == hist = << >> /\ (Open("H") \/ Open("F"))
Next == First \/ (hist # << >> /\ ((\E n \in Names : Open(n)) \/ Close \/ Text \/ Error))
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* The meaning of a stream, by positions. *)
Starts == {i \in 1..Len(hist) : hist[i].e = "S"}
(* matching end of the start at i (0: none) *)
Bal(i, j) == Cardinality({k \in i..j : hist[k].e = "S"}) - Cardinality({k \in i..j : hist[k].e = "E"})
EndOf(i) == LET C == {j \in (i + 1)..Len(hist) : hist[j].e = "E" /\ Bal(i, j) = 0} IN
            IF C = {} THEN 0 ELSE CHOOSE j \in C : \A k \in C : j <= k
Inside(i, j) == j \in Starts /\ j < i /\ (EndOf(j) = 0 \/ EndOf(j) > i)
Depth(i) == Cardinality({j \in Starts : Inside(i, j)})
Anc(i, k) == CHOOSE j \in Starts : Inside(i, j) /\ Depth(j) = k     \* k-th ancestor from the root (0: root)
Is(i, n) == hist[i].n = n
DataId(i) == Attr(hist[i], "mws:data_id")

TopExpr(i) == Is(i, "mws:expr") /\ Depth(i) = 1 /\ Is(Anc(i, 0), "mws:harvest")
TopData(i) == Is(i, "mws:data") /\ Depth(i) = 1 /\ Is(Anc(i, 0), "mws:harvest") /\ DataId(i) # "" /\ EndOf(i) # 0
RootTerm(i) == Depth(i) = 2 /\ TopExpr(Anc(i, 1)) /\ EndOf(i) # 0

SetToSortedSeq(S) == SortSeq(SetToSeq(S), <)

TokensBetween(i, j) ==
   FoldLeft(LAMBDA acc, k : CASE hist[k].e = "S" -> acc \o DataStart(hist[k])
                              [] hist[k].e = "E" -> Append(acc, "E")
                              [] OTHER -> AppendText(acc, hist[k].x),
            << >>, [k \in 1..(j - i - 1) |-> i + k])

DataFor(i, id) == LET C == {j \in Starts : j < i /\ TopData(j) /\ EndOf(j) < i /\ DataId(j) = id} IN
                  IF id = "" \/ C = {} THEN NoData
                  ELSE LET j == CHOOSE j \in C : \A k \in C : k <= j IN TokensBetween(j, EndOf(j))

RECURSIVE TermAt(_)
TermAt(i) ==
   LET ks == SetToSortedSeq({k \in Starts : k > i /\ k < EndOf(i) /\ Depth(k) = Depth(i) + 1})
       tx == {k \in i..EndOf(i) : hist[k].e = "T" /\ Cardinality({j \in Starts : j <= k /\ (EndOf(j) = 0 \/ EndOf(j) > k)}) = Depth(i) + 1}
   IN [t |-> hist[i].n, a |-> hist[i].a,
       x |-> FoldLeft(LAMBDA acc, k : acc \o hist[k].x, "", SetToSortedSeq(tx)),
       k |-> [j \in 1..Len(ks) |-> TermAt(ks[j])]]

Meaning ==
   LET rs == SetToSortedSeq({i \in Starts : RootTerm(i)})
   IN [k \in 1..Len(rs) |-> LET x == Anc(rs[k], 1) IN
         [url |-> Attr(hist[x], "url"), d |-> DataFor(x, DataId(x)), term |-> TermAt(rs[k])]]

MachineMeansStream == h.out = Meaning
NothingAfterError  == h.dead => hist[Len(hist)].e = "X"

(* only streams that reach math are worth replaying, plus a few others *)
Terminal == ~Going
Emit == (Terminal /\ (EmitAll \/ h.out # << >>)) => PrintT("GEN " \o ToJson(hist))
=============================================================================
