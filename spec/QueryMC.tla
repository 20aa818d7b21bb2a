------------------------------ MODULE QueryMC ------------------------------
(***************************************************************************)
(* Every query document over a small alphabet of XML events, up to N       *)
(* events: the reading machine against the meaning by positions.  Complete *)
(* documents are printed; the driver posts them to the real server.        *)
(***************************************************************************)
EXTENDS Query, Json

CONSTANTS N, Tags

VARIABLES h, hist, open
vars == <<h, hist, open>>

Tag == [Q  |-> [e |-> "S", n |-> "mws:query", a |-> EmptyEnv],
        R  |-> [e |-> "S", n |-> "mws:expr", a |-> EmptyEnv],
        A  |-> [e |-> "S", n |-> "ci", a |-> EmptyEnv],
        V  |-> [e |-> "S", n |-> "mws:qvar", a |-> EmptyEnv],
        F  |-> [e |-> "S", n |-> "foo", a |-> EmptyEnv]]

Init == h = QInit /\ hist = << >> /\ open = << >>
Do(ev) == h' = QStep(h, ev) /\ hist' = Append(hist, ev)
Whole == hist # << >> /\ (open = << >> \/ h.dead)
Going == ~Whole /\ Len(hist) < N
Room(k) == Len(hist) + k + Len(open) < N
Open(n)  == Going /\ Room(1) /\ Do(Tag[n]) /\ open' = Append(open, n)
Close    == Going /\ open # << >> /\ Do([e |-> "E"]) /\ open' = SubSeq(open, 1, Len(open) - 1)
Text     == Going /\ Room(0) /\ open # << >> /\ hist[Len(hist)].e # "T" /\ Do([e |-> "T", x |-> "x"]) /\ UNCHANGED open
Error    == Going /\ open # << >> /\ Do([e |-> "X"]) /\ UNCHANGED open
Next == (hist = << >> /\ (Open("Q") \/ Open("F") \/ Open("R"))) \/ (hist # << >> /\ ((\E n \in Tags : Open(n)) \/ Close \/ Text \/ Error))
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Starts == {i \in 1..Len(hist) : hist[i].e = "S"}
Bal(i, j) == Cardinality({k \in i..j : hist[k].e = "S"}) - Cardinality({k \in i..j : hist[k].e = "E"})
EndOf(i) == LET C == {j \in (i + 1)..Len(hist) : hist[j].e = "E" /\ Bal(i, j) = 0} IN
            IF C = {} THEN 0 ELSE CHOOSE j \in C : \A k \in C : j <= k
Inside(i, j) == j \in Starts /\ j < i /\ (EndOf(j) = 0 \/ EndOf(j) > i)
Depth(i) == Cardinality({j \in Starts : Inside(i, j)})
Anc(i, k) == CHOOSE j \in Starts : Inside(i, j) /\ Depth(j) = k
RootTerm(i) == Depth(i) = 2 /\ hist[Anc(i, 0)].n = "mws:query" /\ hist[Anc(i, 1)].n = "mws:expr" /\ EndOf(i) # 0
Sorted(S) == SortSeq(SetToSeq(S), <)
RECURSIVE TermAt(_)
TermAt(i) ==
   LET ks == Sorted({k \in Starts : k > i /\ k < EndOf(i) /\ Depth(k) = Depth(i) + 1})
       tx == {k \in i..EndOf(i) : hist[k].e = "T" /\ Cardinality({j \in Starts : j <= k /\ (EndOf(j) = 0 \/ EndOf(j) > k)}) = Depth(i) + 1}
   IN [t |-> hist[i].n, a |-> hist[i].a, x |-> FoldLeft(LAMBDA acc, k : acc \o hist[k].x, "", Sorted(tx)),
       k |-> [j \in 1..Len(ks) |-> TermAt(ks[j])]]
MachineMeansDocument == h.terms = [k \in 1..Cardinality({i \in Starts : RootTerm(i)}) |-> TermAt(Sorted({i \in Starts : RootTerm(i)})[k])]
Emit == Whole => PrintT("GEN " \o ToJson(hist))
=============================================================================
