----------------------------- MODULE DocsTrace -----------------------------
(***************************************************************************)
(* Recorded conversions of documents against the specification.            *)
(***************************************************************************)
EXTENDS Docs, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1 /\ TLCSet(1, 0)
ev == Trace[l]

Reject(what, expected) ==
   /\ PrintT("REJECT " \o ToString(l) \o " " \o what)
   /\ PrintT(expected)
   /\ TLCSet(1, TLCGet(1) + 1)
Verify(checks) ==
   LET bad == SelectSeq(checks, LAMBDA c : ~c[2]) IN
   IF bad = << >> THEN TRUE ELSE Reject(bad[1][1], bad[1][3])

At(sq, i) == IF i <= Len(sq) THEN sq[i] ELSE << >>
FirstDifference(a, b) ==
   LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
       d == {i \in 1..n : i > Len(a) \/ i > Len(b) \/ (i <= Len(a) /\ i <= Len(b) /\ a[i] # b[i])}
   IN IF d = {} THEN << >> ELSE LET i == CHOOSE i \in d : \A j \in d : i <= j IN <<i, At(b, i)>>

SameItem(a, b) == a.i = b.i /\ a = b
SameItems(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameItem(a[i], b[i])

Convert ==
   /\ ev.e = "Convert"
   /\ LET cfg == ConfigOf(ev.opts)
          items == [i \in 1..Len(ev.items) |-> TidyItem(ev.items[i])]
          want == HarvestOf(cfg, ev.docs)
          got  == SelectSeq(items, LAMBDA it : ~OfAny(cfg, ev.docs, it))
          anydata == SelectSeq(items, LAMBDA it : OfAny(cfg, ev.docs, it) /\ it.i = "data")
      IN Verify(<< <<"exit code", ev.rc = 0, 0>>,
                   <<"one harvest is written", ev.files = 1, 1>>,
                   <<"the harvest is well formed", ev.bad = "", "">>,
                   <<"number of items", Len(got) = Len(want), [i \in 1..Len(want) |-> want[i].i]>>,
                   <<"items", SameItems(got, want), IF Len(got) = Len(want) THEN FirstDifference(got, want) ELSE << >> >>,
                   <<"data without data", cfg.data \/ \A i \in 1..Len(items) : items[i].i = "expr", "">>,
                   <<"one data element per document",
                     \A i, j \in 1..Len(anydata) : i # j => anydata[i].did # anydata[j].did, "">> >>)

Forget == ev.e = "Forget"
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Convert \/ Forget)
Spec == Init /\ [][Next]_l
Complete == /\ TLCGet("stats").diameter - 1 = Len(Trace)
            /\ PrintT("ACCEPTED-LENGTH " \o ToString(Len(Trace)) \o " REJECTS " \o ToString(TLCGet(1)))
=============================================================================
