----------------------------- MODULE CapacityMC -----------------------------
(***************************************************************************)
(* Numbers given to the tokens of a question.  Named variables, anonymous  *)
(* ones, ranges and constants each have a zone of numbers, Z wide but for  *)
(* the constants; the numbers of names begin one late.  A question with    *)
(* more of a kind than its zone holds must be refused, because its number  *)
(* would be read as a token of another kind.                               *)
(*                                                                         *)
(* Checked for every sequence of at most L tokens: what is accepted reads  *)
(* back as what was written - each token of its kind, two alike exactly if *)
(* they were the same name or constant - and it is accepted exactly if it  *)
(* is within the capacities stated in Index.tla, scaled to the zone.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Z, L, Wrong
VARIABLES given, pos, ids, names, anon, ranges, consts, refused
vars == <<given, pos, ids, names, anon, ranges, consts, refused>>

NameSet == {"x", "y", "z"}
ConstSet == {"k", "l"}
Tok(s, m) == [s |-> s, m |-> m]
Toks == {Tok("v", n) : n \in NameSet} \cup {Tok("c", n) : n \in ConstSet} \cup {Tok("w", ""), Tok("r", "")}
FirstNamed == 1
FirstAnon == Z + 1
FirstRange == 2 * Z + 1
FirstConst == 3 * Z + 1
MaxNamed == Z - 1
MaxAnon == Z
MaxRange == Z

Init == /\ given \in UNION {[1..n -> Toks] : n \in 0..L}
        /\ pos = 1 /\ ids = << >> /\ names = << >> /\ anon = 0 /\ ranges = 0 /\ consts = << >> /\ refused = FALSE
Known(s, m) == {i \in 1..Len(s) : s[i] = m}
Put(s, m) == IF Known(s, m) = {} THEN Append(s, m) ELSE s
Rank(s, m) == CHOOSE i \in Known(s, m) : TRUE
More(w) == IF Wrong = w THEN 1 ELSE 0
Cur == given[pos]
Go == pos <= Len(given)
Named == /\ Go /\ Cur.s = "v"
         /\ names' = Put(names, Cur.m)
         /\ ids' = Append(ids, FirstNamed + Rank(names', Cur.m))
         /\ refused' = (refused \/ Rank(names', Cur.m) > MaxNamed + More("named"))
         /\ pos' = pos + 1 /\ UNCHANGED <<given, anon, ranges, consts>>
Anon == /\ Go /\ Cur.s = "w"
        /\ ids' = Append(ids, FirstAnon + anon)
        /\ anon' = anon + 1
        /\ refused' = (refused \/ anon' > MaxAnon + More("anonymous"))
        /\ pos' = pos + 1 /\ UNCHANGED <<given, names, ranges, consts>>
Range == /\ Go /\ Cur.s = "r"
         /\ ids' = Append(ids, FirstRange + ranges)
         /\ ranges' = ranges + 1
         /\ refused' = (refused \/ ranges' > MaxRange + More("ranges"))
         /\ pos' = pos + 1 /\ UNCHANGED <<given, names, anon, consts>>
Constant_ == /\ Go /\ Cur.s = "c"
             /\ consts' = Put(consts, Cur.m)
             /\ ids' = Append(ids, FirstConst + Rank(consts', Cur.m))
             /\ pos' = pos + 1 /\ UNCHANGED <<given, names, anon, ranges, refused>>
Next == Named \/ Anon \/ Range \/ Constant_
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Done == pos > Len(given)
KindOf(id) == CASE id < FirstAnon -> "v" [] id < FirstRange -> "w" [] id < FirstConst -> "r" [] OTHER -> "c"
Same(i, j) == given[i] = given[j] /\ given[i].s \in {"v", "c"}
ReadsBack == (Done /\ ~refused) => \A i \in 1..Len(given) :
                /\ KindOf(ids[i]) = given[i].s
                /\ \A j \in 1..Len(given) : i # j => ((ids[i] = ids[j]) <=> Same(i, j))
OfKind(s) == {i \in 1..Len(given) : given[i].s = s}
Within == /\ Cardinality({given[i].m : i \in OfKind("v")}) <= MaxNamed
          /\ Cardinality(OfKind("w")) <= MaxAnon /\ Cardinality(OfKind("r")) <= MaxRange
JustBeyond == Done => (refused <=> ~Within)
=============================================================================
