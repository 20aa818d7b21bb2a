------------------------------- MODULE Terms -------------------------------
(***************************************************************************)
(* Content-MathML terms as MathWebSearch sees them.                        *)
(*                                                                         *)
(* A RAW token is what stands in an XML file or a query:                   *)
(*    [t |-> element name, a |-> attributes, x |-> text, k |-> children]   *)
(* A NORMAL term is what searching is defined on:                          *)
(*    [s |-> sort, m |-> meaning, c |-> children]                          *)
(* with sort "c" (constant), "v" (named variable), "w" (anonymous          *)
(* variable) or "r" (range).  Normalisation strips an "m:" prefix and all  *)
(* white space, forgets attributes and forgets the text of mtext.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

CONSTANT NoBound     \* stands for an absent / unreadable range bound

White == {" ", "\t", "\n", "\r", "\f"}
Digits == {"0","1","2","3","4","5","6","7","8","9"}
DigitVal == [d \in Digits |->
   CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3
     [] d = "4" -> 4 [] d = "5" -> 5 [] d = "6" -> 6 [] d = "7" -> 7
     [] d = "8" -> 8 [] d = "9" -> 9]

Ch(str, i) == SubSeq(str, i, i)

RECURSIVE StripFrom(_, _)
StripFrom(str, i) ==
   IF i > Len(str) THEN ""
   ELSE (IF Ch(str, i) \in White THEN "" ELSE Ch(str, i)) \o StripFrom(str, i + 1)
Strip(str) ==
   IF \E i \in 1..Len(str) : Ch(str, i) \in White THEN StripFrom(str, 1) ELSE str

StripPrefix(tag) ==
   IF Len(tag) >= 2 /\ SubSeq(tag, 1, 2) = "m:" THEN SubSeq(tag, 3, Len(tag)) ELSE tag

QvarTag  == "mws:qvar"
RangeTag == "mws:range"

HasAttr(r, n) == n \in DOMAIN r.a

VarName(r) == IF HasAttr(r, "name") THEN r.a["name"] ELSE Strip(r.x)

(***************************************************************************)
(* Decimal numbers, in thousandths.  Num(str) is [ok, v]: an optional      *)
(* sign, digits, optionally a point and up to three more digits.  What is  *)
(* written any other way is not a number of this model (the drivers only   *)
(* use numbers of this shape and texts that are plainly not numbers).      *)
(***************************************************************************)
RECURSIVE DigitRun(_, _)        \* length of the digit run starting at i
DigitRun(str, i) == IF i <= Len(str) /\ Ch(str, i) \in Digits THEN 1 + DigitRun(str, i + 1) ELSE 0

RECURSIVE DigitsVal(_, _, _)    \* value of n digits starting at i
DigitsVal(str, i, n) == IF n = 0 THEN 0 ELSE DigitsVal(str, i, n - 1) * 10 + DigitVal[Ch(str, i + n - 1)]

Pow10 == <<1000, 100, 10, 1>>
NotNum == [ok |-> FALSE, v |-> 0]
Num(str) ==
   LET neg == Len(str) > 0 /\ Ch(str, 1) = "-"
       b   == IF Len(str) > 0 /\ Ch(str, 1) \in {"-", "+"} THEN 2 ELSE 1
       n   == DigitRun(str, b)
       dot == b + n <= Len(str) /\ Ch(str, b + n) = "."
       f   == IF dot THEN DigitRun(str, b + n + 1) ELSE 0
       end == b + n + (IF dot THEN 1 + f ELSE 0)
       abs == DigitsVal(str, b, n) * 1000 + DigitsVal(str, b + n + 1, f) * Pow10[f + 1]
   IN IF n = 0 \/ f > 3 \/ n > 6 \/ end # Len(str) + 1 THEN NotNum
      ELSE [ok |-> TRUE, v |-> IF neg THEN -abs ELSE abs]

Bound(r, n) ==
   IF HasAttr(r, n) /\ Num(r.a[n]).ok THEN Num(r.a[n]).v ELSE NoBound

(***************************************************************************)
(* Normalisation                                                           *)
(***************************************************************************)
(* A deep token may be given flat: [flat |-> tokens in pre-order], each     *)
(* with its number of children, n, instead of the children.                *)
Unflatten(fl) ==
   FoldRight(LAMBDA tk, st : <<[t |-> tk.t, a |-> tk.a, x |-> tk.x, k |-> SubSeq(st, 1, tk.n)]>>
                             \o SubSeq(st, tk.n + 1, Len(st)),
             fl, << >>)[1]
RawOf(r) == IF "flat" \in DOMAIN r THEN Unflatten(r.flat) ELSE r

RECURSIVE NormRaw(_)
NormRaw(r) ==
   LET tag == StripPrefix(r.t) IN
   CASE tag = QvarTag  -> LET n == VarName(r) IN
                          [s |-> IF n = "" THEN "w" ELSE "v", m |-> n, lo |-> 0, hi |-> 0, c |-> << >>]
     [] tag = RangeTag -> [s |-> "r", m |-> "", lo |-> Bound(r, "low"), hi |-> Bound(r, "high"), c |-> << >>]
     [] OTHER ->          [s |-> "c",
                           m |-> tag \o "#" \o (IF tag = "mtext" THEN "" ELSE Strip(r.x)),
                           lo |-> 0, hi |-> 0,
                           c |-> [i \in 1..Len(r.k) |-> NormRaw(r.k[i])]]
Norm(r) == NormRaw(RawOf(r))

RECURSIVE TermSize(_)
TermSize(n) ==
   LET RECURSIVE Sum(_)
       Sum(i) == IF i = 0 THEN 0 ELSE TermSize(n.c[i]) + Sum(i - 1)
   IN 1 + Sum(Len(n.c))

RECURSIVE TermDepth(_)
TermDepth(n) ==
   LET RECURSIVE Mx(_)
       Mx(i) == IF i = 0 THEN 0
                ELSE LET d == TermDepth(n.c[i]) + 1 IN LET r == Mx(i - 1) IN IF d > r THEN d ELSE r
   IN Mx(Len(n.c))

(***************************************************************************)
(* Positions.  The path of a child extends the parent's path by its        *)
(* 1-based child number; the root of an expression has path "/*[1]".       *)
(***************************************************************************)
RootPath == "/*[1]"
Step(i) == "/*[" \o ToString(i) \o "]"

(* pre-order sequence of <<path, subterm>> *)
RECURSIVE PreOrder(_, _)
PreOrder(n, path) ==
   LET RECURSIVE Kids(_)
       Kids(i) == IF i > Len(n.c) THEN << >>
                  ELSE PreOrder(n.c[i], path \o Step(i)) \o Kids(i + 1)
   IN << <<path, n>> >> \o Kids(1)

(* the occurrences that count: the first one of each distinct subterm *)
FirstOccurrences(n) ==
   LET po == PreOrder(n, RootPath)
       First(i) == \A j \in 1..(i - 1) : po[j][2] # po[i][2]
   IN SelectSeq([i \in 1..Len(po) |-> <<po[i][1], po[i][2], First(i)>>], LAMBDA e : e[3])

(* named variables of a query in document order, with their paths relative *)
(* to the root of the query                                                *)
VarOccurrences(q) ==
   LET po == PreOrder(q, "") IN
   LET vs == SelectSeq(po, LAMBDA e : e[2].s = "v") IN
   [i \in 1..Len(vs) |-> [name |-> vs[i][2].m, xpath |-> vs[i][1]]]

(***************************************************************************)
(* Matching: q matches s iff some substitution of terms for variables (and *)
(* numbers for ranges) turns q into s.                                     *)
(***************************************************************************)
EmptyEnv == [x \in {} |-> 0]
NoMatch  == [ok |-> FALSE, e |-> EmptyEnv]

CnPrefix == "cn#"
IsNumeral(s) == /\ s.s = "c" /\ s.c = << >> /\ Len(s.m) > 3 /\ SubSeq(s.m, 1, 3) = CnPrefix
                /\ Num(SubSeq(s.m, 4, Len(s.m))).ok
NumeralValue(s) == Num(SubSeq(s.m, 4, Len(s.m))).v
InRange(q, s) == /\ IsNumeral(s)
                 /\ q.lo = NoBound \/ q.lo <= NumeralValue(s)
                 /\ q.hi = NoBound \/ NumeralValue(s) <= q.hi

RECURSIVE MatchIn(_, _, _)
MatchIn(q, s, env) ==
   CASE q.s = "w" -> [ok |-> TRUE, e |-> env]
     [] q.s = "v" -> IF q.m \in DOMAIN env
                     THEN IF env[q.m] = s THEN [ok |-> TRUE, e |-> env] ELSE NoMatch
                     ELSE [ok |-> TRUE, e |-> (q.m :> s) @@ env]
     [] q.s = "r" -> IF InRange(q, s) THEN [ok |-> TRUE, e |-> env] ELSE NoMatch
     [] OTHER ->
          IF q.m # s.m \/ Len(q.c) # Len(s.c) THEN NoMatch
          ELSE LET RECURSIVE All(_, _)
                   All(i, en) == IF i > Len(q.c) THEN [ok |-> TRUE, e |-> en]
                                 ELSE LET r == MatchIn(q.c[i], s.c[i], en)
                                      IN IF r.ok THEN All(i + 1, r.e) ELSE NoMatch
               IN All(1, env)
Matches(q, s) == MatchIn(q, s, EmptyEnv).ok

(***************************************************************************)
(* Identifier renaming.  Canon(n) replaces each renameable identifier by   *)
(* "~k", k being the rank of its first occurrence in pre-order.  An        *)
(* identifier (ci) is renameable if its text has at most one character and *)
(* it is not the operator (first child) of an apply.                       *)
(***************************************************************************)
IsApply(n)      == n.s = "c" /\ Len(n.m) >= 6 /\ SubSeq(n.m, 1, 6) = "apply#"
IsCi(n)         == n.s = "c" /\ Len(n.m) >= 3 /\ SubSeq(n.m, 1, 3) = "ci#"
Renameable(n, isOperator) == IsCi(n) /\ Len(n.m) <= 4 /\ ~isOperator

RECURSIVE CiMeanings(_, _)      \* renameable meanings in pre-order, with repetitions
CiMeanings(n, isOp) ==
   LET RECURSIVE Kids(_)
       Kids(i) == IF i > Len(n.c) THEN << >>
                  ELSE CiMeanings(n.c[i], IsApply(n) /\ i = 1) \o Kids(i + 1)
   IN (IF Renameable(n, isOp) THEN <<n.m>> ELSE << >>) \o Kids(1)

RECURSIVE Rename(_, _, _)
Rename(n, isOp, rank) ==
   [n EXCEPT !.m = IF Renameable(n, isOp) THEN "~" \o ToString(rank[n.m]) ELSE @,
             !.c = [i \in 1..Len(n.c) |-> Rename(n.c[i], IsApply(n) /\ i = 1, rank)]]

CanonAt(n, isOp) ==
   LET ms == CiMeanings(n, isOp)
       Fst == SelectSeq([i \in 1..Len(ms) |-> <<ms[i], \A j \in 1..(i-1) : ms[j] # ms[i]>>], LAMBDA e : e[2])
       rank == [m \in {ms[i] : i \in 1..Len(ms)} |-> CHOOSE i \in 1..Len(Fst) : Fst[i][1] = m]
   IN Rename(n, isOp, rank)
Canon(n) == CanonAt(n, FALSE)

(* With renaming, the subterms of a harvested expression are those of the   *)
(* renamed expression: an identifier is named by its rank in the whole      *)
(* expression, not in the subterm.                                          *)
FirstOccurrencesRen(n) == FirstOccurrences(Canon(n))
=============================================================================
