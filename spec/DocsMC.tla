------------------------------- MODULE DocsMC -------------------------------
(***************************************************************************)
(* The converter as it works - one walk over the text that numbers what it *)
(* meets, one walk over the formulae, document after document - followed   *)
(* by the ingestion of what it wrote (module Harvest), against what is     *)
(* meant: one entry per formula with identifier and content, linked to the *)
(* data of its own document and carrying the number that stands for its    *)
(* identifier in that document's text.                                     *)
(*                                                                         *)
(* A document is a balanced sequence of "w" (a word), "(" ")" (a region),  *)
(* "M1" "M2" (formula with that identifier and content), "N1" (identifier, *)
(* no content), "C" (content, no identifier); or it is missing.  The text  *)
(* is all of it, or its first region.                                      *)
(* Mode "get": formulae outside the text have no number and are lost;      *)
(* "count": formulae are numbered by counting; "hold": data of a document  *)
(* is linked by the number of documents converted so far instead.          *)
(***************************************************************************)
EXTENDS Harvest, Json
CONSTANTS MaxLen, MaxDocs, Mode, Emit

Alphabet == {"w", "(", ")", "M1", "M2", "N1", "C"}
Balance(s, i) == Cardinality({j \in 1..i : s[j] = "("}) - Cardinality({j \in 1..i : s[j] = ")"})
Balanced(s) == Balance(s, Len(s)) = 0 /\ \A i \in 1..Len(s) : Balance(s, i) >= 0
AllDocs == UNION {{s \in [1..n -> Alphabet] : Balanced(s)} : n \in 0..MaxLen}
Missing == <<"missing">>

VARIABLES docs, region, j, pos, ph, dict, txt, exprs, items, done
vars == <<docs, region, j, pos, ph, dict, txt, exprs, items, done>>

(* the stretch of the document that is the text *)
Start(s) == IF ~region THEN 1
            ELSE IF \E i \in 1..Len(s) : s[i] = "(" THEN 1 + (CHOOSE i \in 1..Len(s) : s[i] = "(" /\ \A k \in 1..(i - 1) : s[k] # "(")
            ELSE Len(s) + 1
Final(s) == IF ~region THEN Len(s)
           ELSE IF Start(s) > Len(s) THEN Len(s)
           ELSE (CHOOSE i \in Start(s)..Len(s) : Balance(s, i) = Balance(s, Start(s) - 1) - 1
                    /\ \A k \in Start(s)..(i - 1) : Balance(s, k) > Balance(s, Start(s) - 1) - 1) - 1

IdOf(x) == IF x \in {"M1", "N1"} THEN "1" ELSE IF x = "M2" THEN "2" ELSE ""
Formula(x) == x \in {"M1", "M2"}
Put(d, id) == IF \E i \in 1..Len(d) : d[i] = id THEN d ELSE Append(d, id)
Rank(d, id) == CHOOSE i \in 1..Len(d) : d[i] = id

Init == /\ docs \in UNION {[1..n -> AllDocs \cup {Missing}] : n \in 1..MaxDocs}
        /\ region \in BOOLEAN
        /\ j = 1 /\ pos = 0 /\ ph = "open" /\ dict = << >> /\ txt = "" /\ exprs = << >> /\ items = << >> /\ done = 0

Doc == docs[j]
Open == /\ ph = "open" /\ j <= Len(docs)
        /\ IF Doc = Missing THEN j' = j + 1 /\ UNCHANGED <<pos, ph, dict, txt>>
           ELSE ph' = "text" /\ pos' = Start(Doc) /\ dict' = << >> /\ txt' = "" /\ j' = j
        /\ exprs' = << >>
        /\ UNCHANGED <<docs, region, items, done>>
Text == /\ ph = "text" /\ pos <= Final(Doc)
        /\ LET x == Doc[pos] IN
           /\ dict' = IF IdOf(x) # "" THEN Put(dict, IdOf(x)) ELSE dict
           /\ txt' = CASE x = "w" -> txt \o " w" [] IdOf(x) # "" -> txt \o " math" \o ToString(Rank(dict', IdOf(x))) [] OTHER -> txt
        /\ pos' = pos + 1
        /\ UNCHANGED <<docs, region, j, ph, exprs, items, done>>
TextEnds == /\ ph = "text" /\ pos > Final(Doc) /\ ph' = "math" /\ pos' = 1
            /\ UNCHANGED <<docs, region, j, dict, txt, exprs, items, done>>
DidOf == IF Mode = "hold" THEN done ELSE j - 1
Math == /\ ph = "math" /\ pos <= Len(Doc)
        /\ LET x == Doc[pos]
               known == \E i \in 1..Len(dict) : dict[i] = IdOf(x)
               n == IF Mode = "count" THEN Len(exprs) + 1 ELSE Rank(dict', IdOf(x))
           IN IF ~Formula(x) \/ (Mode = "get" /\ ~known) THEN UNCHANGED <<dict, exprs>>
              ELSE dict' = Put(dict, IdOf(x)) /\ exprs' = Append(exprs, <<ToString(n), IdOf(x)>>)
        /\ pos' = pos + 1
        /\ UNCHANGED <<docs, region, j, ph, txt, items, done>>
Close == /\ ph = "math" /\ pos > Len(Doc)
         /\ items' = items \o << [i |-> "data", did |-> ToString(j - 1), text |-> ToString(j - 1) \o ":" \o txt] >>
                           \o [k \in 1..Len(exprs) |-> [i |-> "expr", did |-> ToString(DidOf), url |-> exprs[k][1], text |-> exprs[k][2]]]
         /\ ph' = "open" /\ j' = j + 1 /\ done' = done + 1
         /\ UNCHANGED <<docs, region, pos, dict, txt, exprs>>
Next == Open \/ Text \/ TextEnds \/ Math \/ Close
Spec == Init /\ [][Next]_vars
Finished == ph = "open" /\ j > Len(docs)

(* the harvest as the indexer reads it *)
NoAttr == [x \in {} |-> ""]
EventsOf(it) ==
   IF it.i = "data"
   THEN << [e |-> "S", n |-> "mws:data", a |-> ("mws:data_id" :> it.did), al |-> << >>], [e |-> "T", x |-> it.text], [e |-> "E"] >>
   ELSE << [e |-> "S", n |-> "mws:expr", a |-> ("mws:data_id" :> it.did) @@ ("url" :> it.url), al |-> << >>],
           [e |-> "S", n |-> "ci", a |-> NoAttr, al |-> << >>], [e |-> "T", x |-> it.text], [e |-> "E"], [e |-> "E"] >>
Stream == << [e |-> "S", n |-> "mws:harvest", a |-> NoAttr, al |-> << >>] >>
          \o FoldLeft(LAMBDA acc, it : acc \o EventsOf(it), << >>, items) \o << [e |-> "E"] >>
Entered == Ingest(Stream, TRUE)

(* what is meant, with no walk *)
Ids(s) == LET t == SelectSeq([i \in 1..Len(s) |-> IF Start(s) <= i /\ i <= Final(s) THEN IdOf(s[i]) ELSE ""], LAMBDA x : x # "")
              m == SelectSeq([i \in 1..Len(s) |-> IF Formula(s[i]) THEN IdOf(s[i]) ELSE ""], LAMBDA x : x # "")
          IN t \o m
NumberMeant(s, id) == LET q == Ids(s) IN
   LET f == CHOOSE i \in 1..Len(q) : q[i] = id /\ \A k \in 1..(i - 1) : q[k] # id IN Cardinality({q[k] : k \in 1..f})
Shown(s, k) == LET In(i) == Start(s) <= i /\ i <= Final(s)
                   parts == SelectSeq([i \in 1..Len(s) |-> CASE ~In(i) -> "" [] s[i] = "w" -> " w"
                                        [] IdOf(s[i]) # "" -> " math" \o ToString(NumberMeant(s, IdOf(s[i]))) [] OTHER -> ""], LAMBDA x : x # "")
               IN ToString(k - 1) \o ":" \o FoldLeft(LAMBDA a, b : a \o b, "", parts)
MeantOf(k) == IF docs[k] = Missing THEN << >>
              ELSE LET f == SelectSeq(docs[k], Formula) IN
                   [i \in 1..Len(f) |-> [url |-> ToString(NumberMeant(docs[k], IdOf(f[i]))), d |-> <<"T:" \o Shown(docs[k], k)>>,
                                         term |-> [t |-> "ci", a |-> NoAttr, x |-> IdOf(f[i]), k |-> << >>]]]
RECURSIVE MeantFrom(_)
MeantFrom(k) == IF k > Len(docs) THEN << >> ELSE MeantOf(k) \o MeantFrom(k + 1)

EntriesAsMeant == Finished => Entered = MeantFrom(1)
EmitDocs == (Emit /\ j = 1 /\ ph = "open" /\ pos = 0) => PrintT("GEN " \o ToJson([docs |-> docs, region |-> region]))
=============================================================================
