------------------------------- MODULE Export -------------------------------
(***************************************************************************)
(* What is exported of a harvest.  The harvest is read as by the indexer   *)
(* (module Harvest); every completed data element is a document, and every *)
(* expression linked to one belongs to it.                                 *)
(***************************************************************************)
EXTENDS Loader

EInit == [h |-> HInit, docs |-> << >>, links |-> EmptyEnv, ex |-> << >>]
EStep(s, ev) ==
   LET h2 == HStep(s.h, ev, TRUE)
       closed == s.h.st = "data" /\ h2.st = "harvest" /\ ~s.h.dead
       more == Len(h2.out) > Len(s.h.out)
   IN [h |-> h2,
       docs |-> IF closed THEN Append(s.docs, s.h.toks) ELSE s.docs,
       links |-> IF closed THEN (s.h.lid :> Len(s.docs) + 1) @@ s.links ELSE s.links,
       ex |-> IF more THEN Append(s.ex, [doc |-> IF s.h.lid \in DOMAIN s.links THEN s.links[s.h.lid] ELSE 0,
                                         url |-> s.h.url, term |-> h2.out[Len(h2.out)].term])
              ELSE s.ex]
ReadHarvest(events) == FoldLeft(EStep, EInit, events)

(***************************************************************************)
(* Data tokens as a tree of nodes [n |-> name, a |-> attributes, k, x]     *)
(***************************************************************************)
Kind(tk) == SubSeq(tk, 1, 2)
Rest(tk) == SubSeq(tk, 3, Len(tk))
Leaf(x) == [n |-> "", a |-> << >>, k |-> << >>, x |-> x]
AddKid(st, kid) == [st EXCEPT ![Len(st)].k = Append(@, kid)]
DataTree(toks) ==
   FoldLeft(LAMBDA st, tk :
      CASE tk = "E" -> AddKid(SubSeq(st, 1, Len(st) - 1), st[Len(st)])
        [] Kind(tk) = "S:" -> Append(st, [Leaf("") EXCEPT !.n = Rest(tk)])
        [] Kind(tk) = "A:" -> [st EXCEPT ![Len(st)].a = Append(@, Rest(tk))]
        [] OTHER -> AddKid(st, Leaf(Rest(tk))),
      << [Leaf("") EXCEPT !.n = "data"] >>, toks)[1]

RECURSIVE Below(_)
Below(nd) == FoldLeft(LAMBDA acc, c : IF c.n = "" THEN acc ELSE acc \o <<c>> \o Below(c), << >>, nd.k)

BeginsWith(str, pre) == Len(str) >= Len(pre) /\ SubSeq(str, 1, Len(pre)) = pre
Values(nd, name) == LET s == SelectSeq(nd.a, LAMBDA y : BeginsWith(y, name \o "=")) IN
                    [i \in 1..Len(s) |-> SubSeq(s[i], Len(name) + 2, Len(s[i]))]

(* text: words with one space between, formulae by their identifiers *)
RECURSIVE Loose(_)
Loose(nd) == FoldLeft(LAMBDA acc, c :
                 acc \o (CASE c.n = "" -> " " \o c.x \o " "
                           [] c.n = "math" -> IF Values(c, "id") = << >> THEN "" ELSE " math" \o Values(c, "id")[1] \o " "
                           [] OTHER -> Loose(c)), "", nd.k)
Squeeze(str) ==
   FoldLeft(LAMBDA acc, i :
       IF Ch(str, i) \in White THEN [acc EXCEPT !.gap = TRUE]
       ELSE [o |-> acc.o \o (IF acc.gap /\ acc.o # "" THEN " " ELSE "") \o Ch(str, i), gap |-> FALSE],
     [o |-> "", gap |-> FALSE], [i \in 1..Len(str) |-> i]).o
TextOf(nd) == Squeeze(Loose(nd))

Named(root, name) == SelectSeq(Below(root), LAMBDA e : e.n = name)
FirstText(root, name) == IF Named(root, name) = << >> THEN "" ELSE TextOf(Named(root, name)[1])
Table(pairs) == FoldLeft(LAMBDA f, p : (p[1] :> p[2]) @@ f, EmptyEnv, pairs)   \* the last one counts

MetaOf(root) ==
   LET ms == Named(root, "metadata")
       items == FoldLeft(LAMBDA acc, m : acc \o SelectSeq(m.k, LAMBDA c : c.n # ""), << >>, ms)
   IN Table([i \in 1..Len(items) |-> <<items[i].n, TextOf(items[i])>>])
MathOf(root) ==
   LET ms == SelectSeq(Named(root, "math"), LAMBDA m : Values(m, "local_id") # << >>)
   IN Table([i \in 1..Len(ms) |-> <<Values(ms[i], "local_id")[1], TextOf(ms[i])>>])

(***************************************************************************)
(* Occurrences of terms in a document                                      *)
(***************************************************************************)
Positions(e, ren) ==
   LET n == IF ren THEN Canon(Norm(e.term)) ELSE Norm(e.term)
       po == SelectSeq(PreOrder(n, RootPath), LAMBDA o : Encodable(o[2]))
   IN {[u |-> e.url, p |-> po[i][1], s |-> po[i][2]] : i \in 1..Len(po)}
OccurrencesIn(hv, j, ren, indexed) ==
   {o \in UNION {Positions(hv.ex[i], ren) : i \in {k \in 1..Len(hv.ex) : hv.ex[k].doc = j}} : o.s \in indexed}
=============================================================================
