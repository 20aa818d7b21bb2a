------------------------------ MODULE Harvest ------------------------------
(***************************************************************************)
(* Ingestion of one harvest stream.                                        *)
(*                                                                         *)
(* A stream is a sequence of parse events                                  *)
(*    [e |-> "S", n |-> element name, a |-> attributes]   start element    *)
(*    [e |-> "E"]                                         end element      *)
(*    [e |-> "T", x |-> text]                             characters       *)
(*    [e |-> "X"]                                         fatal XML error  *)
(* and ingestion is the state machine Step over these events; it is shaped *)
(* like the parser of MathWebSearch (states default / harvest / expr /     *)
(* data / unknown).  The result is the sequence of entries                 *)
(*    [url |-> url, d |-> tokens of the linked data, term |-> raw term]    *)
(***************************************************************************)
EXTENDS Terms, SequencesExt

NoData == << >>

HInit == [st |-> "default", prev |-> "default", ud |-> 0,
          stack |-> << >>, url |-> "", lid |-> "", cd |-> 0,
          toks |-> << >>, ids |-> EmptyEnv, out |-> << >>, dead |-> FALSE]

Attr(ev, n) == IF n \in DOMAIN ev.a THEN ev.a[n] ELSE ""

RawToken(ev) == [t |-> ev.n, a |-> ev.a, x |-> "", k |-> << >>]

ToUnknown(h) == [h EXCEPT !.prev = h.st, !.st = "unknown", !.ud = 1]

(* attributes of copied data elements, in a canonical (name) order given   *)
(* by the driver: the event carries them as a sequence too                 *)
DataStart(ev) == <<"S:" \o ev.n>> \o [i \in 1..Len(ev.al) |-> "A:" \o ev.al[i]]

AppendText(toks, x) ==
   IF Len(toks) > 0 /\ Len(toks[Len(toks)]) >= 2 /\ SubSeq(toks[Len(toks)], 1, 2) = "T:"
   THEN [toks EXCEPT ![Len(toks)] = @ \o x]
   ELSE Append(toks, "T:" \o x)

StartElement(h, ev, useData) ==
   CASE h.st = "default" ->
          IF ev.n = "mws:harvest" THEN [h EXCEPT !.st = "harvest"] ELSE ToUnknown(h)
     [] h.st = "harvest" ->
          IF ev.n = "mws:expr"
          THEN [h EXCEPT !.st = "expr", !.url = Attr(ev, "url"), !.lid = Attr(ev, "mws:data_id")]
          ELSE IF ev.n = "mws:data" /\ Attr(ev, "mws:data_id") # ""
          THEN [h EXCEPT !.st = "data", !.lid = Attr(ev, "mws:data_id"), !.cd = 1, !.toks = << >>]
          ELSE ToUnknown(h)
     [] h.st = "expr" -> [h EXCEPT !.stack = Append(@, RawToken(ev))]
     [] h.st = "data" -> [h EXCEPT !.cd = @ + 1, !.toks = @ \o DataStart(ev)]
     [] OTHER -> [h EXCEPT !.ud = @ + 1]

Linked(h, useData) == IF useData /\ h.lid \in DOMAIN h.ids THEN h.ids[h.lid] ELSE NoData

EndElement(h, useData) ==
   CASE h.st = "default" -> h
     [] h.st = "harvest" -> [h EXCEPT !.st = "default"]
     [] h.st = "expr" ->
          IF h.stack = << >> THEN [h EXCEPT !.st = "harvest"]
          ELSE IF Len(h.stack) = 1
          THEN [h EXCEPT !.stack = << >>,
                         !.out = Append(@, [url |-> h.url, d |-> Linked(h, useData), term |-> h.stack[1]])]
          ELSE LET n == Len(h.stack) IN
               [h EXCEPT !.stack = [SubSeq(@, 1, n - 1) EXCEPT ![n - 1].k = Append(@, h.stack[n])]]
     [] h.st = "data" ->
          IF h.cd > 1 THEN [h EXCEPT !.cd = @ - 1, !.toks = Append(@, "E")]
          ELSE [h EXCEPT !.cd = 0, !.st = "harvest",
                         !.ids = IF useData THEN (h.lid :> h.toks) @@ @ ELSE @]
     [] OTHER -> IF h.ud = 1 THEN [h EXCEPT !.ud = 0, !.st = h.prev] ELSE [h EXCEPT !.ud = @ - 1]

Characters(h, ev) ==
   CASE h.st = "expr" /\ h.stack # << >> -> [h EXCEPT !.stack[Len(h.stack)].x = @ \o ev.x]
     [] h.st = "data" -> [h EXCEPT !.toks = AppendText(@, ev.x)]
     [] OTHER -> h

HStep(h, ev, useData) ==
   IF h.dead THEN h
   ELSE CASE ev.e = "S" -> StartElement(h, ev, useData)
          [] ev.e = "E" -> EndElement(h, useData)
          [] ev.e = "T" -> Characters(h, ev)
          [] ev.e = "X" -> [h EXCEPT !.dead = TRUE]

Ingest(events, useData) ==
   FoldLeft(LAMBDA h, ev : HStep(h, ev, useData), HInit, events).out

(***************************************************************************)
(* The same, for a well-formed harvest given as a sequence of items        *)
(*   [i |-> "data", id, toks]  or  [i |-> "expr", url, id, terms]          *)
(* written as what it means rather than how it is read.                    *)
(***************************************************************************)
Preceding(items, n, id) ==      \* index of the last data item with this id before item n (0: none)
   LET S == {j \in 1..(n - 1) : items[j].i = "data" /\ items[j].id = id}
   IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : k <= j

ItemEntries(items, n, useData) ==
   LET it == items[n] IN
   IF it.i # "expr" THEN << >>
   ELSE LET j == Preceding(items, n, it.id)
            d == IF useData /\ j # 0 THEN items[j].toks ELSE NoData
        IN [k \in 1..Len(it.terms) |-> [url |-> it.url, d |-> d, term |-> it.terms[k]]]

ItemsMean(items, useData) ==
   LET RECURSIVE From(_)
       From(n) == IF n > Len(items) THEN << >> ELSE ItemEntries(items, n, useData) \o From(n + 1)
   IN From(1)

StreamEntries(s, useData) ==
   IF "items" \in DOMAIN s THEN ItemsMean(s.items, useData) ELSE Ingest(s.events, useData)

(* the entries of several streams, in order; no state is carried over *)
Entries(streams, useData) ==
   LET RECURSIVE From(_)
       From(n) == IF n > Len(streams) THEN << >>
                  ELSE StreamEntries(streams[n], useData) \o From(n + 1)
   IN From(1)
=============================================================================
