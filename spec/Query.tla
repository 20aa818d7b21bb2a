------------------------------- MODULE Query -------------------------------
(***************************************************************************)
(* Reading a query document, given as the sequence of its parse events     *)
(* (see Harvest.tla), and what an HTTP request is answered with.           *)
(***************************************************************************)
EXTENDS Index

QInit == [st |-> "default", prev |-> "default", ud |-> 0, stack |-> << >>,
          a |-> EmptyEnv, terms |-> << >>, dead |-> FALSE]

QUnknown(h) == [h EXCEPT !.prev = h.st, !.st = "unknown", !.ud = 1]

QStart(h, ev) ==
   CASE h.st = "default" -> IF ev.n = "mws:query" THEN [h EXCEPT !.st = "query", !.a = ev.a] ELSE QUnknown(h)
     [] h.st = "query"   -> IF ev.n = "mws:expr" THEN [h EXCEPT !.st = "expr"] ELSE QUnknown(h)
     [] h.st = "expr"    -> [h EXCEPT !.stack = Append(@, RawToken(ev))]
     [] OTHER            -> [h EXCEPT !.ud = @ + 1]

QEnd(h) ==
   CASE h.st = "default" -> h
     [] h.st = "query" -> [h EXCEPT !.st = "default"]
     [] h.st = "expr" ->
          LET n == Len(h.stack) IN
          IF n = 0 THEN [h EXCEPT !.st = "query"]
          ELSE IF n = 1 THEN [h EXCEPT !.stack = << >>, !.terms = Append(@, h.stack[1])]
          ELSE [h EXCEPT !.stack = [SubSeq(@, 1, n - 1) EXCEPT ![n - 1].k = Append(@, h.stack[n])]]
     [] OTHER -> IF h.ud = 1 THEN [h EXCEPT !.ud = 0, !.st = h.prev] ELSE [h EXCEPT !.ud = @ - 1]

QChars(h, ev) ==
   IF h.st = "expr" /\ h.stack # << >> THEN [h EXCEPT !.stack[Len(h.stack)].x = @ \o ev.x] ELSE h

QStep(h, ev) ==
   CASE ev.e = "S" -> QStart(h, ev)
     [] ev.e = "E" -> QEnd(h)
     [] ev.e = "T" -> QChars(h, ev)
     [] ev.e = "X" -> [h EXCEPT !.dead = TRUE]

ReadQuery(events) ==
   LET h == FoldLeft(QStep, QInit, events)
   IN [ok |-> ~h.dead /\ h.terms # << >>, terms |-> h.terms, a |-> h.a]

(* attributes of a query *)
RECURSIVE IntAt(_, _)
IntAt(str, n) == IF n = 0 THEN 0 ELSE IntAt(str, n - 1) * 10 + DigitVal[Ch(str, n)]
IntOf(str) == LET n == DigitRun(str, 1) IN IF n > 8 THEN 99999999 ELSE IntAt(str, n)    \* leading digits

SizeOf(a)   == IF "answsize" \in DOMAIN a THEN IntOf(a["answsize"]) ELSE DefaultSize
OffsetOf(a) == IF "limitmin" \in DOMAIN a THEN IntOf(a["limitmin"]) ELSE 0
FormatOf(a) == IF "output" \in DOMAIN a /\ a["output"] \in {"xml", "json", "mws-ids"} THEN a["output"] ELSE "xml"
ContentType(f) == IF f = "xml" THEN "application/xml" ELSE "application/json"

(* what a request is answered with, apart from the answer set *)
Methods(root) == IF root THEN "GET, POST, OPTIONS" ELSE "POST, OPTIONS"
StatusOf(method, root, events) ==
   CASE method = "OPTIONS"       -> 200
     [] method = "GET" /\ root   -> 200
     [] method # "POST"          -> 405
     [] OTHER                    -> IF ReadQuery(events).ok THEN 200 ELSE 400
=============================================================================
