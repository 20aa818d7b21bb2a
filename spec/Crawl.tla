-------------------------------- MODULE Crawl --------------------------------
(***************************************************************************)
(* The crawler: which links robots.txt and a request exclude, in which     *)
(* order the pages of a site are fetched, and what is harvested.           *)
(*                                                                         *)
(* A URL is [h |-> host, p |-> path, q |-> query], the query with its "?". *)
(* A site is a function from path-and-query to pages                       *)
(*   [links |-> sequence of URLs, math |-> sequence of [id, t]]            *)
(* a path without a page is a page without links and formulae.             *)
(***************************************************************************)
EXTENDS Terms

(* ------------------------------ robots.txt ----------------------------- *)
Lower(c) == LET U == "ABCDEFGHIJKLMNOPQRSTUVWXYZ" L == "abcdefghijklmnopqrstuvwxyz"
                I == {i \in 1..26 : Ch(U, i) = c} IN IF I = {} THEN c ELSE Ch(L, CHOOSE i \in I : TRUE)
RECURSIVE LowerAll(_)
LowerAll(str) == IF str = "" THEN "" ELSE Lower(Ch(str, 1)) \o LowerAll(SubSeq(str, 2, Len(str)))
RECURSIVE TrimL(_)
TrimL(str) == IF str # "" /\ Ch(str, 1) \in White THEN TrimL(SubSeq(str, 2, Len(str))) ELSE str
RECURSIVE TrimR(_)
TrimR(str) == IF str # "" /\ Ch(str, Len(str)) \in White THEN TrimR(SubSeq(str, 1, Len(str) - 1)) ELSE str
Trim(str) == TrimL(TrimR(str))
RECURSIVE IndexOfCh(_, _, _)
IndexOfCh(str, c, i) == IF i > Len(str) THEN 0 ELSE IF Ch(str, i) = c THEN i ELSE IndexOfCh(str, c, i + 1)
Before(str, c) == LET i == IndexOfCh(str, c, 1) IN IF i = 0 THEN str ELSE SubSeq(str, 1, i - 1)
Line(str) == LET s == Before(str, "#") i == IndexOfCh(s, ":", 1) IN
             IF i = 0 THEN [f |-> "", v |-> ""] ELSE [f |-> LowerAll(Trim(SubSeq(s, 1, i - 1))), v |-> Trim(SubSeq(s, i + 1, Len(s)))]

(* consecutive User-agent lines name the agents of one group *)
RobotsStep(st, str) ==
   LET x == Line(str) IN
   CASE x.f = "user-agent" -> IF st.names THEN [st EXCEPT !.us = @ \/ x.v = "*"]
                              ELSE [st EXCEPT !.us = (x.v = "*"), !.names = TRUE]
     [] x.f = "" -> st
     [] x.f = "disallow" -> [st EXCEPT !.names = FALSE,
                                       !.not = IF st.us /\ x.v # "" THEN Append(@, x.v) ELSE @]
     [] OTHER -> [st EXCEPT !.names = FALSE]
Disallowed(lines) == FoldLeft(RobotsStep, [us |-> FALSE, names |-> FALSE, not |-> << >>], lines).not

StartsWith(str, pre) == Len(str) >= Len(pre) /\ SubSeq(str, 1, Len(pre)) = pre
UnderPrefix(u, pre) == StartsWith(u.p \o u.q, pre) \/ u.p \o "/" = pre
Excluded(u, prefixes) == \E i \in 1..Len(prefixes) : UnderPrefix(u, prefixes[i])

(* -------------------------------- crawling ----------------------------- *)
NoPage == [links |-> << >>, math |-> << >>]
PageAt(site, u) == IF u.p \o u.q \in DOMAIN site THEN site[u.p \o u.q] ELSE NoPage

(* the links of a page that are to be visited, in order, each once *)
NewLinks(pg, seen, host, prefixes) ==
   FoldLeft(LAMBDA acc, u : IF u.h # host \/ u \in seen \/ Excluded(u, prefixes) \/ \E i \in 1..Len(acc) : acc[i] = u
                            THEN acc ELSE Append(acc, u),
            << >>, pg.links)

(* a crawl: queue of what is to be fetched, all that was ever put there,   *)
(* how many pages may still be fetched (-1: any number)                    *)
Begun(start, count, prefixes) == [h |-> start.h, queue |-> <<start>>, seen |-> {start}, left |-> count, not |-> prefixes, got |-> << >>]
CrawlDone(c) == c.queue = << >> \/ c.left = 0
Fetch(c, site) ==
   LET u == c.queue[1]
       new == NewLinks(PageAt(site, u), c.seen, c.h, c.not)
   IN [c EXCEPT !.queue = SubSeq(@, 2, Len(@)) \o new, !.seen = @ \cup {new[i] : i \in 1..Len(new)},
                !.left = IF @ > 0 THEN @ - 1 ELSE @, !.got = Append(@, u)]

(* -------------------------------- harvest ------------------------------ *)
Address(u, port) == "http://" \o u.h \o ":" \o port \o u.p \o u.q
Label(u, port, id) == Address(u, port) \o (IF id = "" THEN "" ELSE "#" \o id)
HarvestOf(u, site, port) ==
   LET m == PageAt(site, u).math IN [i \in 1..Len(m) |-> <<Label(u, port, m[i].id), Norm(m[i].t)>>]
=============================================================================
