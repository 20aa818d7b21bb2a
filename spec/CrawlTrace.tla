----------------------------- MODULE CrawlTrace -----------------------------
(***************************************************************************)
(* Recorded runs of the crawler service: requests submitted to it, its     *)
(* answers, the requests its crawls make, the files they leave.            *)
(***************************************************************************)
EXTENDS Crawl, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,
          site,    \* host -> pages
          robots,  \* host -> lines
          port,
          subs,    \* number of a submission -> [sub, acked, done, before: those acknowledged before it was sent]
          cur,     \* the crawl that is running, a sequence with at most one element
          harv     \* what has been harvested
vars == <<l, site, robots, port, subs, cur, harv>>

ev == Trace[l]
Init == l = 1 /\ site = EmptyEnv /\ robots = EmptyEnv /\ port = "" /\ subs = << >> /\ cur = << >> /\ harv = << >> /\ TLCSet(1, 0)

Reject(what, expected) ==
   /\ PrintT("REJECT " \o ToString(l) \o " " \o what)
   /\ PrintT(expected)
   /\ TLCSet(1, TLCGet(1) + 1)
Verify(checks) ==
   LET bad == SelectSeq(checks, LAMBDA c : ~c[2]) IN
   IF bad = << >> THEN TRUE ELSE Reject(bad[1][1], bad[1][3])

Forget == /\ ev.e = "Forget"
          /\ site' = EmptyEnv /\ robots' = EmptyEnv /\ port' = "" /\ subs' = << >> /\ cur' = << >> /\ harv' = << >>
Fact == ev.e = "Fact" /\ Verify(<< <<ev.what, ev.got = ev.want, ev.want>> >>) /\ UNCHANGED <<site, robots, port, subs, cur, harv>>
ASite == /\ ev.e = "Site"
         /\ site' = (ev.h :> ev.pages) @@ site /\ robots' = (ev.h :> ev.robots) @@ robots /\ port' = ev.port
         /\ UNCHANGED <<subs, cur, harv>>

(* --- submissions --- *)
ASubmit == /\ ev.e = "Submit"      \* submissions are numbered in the order they are sent
           /\ subs' = Append(subs, [sub |-> ev, acked |-> FALSE, done |-> FALSE, before |-> {i \in 1..Len(subs) : subs[i].acked}])
           /\ UNCHANGED <<site, robots, port, cur, harv>>
Executes(s) == s.sub.m = "POST" /\ s.sub.starts /\ s.sub.valid
PageFor(s) == CASE s.m = "GET" -> "form" [] s.m = "POST" /\ s.starts -> "sent" [] OTHER -> "error"
AnAnswer == /\ ev.e = "Answer"
            /\ LET s == subs[ev.i].sub IN
               Verify(<< <<"status", ev.status = 200, 200>>,
                         <<"page", ev.m = "HEAD" \/ ev.page = PageFor(s), PageFor(s)>> >>)
            /\ subs' = [subs EXCEPT ![ev.i].acked = (ev.page = "sent")]
            /\ UNCHANGED <<site, robots, port, cur, harv>>

(* --- crawling --- *)
Running == cur # << >> /\ ~CrawlDone(cur[1])
NoCrawl == cur = << >> \/ CrawlDone(cur[1])
Waiting(h) == {i \in 1..Len(subs) : Executes(subs[i]) /\ ~subs[i].done /\ subs[i].sub.u.h = h}
Late(i) == {j \in subs[i].before : Executes(subs[j]) /\ ~subs[j].done}
RulesOf(s) == Disallowed(IF s.u.h \in DOMAIN robots THEN robots[s.u.h] ELSE << >>)
               \o SelectSeq([i \in 1..Len(s.dont) |-> IF s.dont[i].h = s.u.h THEN s.dont[i].v ELSE ""], LAMBDA x : x # "")
Where(u) == u.h \o u.p \o u.q
Got(u) == harv' = harv \o HarvestOf(u, site[u.h], port)

AGet ==
   /\ ev.e = "Get"
   /\ LET u == [h |-> ev.h, p |-> ev.p, q |-> ev.q]
          W == Waiting(ev.h)
      IN IF Running
         THEN LET c == cur[1] IN
              IF c.queue[1] = u
              THEN cur' = <<Fetch(c, site[c.h])>> /\ Got(u) /\ UNCHANGED subs
              ELSE /\ Reject(IF \E i \in 1..Len(c.got) : c.got[i] = u THEN "fetched again"
                             ELSE IF u.h # c.h THEN "fetched while another crawl is running"
                             ELSE IF Excluded(u, c.not) THEN "excluded" ELSE "not the next page", c.queue[1])
                   /\ UNCHANGED <<cur, harv, subs>>
         ELSE IF ev.p = "/robots.txt" /\ ev.q = "" /\ W # {}
         THEN LET i == CHOOSE i \in W : \A j \in W : i <= j IN
              /\ Verify(<< <<"order of requests", Late(i) = {}, [k \in Late(i) |-> subs[k].sub.u]>> >>)
              /\ subs' = [subs EXCEPT ![i].done = TRUE]
              /\ cur' = <<Begun(subs[i].sub.u, subs[i].sub.count, RulesOf(subs[i].sub))>>
              /\ UNCHANGED harv
         ELSE /\ Reject(IF cur # << >> /\ u.h = cur[1].h
                        THEN IF \E i \in 1..Len(cur[1].got) : cur[1].got[i] = u THEN "fetched again"
                             ELSE IF Excluded(u, cur[1].not) THEN "excluded"
                             ELSE IF cur[1].left = 0 THEN "more pages than asked for" ELSE "not a page to fetch"
                        ELSE "nobody asked for this", "nothing")
              /\ UNCHANGED <<cur, harv, subs>>
   /\ UNCHANGED <<site, robots, port>>

(* nothing has happened for long *)
AnIdle == /\ ev.e = "Idle"
          /\ LET undone == {i \in 1..Len(subs) : Executes(subs[i]) /\ subs[i].acked /\ ~subs[i].done} IN
             Verify(<< <<"unfinished crawl", NoCrawl, IF NoCrawl THEN << >> ELSE cur[1].queue>>,
                       <<"requests not executed", undone = {}, {subs[i].sub.u : i \in undone}>> >>)
          /\ UNCHANGED <<site, robots, port, subs, cur, harv>>

(* --- what is on disk --- *)
AHarvest == /\ ev.e = "Files"
            /\ LET got == [i \in 1..Len(ev.exprs) |-> <<ev.exprs[i].u, Norm(ev.exprs[i].t)>>]
                   E(sq) == {sq[i] : i \in 1..Len(sq)}
                   Cnt(sq, x) == Cardinality({i \in 1..Len(sq) : sq[i] = x})
               IN Verify(<< <<"well-formed harvests", ev.bad = << >>, << >> >>,
                            <<"missing expressions", E(harv) \subseteq E(got), E(harv) \ E(got)>>,
                            <<"extra expressions", E(got) \subseteq E(harv), E(got) \ E(harv)>>,
                            <<"each once", Len(got) = Len(harv), Len(harv)>>,
                            <<"as often", Len(got) = Cardinality(E(got)) \/ \A x \in E(got) : Cnt(got, x) = Cnt(harv, x), "">> >>)
            /\ UNCHANGED <<site, robots, port, subs, cur, harv>>

Next == l <= Len(Trace) /\ l' = l + 1
        /\ (Forget \/ Fact \/ ASite \/ ASubmit \/ AnAnswer \/ AGet \/ AnIdle \/ AHarvest)
Spec == Init /\ [][Next]_vars
Complete == /\ TLCGet("stats").diameter - 1 = Len(Trace)
            /\ PrintT("ACCEPTED-LENGTH " \o ToString(Len(Trace)) \o " REJECTS " \o ToString(TLCGet(1)))
=============================================================================
