------------------------------ MODULE CrawlMC ------------------------------
(***************************************************************************)
(* Every site of up to three pages (and a link to another host), every     *)
(* page limit and every exclusion: the queue machine of Crawl.tla against  *)
(* what a crawl is to do, said without a queue - the pages reachable over  *)
(* allowed links, in the order of their distance, each once.               *)
(*                                                                         *)
(* Mode "code" is the machine; "nodedupe" forgets that a page may repeat a *)
(* link, "lateseen" marks a page when it is fetched, not when it is found, *)
(* "stack" takes the newest link first, "startonly" tests exclusions only  *)
(* when the crawl begins.  TLC must refute all but the first.              *)
(***************************************************************************)
EXTENDS Crawl, Json

CONSTANTS NPages, MaxLinks, Mode, Emit

P(k) == [h |-> "h", p |-> CASE k = 1 -> "/" [] k = 2 -> "/a" [] k = 3 -> "/a/b" [] OTHER -> "/c", q |-> ""]
Far == [h |-> "g", p |-> "/a", q |-> ""]
Pages == {P(k) : k \in 1..NPages}
LinkLists == UNION {[1..n -> Pages \cup {Far}] : n \in 0..MaxLinks}
Rules == {<< >>, <<"/a/">>, <<"/a">>, <<"/a/b", "/none">>}
Counts == {-1, 1, 2, 3}

VARIABLES site, rules, count, c
vars == <<site, rules, count, c>>

SiteOf(f) == [x \in {u.p : u \in Pages} |-> [links |-> f[CHOOSE u \in Pages : u.p = x], math |-> << >>]]
Init == /\ \E f \in [Pages -> LinkLists] : site = SiteOf(f)
        /\ rules \in Rules /\ count \in Counts
        /\ c = Begun(P(1), count, rules)

Bad(cr, s) ==
   LET u == IF Mode = "stack" THEN cr.queue[Len(cr.queue)] ELSE cr.queue[1]
       rest == IF Mode = "stack" THEN SubSeq(cr.queue, 1, Len(cr.queue) - 1) ELSE SubSeq(cr.queue, 2, Len(cr.queue))
       ls == PageAt(s, u).links
       seen == IF Mode = "lateseen" THEN {cr.got[i] : i \in 1..Len(cr.got)} \cup {u} ELSE cr.seen
       new == IF Mode = "nodedupe"
              THEN SelectSeq(ls, LAMBDA x : x.h = cr.h /\ x \notin seen /\ ~Excluded(x, cr.not))
              ELSE NewLinks(PageAt(s, u), seen, cr.h, IF Mode = "startonly" /\ cr.got # << >> THEN << >> ELSE cr.not)
   IN [cr EXCEPT !.queue = rest \o new, !.seen = @ \cup {new[i] : i \in 1..Len(new)},
                 !.left = IF @ > 0 THEN @ - 1 ELSE @, !.got = Append(@, u)]

Advance == /\ ~CrawlDone(c) /\ Len(c.got) < 9
        /\ c' = (IF Mode = "code" THEN Fetch(c, site) ELSE Bad(c, site))
        /\ UNCHANGED <<site, rules, count>>
Spec == Init /\ [][Advance]_vars /\ WF_vars(Advance)

(* ------- what is wanted, without a queue ------- *)
Follows(u) == {x \in Pages : ~Excluded(x, rules) /\ \E i \in 1..Len(site[u.p].links) : site[u.p].links[i] = x}
RECURSIVE Within(_)
Within(n) == IF n = 0 THEN {P(1)} ELSE Within(n - 1) \cup UNION {Follows(u) : u \in Within(n - 1)}
Reachable == Within(NPages)
Distance(u) == CHOOSE n \in 0..NPages : u \in Within(n) /\ (n = 0 \/ u \notin Within(n - 1))

Least(a, b) == IF a < b THEN a ELSE b
EachOnce == \A i, j \in 1..Len(c.got) : c.got[i] = c.got[j] => i = j
OnlyReachable == \A i \in 1..Len(c.got) : c.got[i] \in Reachable
NearestFirst == \A i \in 1..Len(c.got) : i = 1 \/ Distance(c.got[i - 1]) <= Distance(c.got[i])
(* of two pages at one distance, the one found first comes first *)
FoundFirst(u) == CHOOSE i \in 1..Len(c.got) : u \in Follows(c.got[i]) /\ \A j \in 1..(i - 1) : u \notin Follows(c.got[j])
Position(u, v) == CHOOSE k \in 1..Len(site[v.p].links) : site[v.p].links[k] = u /\ \A m \in 1..(k - 1) : site[v.p].links[m] # u
InOrder ==
   \A i, j \in 2..Len(c.got) :
      (i < j /\ OnlyReachable /\ EachOnce /\ c.got[i] \in UNION {Follows(c.got[k]) : k \in 1..Len(c.got)}
             /\ c.got[j] \in UNION {Follows(c.got[k]) : k \in 1..Len(c.got)}) =>
      LET a == FoundFirst(c.got[i]) b == FoundFirst(c.got[j])
      IN a < b \/ (a = b /\ Position(c.got[i], c.got[a]) < Position(c.got[j], c.got[b]))
AllOfThem == CrawlDone(c) => Len(c.got) = (IF count = -1 THEN Cardinality(Reachable) ELSE Least(count, Cardinality(Reachable)))
Finishes == <>CrawlDone(c)
EmitSite == (Emit /\ Len(c.got) = 0 /\ count = -1 /\ rules = << >>) => PrintT("GEN " \o ToJson([x \in DOMAIN site |-> [i \in 1..Len(site[x].links) |-> site[x].links[i].h \o site[x].links[i].p]]))
=============================================================================
