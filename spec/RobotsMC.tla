------------------------------ MODULE RobotsMC ------------------------------
(***************************************************************************)
(* Every robots.txt over a small set of lines: the line-by-line reading of *)
(* Crawl.tla against its meaning - a prefix is disallowed when it stands   *)
(* in a group one of whose agents is "*".  Mode "code"; "ends" closes a    *)
(* group at the next agent line and never opens another (as the program    *)
(* once did), "lastagent" lets only the last agent line count.             *)
(***************************************************************************)
EXTENDS Crawl, Json
CONSTANTS MaxLines, Mode, Emit

Alphabet == {"User-agent: *", "user-agent:bot # me", "Disallow: /a", " disallow : /b ", "Disallow:", "# Disallow: /c", "Crawl-delay: 1"}
VARIABLES lines, st
vars == <<lines, st>>
Init == lines = << >> /\ st = [us |-> FALSE, names |-> FALSE, not |-> << >>]

Wrong(s, str) ==
   LET x == Line(str) IN
   CASE x.f = "user-agent" -> IF Mode = "ends" THEN [s EXCEPT !.us = IF s.us THEN FALSE ELSE x.v = "*"]
                              ELSE [s EXCEPT !.us = (x.v = "*")]
     [] x.f = "disallow" -> [s EXCEPT !.not = IF s.us /\ x.v # "" THEN Append(@, x.v) ELSE @]
     [] OTHER -> s
Grow == /\ Len(lines) < MaxLines
        /\ \E a \in Alphabet : lines' = Append(lines, a) /\ st' = (IF Mode = "code" THEN RobotsStep(st, a) ELSE Wrong(st, a))
Spec == Init /\ [][Grow]_vars

(* the meaning, said by positions *)
IsAgent(i) == Line(lines[i]).f = "user-agent"
IsRule(i) == Line(lines[i]).f \notin {"user-agent", ""}
(* the agent lines of the group a rule belongs to: those before it with no rule between *)
(* an agent line and the next one                                                        *)
AgentsOf(i) == {j \in 1..(i - 1) : IsAgent(j)
                   /\ LET nxt == {k \in (j + 1)..(i - 1) : IsAgent(k)} IN
                      \A k \in nxt : ~\E m \in (j + 1)..(k - 1) : IsRule(m)}
Meant == {Line(lines[i]).v : i \in {j \in 1..Len(lines) : Line(lines[j]).f = "disallow" /\ Line(lines[j]).v # ""
                                        /\ \E k \in AgentsOf(j) : Line(lines[k]).v = "*"}}
ReadAsMeant == {st.not[i] : i \in 1..Len(st.not)} = Meant
EmitFile == (Emit /\ Len(lines) = MaxLines) => PrintT("GEN " \o ToJson(lines))
=============================================================================
