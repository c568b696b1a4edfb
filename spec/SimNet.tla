------------------------------- MODULE SimNet -------------------------------
(* The simulated network that both simulators build on package des: nodes that
   generate bursts of transactions for ever, links with a delay, and every event
   at its time.  Delays, generation intervals (0 included) and sizes of the traffic
   are arbitrary.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N, Links, Delay, Burst, MaxIntv, MaxTime, MaxSend

\* Delay: function from link (a set of two nodes) to its delay
Nodes == 1..N
One == {{1, 2}}
Two == {{1, 2}, {2, 3}}
Three == {{1, 2}, {2, 3}, {1, 3}}
SmallDelay == [k \in Links |-> IF 1 \in k THEN 2 ELSE 1]

VARIABLES now, q, seq, made, born, sent, got
vars == <<now, q, seq, made, born, sent, got>>
\* q: events in the future <<time, sequence number, destination, sender, kind>>
\* made: transactions generated so far; born: <<transaction, node, time>>
\* sent/got: ghosts, <<number, from, to, time>>

Init == \E intv \in [Nodes -> 0..MaxIntv] :
        /\ now = 0 /\ seq = N + 1 /\ made = 0 /\ born = {} /\ sent = {} /\ got = {}
        /\ q = {<<intv[n], n, n, n, "gen">> : n \in Nodes}

First == CHOOSE e \in q : \A f \in q : e[1] < f[1] \/ (e[1] = f[1] /\ e[2] <= f[2])
Peers(n) == {p \in Nodes : {n, p} \in Links}
\* number the messages of one step
RECURSIVE Numbered(_, _, _, _)
Numbered(ps, n, s, t) ==
  IF ps = {} THEN {}
  ELSE LET p == CHOOSE x \in ps : TRUE IN {<<t + Delay[{n, p}], s, p, n, "msg">>} \cup Numbered(ps \ {p}, n, s + 1, t)

\* the node that has an event sends to any of its peers (whatever its algorithm
\* says); a generation makes a burst and schedules exactly one next
Step ==
  LET e == First
      n == e[3]
  IN /\ q # {} /\ e[1] <= MaxTime
     /\ now' = e[1]
     /\ \E ps \in SUBSET Peers(n), intv \in 0..MaxIntv :
          /\ Cardinality(sent) + Cardinality(ps) <= MaxSend
          /\ e[5] = "gen" => intv > 0 \/ made < MaxSend
          /\ LET out == Numbered(ps, n, seq, e[1])
                 nx == IF e[5] = "gen" THEN {<<e[1] + intv, seq + Cardinality(ps), n, n, "gen">>} ELSE {}
             IN /\ q' = (q \ {e}) \cup out \cup nx
                /\ seq' = seq + Cardinality(out) + Cardinality(nx)
                /\ sent' = sent \cup {<<o[2], n, o[3], e[1]>> : o \in out}
     /\ IF e[5] = "gen"
        THEN made' = made + Burst /\ born' = born \cup {<<k, n, e[1]>> : k \in (made + 1)..(made + Burst)} /\ UNCHANGED got
        ELSE got' = got \cup {<<e[2], e[4], n, e[1]>>} /\ UNCHANGED <<made, born>>
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

-----------------------------------------------------------------------------
\* every node has exactly one next generation ahead of it
OneNext == \A n \in Nodes : Cardinality({e \in q : e[3] = n /\ e[5] = "gen"}) = 1
\* transactions are distinct and as many as were generated
Distinct == \A a, b \in born : a[1] = b[1] => a = b
Counted == Cardinality(born) = made
\* messages go along links, once, and take the delay of the link, in either direction
OnTime == \A g \in got : \E s \in sent : /\ s[1] = g[1] /\ s[2] = g[2] /\ s[3] = g[3]
                                          /\ {s[2], s[3]} \in Links /\ g[4] = s[4] + Delay[{s[2], s[3]}]
\* messages of one direction of a link stay in order
InOrder == \A a, b \in got : a[2] = b[2] /\ a[3] = b[3] /\ a[1] < b[1] => a[4] <= b[4]
\* nothing gets lost: what was sent has arrived or is under way
NoneLost == \A s \in sent : (\E g \in got : g[1] = s[1]) # (\E e \in q : e[2] = s[1])
=============================================================================
