-------------------------------- MODULE DesGen --------------------------------
(* Small schedules together with the deliveries they must give: three messages
   scheduled at the start, some of which send one more when delivered, and runs
   to a sequence of horizons (-1: to the end). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxDelay

VARIABLES msgs, q, clock, log, hz, cuts, phase
vars == <<msgs, q, clock, log, hz, cuts, phase>>

Horizons == {<<0, 2, -1>>, <<1, 3, -1>>, <<-1>>, <<2, 1, 4>>, <<0, 1, 2, 3>>, <<2, 2, -1>>}
Roots == <<1, 3, 5>>

\* message 2i is what message 2i-1 sends, if it does
Shape == {[root |-> [to |-> t, delay |-> d], kid |-> k] :
             t \in {0, 2}, d \in 0..MaxDelay, k \in {0} \cup (1..(MaxDelay + 1))}
Build(a, b, c) ==
  LET sh == <<a, b, c>>
  IN [i \in 1..6 |-> LET s == sh[(i + 1) \div 2] IN
        IF i % 2 = 1 THEN [id |-> i, to |-> s.root.to, delay |-> s.root.delay, kid |-> IF s.kid = 0 THEN 0 ELSE i + 1]
        ELSE [id |-> i, to |-> i % 3, delay |-> IF s.kid = 0 THEN 0 ELSE s.kid - 1, kid |-> 0]]

Dest(from, to) == IF to = 0 THEN from ELSE to
Init == /\ \E a, b, c \in Shape : msgs = Build(a, b, c)
        /\ \E h \in Horizons : hz = h
        /\ clock = 0 /\ log = <<>> /\ cuts = <<>> /\ phase = 3
        /\ q = {[id |-> Roots[i], seq |-> i - 1, from |-> 1, to |-> Dest(1, msgs[Roots[i]].to), at |-> msgs[Roots[i]].delay] : i \in 1..3}
First == CHOOSE m \in q : \A o \in q : m.at < o.at \/ (m.at = o.at /\ m.seq <= o.seq)
Due == IF q = {} THEN FALSE ELSE IF hz[Len(cuts) + 1] = -1 THEN TRUE ELSE First.at <= hz[Len(cuts) + 1]
Next ==
  /\ Len(cuts) < Len(hz)
  /\ IF Due
     THEN LET m == First  k == msgs[m.id].kid IN
          /\ clock' = m.at
          /\ log' = Append(log, [id |-> m.id, from |-> m.from, to |-> m.to, t |-> m.at])
          /\ q' = (q \ {m}) \cup (IF k = 0 THEN {}
                    ELSE {[id |-> k, seq |-> phase, from |-> m.to, to |-> Dest(m.to, msgs[k].to), at |-> m.at + msgs[k].delay]})
          /\ phase' = IF k = 0 THEN phase ELSE phase + 1
          /\ UNCHANGED cuts
     ELSE /\ cuts' = Append(cuts, Len(log)) /\ UNCHANGED <<clock, log, q, phase>>
  /\ UNCHANGED <<msgs, hz>>
Spec == Init /\ [][Next]_vars
Emit == Len(cuts) = Len(hz) => PrintT(ToJson([msgs |-> msgs, roots |-> Roots, hz |-> hz, log |-> log, cuts |-> cuts]))
=============================================================================
