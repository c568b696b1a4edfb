--------------------------------- MODULE Des ---------------------------------
(* Design specification of the discrete-event simulator.  Messages are numbered
   in the order in which they are scheduled; q holds those not yet delivered.
   An environment schedules messages between runs, modules schedule more while
   they handle one.  hz is the horizon of the run in progress (-1: none). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Mods, MaxMsgs, MaxDelay, MaxTime

VARIABLES q, n, clock, hz, log
vars == <<q, n, clock, hz, log>>

None == -1
Key(m) == <<m.at, m.id>>
Before(a, b) == a.at < b.at \/ (a.at = b.at /\ a.id < b.id)
First == CHOOSE m \in q : \A o \in q : o = m \/ Before(m, o)

Msg(from, to, d, id) == [id |-> id, from |-> from, to |-> to, at |-> clock + d, sched |-> clock]

Init == q = {} /\ n = 0 /\ clock = 0 /\ hz = None /\ log = <<>>

Schedule == /\ hz = None /\ n < MaxMsgs
            /\ \E f, t \in Mods, d \in 0..MaxDelay : q' = q \cup {Msg(f, t, d, n + 1)}
            /\ n' = n + 1 /\ UNCHANGED <<clock, hz, log>>
Start == /\ hz = None /\ \E h \in 0..MaxTime : h >= clock /\ hz' = h
         /\ UNCHANGED <<q, n, clock, log>>
Deliver == /\ hz # None /\ q # {} /\ First.at <= hz
           /\ LET m == First IN
              /\ clock' = m.at
              /\ log' = Append(log, m)
              /\ \E k \in 0..2 :
                   /\ n + k <= MaxMsgs
                   /\ n' = n + k
                   /\ \E d \in [1..k -> 0..MaxDelay], t \in [1..k -> Mods] :
                        q' = (q \ {m}) \cup {[id |-> n + i, from |-> m.to, to |-> t[i], at |-> m.at + d[i], sched |-> m.at] : i \in 1..k}
           /\ UNCHANGED hz
Stop == /\ hz # None /\ (IF q = {} THEN TRUE ELSE First.at > hz) /\ hz' = None /\ UNCHANGED <<q, n, clock, log>>
Next == Schedule \/ Start \/ Deliver \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Deliver) /\ WF_vars(Stop)

Ids(S) == {m.id : m \in S}
Rng(s) == {s[i] : i \in 1..Len(s)}
\* C14
ExactlyOnce == /\ Ids(q) \cap Ids(Rng(log)) = {} /\ Ids(q) \cup Ids(Rng(log)) = 1..n
               /\ Cardinality(Ids(Rng(log))) = Len(log)
InOrder == \A i, j \in 1..Len(log) : (i < j /\ log[j].sched <= log[i].sched) => Before(log[i], log[j])
TimeOrdered == \A i \in 1..(Len(log)-1) : log[i].at <= log[i+1].at
OnTime == log # <<>> => clock = log[Len(log)].at
NeverLate == \A m \in q : m.at >= clock
Conservation == Len(log) + Cardinality(q) = n
ClockForward == [][clock' >= clock]_vars
\* C15
Horizon == hz # None => clock <= hz
Complete == [][(hz # None /\ hz' = None) => \A m \in q : m.at > hz]_vars
Terminates == [](hz # None => <>(hz = None))
=============================================================================
