------------------------------ MODULE SimForward ------------------------------
(* Design specification of the rate-limited forwarding of a simulated node:
   transactions that arrive (in bursts, at any time) leave in order, at least
   Intv apart, as early as that permits, and each is handed to every peer once. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Intv, MaxTx, MaxBurst, MaxTime, Peers

VARIABLES now, n, q, last, out, got
vars == <<now, n, q, last, out, got>>
\* n transactions arrived; q: scheduled [x, due, at]; last: time of the last one
\* scheduled; out: forwarded [x, t, at]; got: peer -> transactions handed over
Max(a, b) == IF a > b THEN a ELSE b
Init == now = 0 /\ n = 0 /\ q = <<>> /\ last = 0 /\ out = <<>> /\ got = [p \in Peers |-> <<>>]

RECURSIVE Slots(_, _, _)
Slots(x, k, prev) ==
  IF k = 0 THEN <<>>
  ELSE LET due == Max(now, prev + Intv) IN <<[x |-> x, due |-> due, at |-> now]>> \o Slots(x + 1, k - 1, due)
Arrive == \E k \in 1..MaxBurst :
  /\ n + k <= MaxTx /\ now <= MaxTime
  /\ LET new == Slots(n + 1, k, last) IN q' = q \o new /\ last' = new[Len(new)].due
  /\ n' = n + k /\ UNCHANGED <<now, out, got>>
Forward == /\ q # <<>> /\ Head(q).due = now
           /\ out' = Append(out, [x |-> Head(q).x, t |-> now, at |-> Head(q).at])
           /\ got' = [p \in Peers |-> Append(got[p], Head(q).x)]
           /\ q' = Tail(q) /\ UNCHANGED <<now, n, last>>
Pass == /\ \A k \in 1..Len(q) : q[k].due > now
        /\ now < MaxTime + Intv * (MaxTx + 1) /\ now' = now + 1 /\ UNCHANGED <<n, q, last, out, got>>
Next == Arrive \/ Forward \/ Pass
Spec == Init /\ [][Next]_vars /\ WF_vars(Forward) /\ WF_vars(Pass)
-----------------------------------------------------------------------------
InOrder == \A k \in 1..Len(out) : out[k].x = k
Spacing == \A k \in 1..(Len(out) - 1) : out[k + 1].t - out[k].t >= Intv
Prompt == \A k \in 1..Len(out) :
            out[k].t = Max(out[k].at, (IF k = 1 THEN 0 ELSE out[k - 1].t) + Intv)
NothingLost == Len(out) + Len(q) = n /\ \A k \in 1..Len(q) : q[k].x = Len(out) + k
NoneOverdue == \A k \in 1..Len(q) : q[k].due >= now
EveryPeerOnce == \A p \in Peers : got[p] = [k \in 1..Len(out) |-> out[k].x]
AllForwarded == <>[](q = <<>>)
=============================================================================
