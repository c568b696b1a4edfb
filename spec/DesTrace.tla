------------------------------- MODULE DesTrace -------------------------------
(* Judges executions of package des recorded by harness/des. *)
EXTENDS TraceBase

VARIABLES l, q, n, clock, hz, dn
vars == <<l, q, n, clock, hz, dn>>
\* q: messages scheduled and not delivered; n: scheduled; dn: delivered
\* hz: horizon of the run in progress; -1 unlimited, -2 no run

Both == {"C14", "C15"}
Before(a, b) == a.at < b.at \/ (a.at = b.at /\ a.seq < b.seq)
First == CHOOSE m \in q : \A o \in q : o = m \/ Before(m, o)

Init == l = 1 /\ q = {} /\ n = 0 /\ clock = 0 /\ hz = -2 /\ dn = 0
New(e) == q' = {} /\ n' = 0 /\ clock' = 0 /\ hz' = -2 /\ dn' = 0

Sch(e) ==
  /\ q' = q \cup {[id |-> e.id, seq |-> n, from |-> e.from, to |-> IF e.to = 0 THEN e.from ELSE e.to, at |-> clock + e.delay]}
  /\ n' = n + 1 /\ UNCHANGED <<clock, hz, dn>>
Run(e) == hz' = e.t /\ UNCHANGED <<q, n, clock, dn>>
Dlv(e) ==
  LET ms == {m \in q : m.id = e.id} IN
  /\ ChkAny(l, Both, "messages are delivered once and only if scheduled", ms # {})
  /\ ChkAny(l, Both, "messages are delivered during a run only", hz # -2)
  /\ LET m == CHOOSE m \in ms : TRUE IN
     /\ Chk(l, "C14", "message delivered at its arrival time", e.t = m.at /\ e.time = m.at)
     /\ Chk(l, "C14", "message delivered from its sender to its destination", e.from = m.from /\ e.to = m.to)
     /\ Chk(l, "C14", "messages are delivered in order of arrival time and scheduling", m = First)
     /\ Chk(l, "C14", "simulated time never goes back", e.t >= clock)
     /\ Chk(l, "C15", "nothing is delivered after the horizon", hz = -1 \/ m.at <= hz)
     /\ Chk(l, "C14", "delivered plus queued equal scheduled", e.q = Cardinality(q) - 1 /\ e.n = dn + 1)
     /\ q' = q \ {m} /\ clock' = m.at /\ dn' = dn + 1
     /\ UNCHANGED <<n, hz>>
Ran(e) ==
  /\ ChkAny(l, Both, "run delivers everything that is due", IF hz = -1 THEN q = {} ELSE \A m \in q : m.at > hz)
  /\ Chk(l, "C15", "clock does not pass the horizon", hz = -1 \/ e.time <= Max(hz, clock))
  /\ ChkAny(l, Both, "clock does not go back", e.time >= clock)
  /\ Chk(l, "C15", "run can be continued: nothing queued is in the past", \A m \in q : m.at >= e.time)
  /\ Chk(l, "C14", "delivered plus queued equal scheduled",
         e.q = Cardinality(q) /\ e.n = dn /\ e.drained = (q = {}))
  /\ hz' = -2 /\ clock' = e.time /\ UNCHANGED <<q, n, dn>>

\* a whole run with many messages: at[id] is the arrival time of the message that
\* was scheduled as the id-th, ord and t tell which were delivered, in order, and
\* when; cuts are the states at horizons
Bulk(e) ==
  LET N == Len(e.at)  D == Len(e.ord) IN
  /\ ChkAny(l, Both, "messages are delivered once and only if scheduled",
            \A k \in 1..D : e.ord[k] \in 1..N /\ (k = 1 \/ e.ord[k] # e.ord[k - 1]))
  /\ Chk(l, "C14", "message delivered at its arrival time", \A k \in 1..D : e.t[k] = e.at[e.ord[k]])
  /\ Chk(l, "C14", "messages are delivered in order of arrival time and scheduling",
         \A k \in 2..D : LET a == e.ord[k - 1]  b == e.ord[k] IN e.at[a] < e.at[b] \/ (e.at[a] = e.at[b] /\ a < b))
  /\ Chk(l, "C14", "message delivered from its sender to its destination", e.ok)
  /\ ChkAny(l, Both, "run delivers everything that is due", D = N /\ e.drained)
  /\ Chk(l, "C14", "delivered plus queued equal scheduled", e.q = 0 /\ e.n = N)
  /\ ChkAny(l, Both, "clock stands at the last delivery", e.time = e.t[D])
  /\ \A c \in 1..Len(e.cuts) :
       LET h == e.cuts[c][1]  d == e.cuts[c][2] IN
       /\ Chk(l, "C15", "nothing is delivered after the horizon", d = 0 \/ e.t[d] <= h)
       /\ Chk(l, "C15", "run delivers everything that is due", d = D \/ e.t[d + 1] > h)
       /\ Chk(l, "C15", "clock does not pass the horizon", e.cuts[c][3] <= h)
       /\ Chk(l, "C14", "delivered plus queued equal scheduled",
              e.cuts[c][4] = e.cuts[c][5] + e.cuts[c][6] /\ e.cuts[c][6] = d)
  /\ UNCHANGED <<q, n, clock, hz, dn>>

Crash(e) == ChkAny(l, Both, "crash or hang: " \o e.why, FALSE) /\ UNCHANGED <<q, n, clock, hz, dn>>
Mismatch(e) == ChkAny(l, Both, "generated schedule not followed: " \o e.why, FALSE) /\ UNCHANGED <<q, n, clock, hz, dn>>

Step(e) ==
  CASE e.ev = "new" -> New(e)
    [] e.ev = "sch" -> Sch(e)
    [] e.ev = "run" -> Run(e)
    [] e.ev = "dlv" -> Dlv(e)
    [] e.ev = "ran" -> Ran(e)
    [] e.ev = "bulk" -> Bulk(e)
    [] e.ev = "early" -> Early(e, l)
    [] e.ev = "crash" -> Crash(e)
    [] e.ev = "mismatch" -> Mismatch(e)
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
Note == Reached(l)
=============================================================================
