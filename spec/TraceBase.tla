------------------------------ MODULE TraceBase ------------------------------
(* Common part of all trace specifications.  A trace is a file of JSON events,
   one per line, recorded from the real code; every event is judged by a
   deterministic step of the trace specification.  Props is the set of
   properties whose obligations are enforced: an obligation of another property
   never makes a trace unacceptable. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Props

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* obligation `cond' of property p at trace position pos  (IF, not a disjunction:
\* TLC would explore both branches of a disjunction inside an action)
Chk(pos, p, name, cond) ==
   IF p \in Props THEN IF cond THEN TRUE ELSE PrintT(<<"FAIL", p, name, pos>>) /\ FALSE
   ELSE TRUE
\* obligation of any of several properties
ChkAny(pos, ps, name, cond) ==
   IF ps \cap Props # {} THEN IF cond THEN TRUE ELSE PrintT(<<"FAIL", ps \cap Props, name, pos>>) /\ FALSE
   ELSE TRUE

\* a session that crashed or hung before it began: never acceptable
Early(e, pos) == ChkAny(pos, Props, "crash or hang: " \o e.why, FALSE)

Range(q) == {q[i] : i \in 1..Len(q)}
NoDuplicates(q) == Cardinality(Range(q)) = Len(q)
Has(e, f) == f \in DOMAIN e
Put(f, k, v) == (k :> v) @@ f
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

\* register 1 holds the furthest trace position reached
Reached(pos) == TLCSet(1, pos)
Verdict == IF TLCGet(1) = Len(Trace) + 1
           THEN PrintT(<<"TRACE-ACCEPTED", Len(Trace)>>)
           ELSE PrintT(<<"TRACE-REJECTED", TLCGet(1)>>)
=============================================================================
