------------------------------- MODULE LtWindow -------------------------------
(* Design specification of the coding window of an LT encoder: hist is the
   history of everything that was added since the last reset. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Tx, ClsSeq, Sizes, MaxAdds

NoConflicts == <<1, 2, 3, 4>>
OneConflict == <<1, 1, 2, 3>>

VARIABLES win, ws, accepted, hist, cw, ok
vars == <<win, ws, accepted, hist, cw, ok>>

Rng(q) == {q[i] : i \in 1..Len(q)}
Cls(x) == ClsSeq[x]
LastN(q, n) == IF Len(q) <= n THEN q ELSE SubSeq(q, Len(q) - n + 1, Len(q))
None == [s |-> {}, m |-> {}, deg |-> 0]

Init == win = <<>> /\ ws \in Sizes /\ accepted = <<>> /\ hist = <<>> /\ cw = None /\ ok = TRUE

Add(x) ==
  /\ Len(hist) < MaxAdds
  /\ hist' = Append(hist, x)
  /\ ok' = (Cls(x) \notin {Cls(y) : y \in Rng(win)})
  /\ win' = IF ok' THEN LastN(Append(win, x), ws) ELSE win
  /\ accepted' = IF ok' THEN Append(accepted, x) ELSE accepted
  /\ cw' = None /\ UNCHANGED ws
Produce(deg) ==
  /\ win # <<>>
  /\ \E S \in SUBSET Rng(win) :
       /\ Cardinality(S) = IF deg < Len(win) THEN deg ELSE Len(win)
       /\ cw' = [s |-> S, m |-> {Cls(x) : x \in S}, deg |-> deg]
  /\ UNCHANGED <<win, ws, accepted, hist, ok>>
Reset(n) == /\ win # <<>> /\ Len(hist) < MaxAdds
            /\ win' = <<>> /\ ws' = n /\ accepted' = <<>> /\ cw' = None /\ ok' = TRUE /\ UNCHANGED hist

Next == (\E x \in Tx : Add(x)) \/ (\E d \in 1..4 : Produce(d)) \/ (\E n \in Sizes : Reset(n))
Spec == Init /\ [][Next]_vars

Bounded == Len(win) <= ws
Distinct == \A i, j \in 1..Len(win) : Cls(win[i]) = Cls(win[j]) => i = j
MostRecent == win = LastN(accepted, ws)                       \* FIFO
NewestIn == (hist # <<>> /\ ok /\ ws > 0 /\ accepted # <<>>) => accepted[Len(accepted)] \in Rng(win)
ExactCodeword == cw # None => /\ cw.s \subseteq Rng(win) /\ Cardinality(cw.m) = Cardinality(cw.s)
                              /\ Cardinality(cw.s) = IF cw.deg < Len(win) THEN cw.deg ELSE Len(win)
ProduceKeepsWindow == [][cw' # None => win' = win]_vars
=============================================================================
