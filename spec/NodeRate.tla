------------------------------- MODULE NodeRate -------------------------------
(* Design specification of the codeword rate control between two nodes.  Each
   end sends codewords that carry the losses it saw since its last one; a codeword
   that is still undecoded when it is retired is a loss of the receiving end.
   Losses raise the rate of the other end.  Rates are integers. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS InitRate, MinRate, Inc, Dec, MaxCw, QCap

Ends == {1, 2}
Other(i) == 3 - i

VARIABLES rate, accum, wire, q, win, sent, lost, raised, free
vars == <<rate, accum, wire, q, win, sent, lost, raised, free>>
\* rate; accum: own losses to report; q: codewords produced, not written yet; wire:
\* codewords under way (loss reported); win: codewords received, in the timeout
\* window (decoded or not); sent, lost (own losses seen), raised (losses that were
\* reported to this end); free: sum of what the minimum rate gave for free

Init == /\ rate = [i \in Ends |-> InitRate] /\ accum = [i \in Ends |-> 0]
        /\ wire = [i \in Ends |-> <<>>] /\ q = [i \in Ends |-> <<>>] /\ win = [i \in Ends |-> <<>>]
        /\ sent = [i \in Ends |-> 0] /\ lost = [i \in Ends |-> 0] /\ raised = [i \in Ends |-> 0]
        /\ free = [i \in Ends |-> 0]

Max(a, b) == IF a > b THEN a ELSE b
\* a codeword is due; it is dropped when the queue is full
Produce(i) ==
  /\ sent[i] < MaxCw
  /\ IF Len(q[i]) < QCap
     THEN /\ q' = [q EXCEPT ![i] = Append(@, accum[i])]
          /\ accum' = [accum EXCEPT ![i] = 0]
          /\ rate' = [rate EXCEPT ![i] = Max(MinRate, @ - Dec)]
          /\ free' = [free EXCEPT ![i] = @ + Max(0, MinRate - (rate[i] - Dec))]
          /\ sent' = [sent EXCEPT ![i] = @ + 1]
     ELSE UNCHANGED <<q, accum, rate, free, sent>>
  /\ UNCHANGED <<wire, win, lost, raised>>
Write(i) == /\ q[i] # <<>> /\ wire' = [wire EXCEPT ![i] = Append(@, Head(q[i]))] /\ q' = [q EXCEPT ![i] = Tail(@)]
            /\ UNCHANGED <<rate, accum, win, sent, lost, raised, free>>
\* end i receives a codeword of the other; the first k codewords of its window are retired
Receive(i) ==
  LET o == Other(i) IN
  /\ wire[o] # <<>>
  /\ \E k \in 0..Len(win[i]), d \in BOOLEAN :
       LET n == Cardinality({j \in 1..k : ~win[i][j]}) IN
       /\ accum' = [accum EXCEPT ![i] = @ + n]
       /\ lost' = [lost EXCEPT ![i] = @ + n]
       /\ win' = [win EXCEPT ![i] = Append(SubSeq(@, k + 1, Len(@)), d)]
  /\ rate' = [rate EXCEPT ![i] = @ + Inc * Head(wire[o])]
  /\ raised' = [raised EXCEPT ![i] = @ + Head(wire[o])]
  /\ wire' = [wire EXCEPT ![o] = Tail(@)]
  /\ UNCHANGED <<q, sent, free>>
Decode(i) == \E j \in 1..Len(win[i]) : /\ ~win[i][j] /\ win' = [win EXCEPT ![i][j] = TRUE]
                                        /\ UNCHANGED <<rate, accum, wire, q, sent, lost, raised, free>>
Next == \E i \in Ends : Produce(i) \/ Write(i) \/ Receive(i) \/ Decode(i)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
\* every loss of end i is reported exactly once
LossConserved == \A i \in Ends : lost[i] = accum[i] + Sum(q[i]) + Sum(wire[i]) + raised[Other(i)]
RateExact == \A i \in Ends : rate[i] = InitRate + Inc * raised[i] - Dec * sent[i] + free[i]
AboveMinimum == \A i \in Ends : rate[i] >= MinRate
\* a codeword is a loss at most once and only if it was received
LossBounded == \A i \in Ends : lost[i] + Len(win[i]) <= sent[Other(i)]
=============================================================================
