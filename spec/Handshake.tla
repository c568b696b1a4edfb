------------------------------- MODULE Handshake -------------------------------
(* Design specification of the key exchange of two nodes: each end writes its
   key, then reads the other's; codewords follow at once.  The transport delivers
   bytes in fragments of any size and may break down at any time. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS KeyLen, Payload, Breaks

Ends == {1, 2}
Other(i) == 3 - i
\* what end i writes: key bytes, then (when its handshake is over) payload bytes
Key(i) == [k \in 1..KeyLen |-> <<i, "key", k>>]
Data(i) == [k \in 1..Payload |-> <<i, "data", k>>]

VARIABLES st,    \* write, read, ready, failed
          got,   \* bytes of the key read so far
          wire,  \* bytes in transit from i, not readable yet
          avail, \* bytes that arrived at the other end
          open,  \* the direction from i works
          data   \* payload read by i
vars == <<st, got, wire, avail, open, data>>
Init == /\ st = [i \in Ends |-> "write"] /\ got = [i \in Ends |-> <<>>] /\ wire = [i \in Ends |-> <<>>]
        /\ avail = [i \in Ends |-> <<>>] /\ open = [i \in Ends |-> TRUE] /\ data = [i \in Ends |-> <<>>]
Write(i) == /\ st[i] = "write"
            /\ IF open[i] THEN wire' = [wire EXCEPT ![i] = @ \o Key(i)] /\ st' = [st EXCEPT ![i] = "read"]
               ELSE st' = [st EXCEPT ![i] = "failed"] /\ UNCHANGED wire
            /\ UNCHANGED <<got, avail, open, data>>
Transport(i) == /\ wire[i] # <<>> /\ \E n \in 1..Len(wire[i]) :
                     /\ avail' = [avail EXCEPT ![i] = @ \o SubSeq(wire[i], 1, n)]
                     /\ wire' = [wire EXCEPT ![i] = SubSeq(@, n + 1, Len(@))]
                /\ UNCHANGED <<st, got, open, data>>
Break(i) == Breaks /\ open[i] /\ open' = [open EXCEPT ![i] = FALSE] /\ wire' = [wire EXCEPT ![i] = <<>>]
            /\ UNCHANGED <<st, got, avail, data>>
\* one read of end i: at least one byte, never more than the key still lacks
Min(a, b) == IF a < b THEN a ELSE b
ReadKey(i) ==
  LET o == Other(i) IN
  /\ st[i] = "read"
  /\ IF avail[o] # <<>>
     THEN \E n \in 1..Min(KeyLen - Len(got[i]), Len(avail[o])) :
            /\ got' = [got EXCEPT ![i] = @ \o SubSeq(avail[o], 1, n)]
            /\ avail' = [avail EXCEPT ![o] = SubSeq(@, n + 1, Len(@))]
            /\ st' = IF Len(got[i]) + n = KeyLen THEN [st EXCEPT ![i] = "ready"] ELSE st
            /\ wire' = IF Len(got[i]) + n = KeyLen /\ open[i] THEN [wire EXCEPT ![i] = @ \o Data(i)] ELSE wire
     ELSE /\ ~open[o] /\ st' = [st EXCEPT ![i] = "failed"] /\ UNCHANGED <<got, avail, wire>>
  /\ UNCHANGED <<open, data>>
ReadData(i) == LET o == Other(i) IN
  /\ st[i] = "ready" /\ avail[o] # <<>>
  /\ data' = [data EXCEPT ![i] = Append(@, Head(avail[o]))] /\ avail' = [avail EXCEPT ![o] = Tail(@)]
  /\ UNCHANGED <<st, got, wire, open>>
Next == \E i \in Ends : Write(i) \/ Transport(i) \/ Break(i) \/ ReadKey(i) \/ ReadData(i)
Spec == Init /\ [][Next]_vars
        /\ \A i \in Ends : WF_vars(Write(i)) /\ WF_vars(Transport(i)) /\ WF_vars(ReadKey(i)) /\ WF_vars(ReadData(i))
-----------------------------------------------------------------------------
Agree == \A i \in Ends : st[i] = "ready" => got[i] = Key(Other(i))
InOrder == \A i \in Ends : data[i] = SubSeq(Data(Other(i)), 1, Len(data[i]))
NoGhost == \A i \in Ends : (st[i] = "failed") => Len(got[i]) < KeyLen
Completes == (\A i \in Ends : []open[i]) => <>(\A i \in Ends : st[i] = "ready" /\ Len(data[i]) = Payload)
Settles == <>(\A i \in Ends : st[i] \in {"ready", "failed"})
=============================================================================
