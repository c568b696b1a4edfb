------------------------------ MODULE RibltGen ------------------------------
(* Prints every complete behaviour of Riblt, with the outputs expected after
   each step, for replay into the real code. *)
EXTENDS Riblt, Json
VARIABLE hist
allvars == <<vars, hist>>

Rec(op) == [op |-> op, R |-> SeqToSet(remote'), L |-> SeqToSet(local'), dec |-> pending' = 0]

GInit == Init /\ hist = <<>>
GNext == \/ Receive /\ hist' = Append(hist, Rec("recv"))
         \/ StartDecode /\ UNCHANGED hist
         \/ DecodeStep /\ UNCHANGED hist
         \/ EndDecode /\ hist' = Append(hist, Rec("try"))
GSpec == GInit /\ [][GNext]_allvars

RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE <<SetMin(S)>> \o Sorted(S \ {SetMin(S)})

\* symbols are 1..n here
Emit == (Len(cells) = M /\ Idle) =>
   PrintT(ToJson([map |-> [x \in 1..Cardinality(Sym) |-> Sorted(map[x])],
                  A |-> A, B |-> B, M |-> M,
                  hist |-> [i \in 1..Len(hist) |-> [op |-> hist[i].op, R |-> hist[i].R, L |-> hist[i].L, dec |-> hist[i].dec]]]))
=============================================================================
