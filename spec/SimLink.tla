------------------------------- MODULE SimLink --------------------------------
(* Design specification of one direction of an LT-coded link of the simulator:
   flow control and block handshake.  Codewords are abstracted to the block they
   belong to; how many of them the receiver can decode is nondeterministic, but
   after MaxNeed codewords of a block it can decode all of them. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Th,       \* detection threshold
          CNum, CDen, \* control overhead CNum/CDen
          LNum, LDen, \* tolerated fraction of undecoded codewords
          MaxTx,    \* transactions handed to the sender
          MaxNeed,
          Sync      \* blocks start at ticks only

VARIABLES given, s, r, ch, back, sent, acked
vars == <<given, s, r, ch, back, sent, acked>>

MinBlock == (Th * CDen) \div CNum
Max(a, b) == IF a > b THEN a ELSE b
ASSUME MinBlock >= 1 /\ Th >= 1 /\ MaxNeed > Th

Init == /\ given = 0 /\ ch = <<>> /\ back = <<>> /\ sent = 0 /\ acked = 0
        /\ s = [buf |-> 0, size |-> 0, id |-> 0, open |-> FALSE, infl |-> 0, win |-> Th]
        /\ r = [cnt |-> 0, und |-> 0, id |-> 0, done |-> TRUE]

RECURSIVE Fill(_, _, _)
Fill(t, out, may) ==
  IF t.infl >= t.win THEN [t |-> t, out |-> out]
  ELSE IF t.open THEN Fill([t EXCEPT !.infl = @ + 1], Append(out, [nb |-> FALSE, id |-> t.id]), may)
  ELSE IF may /\ t.buf >= MinBlock
       THEN Fill([buf |-> 0, size |-> t.buf, id |-> t.id + 1, open |-> TRUE, infl |-> t.infl + 1,
                  win |-> Max(1, (t.buf * CNum) \div CDen)], Append(out, [nb |-> TRUE, id |-> t.id + 1]), may)
  ELSE [t |-> t, out |-> out]
Act(t, may) == LET f == TLCEval(Fill(t, <<>>, may))
               IN s' = f.t /\ ch' = ch \o f.out /\ sent' = sent + Len(f.out)

Transaction ==
  /\ given < MaxTx /\ given' = given + 1
  /\ Act([s EXCEPT !.buf = @ + 1], ~Sync)
  /\ UNCHANGED <<r, back, acked>>
Tick == Sync /\ Act(s, TRUE) /\ UNCHANGED <<given, r, back, acked>>

DeliverCw ==
  /\ ch # <<>>
  /\ LET m == Head(ch)
         r0 == IF m.nb THEN [cnt |-> 0, und |-> 0, id |-> m.id, done |-> FALSE] ELSE r
         n == r0.cnt + 1
     IN \E u \in 0..(r0.und + 1) :
          /\ n >= MaxNeed => u = 0
          /\ LET fin == ~r0.done /\ n > Th /\ u <= (n * LNum) \div LDen IN
             /\ r' = [cnt |-> IF n > MaxNeed THEN MaxNeed ELSE n, und |-> u, id |-> r0.id, done |-> r0.done \/ fin]
             /\ back' = Append(back, fin)
  /\ ch' = Tail(ch) /\ UNCHANGED <<given, s, sent, acked>>
\* codewords are decoded thanks to other links
Decode == /\ r.und > 0 /\ \E u \in 0..(r.und - 1) : r' = [r EXCEPT !.und = u]
          /\ UNCHANGED <<given, s, ch, back, sent, acked>>
DeliverAck ==
  /\ back # <<>>
  /\ back' = Tail(back) /\ acked' = acked + 1
  /\ Act([s EXCEPT !.infl = @ - 1, !.open = @ /\ ~Head(back)], ~Sync)
  /\ UNCHANGED <<given, r>>

Next == Transaction \/ Tick \/ DeliverCw \/ Decode \/ DeliverAck
\* sent and acked only matter for the invariant Exact; their values are bounded by the view
Spec == Init /\ [][Next]_vars /\ WF_vars(Transaction) /\ WF_vars(Tick) /\ WF_vars(DeliverCw) /\ WF_vars(DeliverAck)
View == <<given, s, r, ch, back, sent - acked>>
-----------------------------------------------------------------------------
Exact == s.infl = sent - acked /\ s.infl = Len(ch) + Len(back)
WindowPositive == s.win >= 1
KeptFull == s.open => s.infl >= s.win
NeverIdle == s.open => ch # <<>> \/ back # <<>>
Limit == s.infl <= Max(Th, Max(1, (MaxTx * CNum) \div CDen))
BlockSync == ch # <<>> => LET m == Head(ch) IN IF m.nb THEN r.done ELSE m.id = r.id
SameBlock == s.open /\ ch = <<>> => r.id = s.id
Ended == Cardinality({k \in 1..Len(back) : back[k]}) <= 1
\* the end of a block is known to the sender or on its way
EndKnown == (r.done /\ s.open /\ r.id = s.id /\ ~\E k \in 1..Len(ch) : ch[k].nb) => \E k \in 1..Len(back) : back[k]
Drains == <>[](ch = <<>> /\ back = <<>> /\ ~s.open /\ s.buf < MinBlock)
=============================================================================
