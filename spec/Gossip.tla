-------------------------------- MODULE Gossip --------------------------------
(* Design specification of gossip over coded links (newsim).  A link <<a, b>> has
   its sender at a and its receiver at b; both directions deliver in order.
   The codec is abstracted: a coded symbol stands for the set of its block, and
   the receiver can recover the difference after any number of coded symbols of
   the block between 1 and MaxNeed. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N, Links, Tx, NS, W, MaxBurst, MaxNeed, ShardOf, GenBy

VARIABLES rcv, gend, s, r, ch, back
vars == <<rcv, gend, s, r, ch, back>>

OneLink == {<<1, 2>>}
Line == {<<1, 2>>, <<3, 2>>}
Chain == {<<1, 2>>, <<2, 3>>}
Ring == {<<1, 2>>, <<2, 3>>, <<3, 1>>}
Shards2 == [x \in Tx |-> x % NS]
Gen2 == [x \in Tx |-> 1 + (x % N)]

Nodes == 1..N
SymDiff(a, b) == (a \ b) \cup (b \ a)
Mine(S, k) == {x \in S : ShardOf[x] = k}

\* sender: shard is the shard of the current block, id tells blocks apart
Init == /\ rcv = [i \in Nodes |-> {}] /\ gend = {}
        /\ s = [d \in Links |-> [buf |-> {}, blk |-> {}, shard |-> NS - 1, id |-> 0, open |-> FALSE, act |-> FALSE,
                                 infl |-> 0, run |-> FALSE]]
        /\ r = [d \in Links |-> [buf |-> {}, set |-> {}, blk |-> {}, id |-> 0, cnt |-> 0, fin |-> TRUE]]
        /\ ch = [d \in Links |-> <<>>] /\ back = [d \in Links |-> <<>>]

Cw(t, nb) == [nb |-> nb, S |-> t.blk, shard |-> t.shard, id |-> t.id]
\* the sender fills its window; b coded symbols open a block.  Yields [t, out].
RECURSIVE More(_, _)
More(t, out) == IF t.infl < W THEN More([t EXCEPT !.infl = @ + 1], Append(out, Cw(t, FALSE))) ELSE [t |-> t, out |-> out]
Fill(t, b) ==
  IF t.open THEN More(t, <<>>)
  ELSE LET k == (t.shard + 1) % NS
           u == [t EXCEPT !.shard = k, !.blk = Mine(t.buf, k), !.buf = @ \ Mine(t.buf, k), !.open = TRUE, !.act = TRUE,
                          !.id = (@ + 1) % 4, !.infl = 1 + b]
       IN More(u, <<Cw(u, TRUE)>> \o [i \in 1..b |-> Cw(u, FALSE)])

\* node i passes the new transactions F on to all links but `not'; sd: senders
\* that act because of the message as well; b: bursts
Pass(i, F, not, ss, rr, acting, b) ==
  LET mine == {d \in Links : d[1] = i}
      t1 == [d \in Links |-> IF d \in mine /\ d # not THEN [ss[d] EXCEPT !.buf = @ \cup F] ELSE ss[d]]
      go == {d \in mine : d \in acting \/ (F # {} /\ d # not)}
      f == TLCEval([d \in go |-> Fill(t1[d], b)])
  IN /\ s' = [d \in Links |-> IF d \in go THEN f[d].t ELSE t1[d]]
     /\ r' = [d \in Links |-> IF d[2] = i /\ d # not THEN [rr[d] EXCEPT !.buf = @ \cup F] ELSE rr[d]]
     /\ rcv' = [rcv EXCEPT ![i] = @ \cup F]
     /\ ch' = [d \in Links |-> IF d \in go THEN ch[d] \o f[d].out ELSE ch[d]]

NoLink == <<0, 0>>
Generate(x) ==
  /\ x \notin gend
  /\ gend' = gend \cup {x}
  /\ Pass(GenBy[x], {x}, NoLink, s, r, {}, 0)
  /\ UNCHANGED back

DeliverCw(d) ==
  /\ ch[d] # <<>>
  /\ LET m == Head(ch[d])
         r0 == r[d]
         c == [ch EXCEPT ![d] = Tail(@)]
         mine == Mine(r0.buf, m.shard)
         r1 == IF m.nb THEN [buf |-> r0.buf \ mine, set |-> mine, blk |-> m.S, id |-> m.id, cnt |-> 1, fin |-> FALSE]
               ELSE [r0 EXCEPT !.cnt = @ + 1]
     IN IF r0.fin /\ ~m.nb
        THEN ch' = c /\ UNCHANGED <<rcv, gend, s, r, back>>
        ELSE \E done \in BOOLEAN :
               /\ r1.cnt >= MaxNeed => done
               /\ LET ack == [st |-> m.nb, blk |-> done, txs |-> IF done THEN r1.set \ r1.blk ELSE {}]
                      F == IF done THEN (r1.blk \ r1.set) \ rcv[d[2]] ELSE {}
                      r2 == IF done THEN [r1 EXCEPT !.fin = TRUE, !.set = {}, !.blk = {}, !.cnt = 0] ELSE r1
                      i == d[2]
                      t1 == [e \in Links |-> IF e[1] = i THEN [s[e] EXCEPT !.buf = @ \cup F] ELSE s[e]]
                      go == {e \in Links : e[1] = i /\ F # {}}
                      f == TLCEval([e \in go |-> Fill(t1[e], 0)])
                  IN /\ s' = [e \in Links |-> IF e \in go THEN f[e].t ELSE t1[e]]
                     /\ r' = [e \in Links |-> IF e = d THEN r2 ELSE IF e[2] = i THEN [r[e] EXCEPT !.buf = @ \cup F] ELSE r[e]]
                     /\ rcv' = [rcv EXCEPT ![i] = @ \cup F]
                     /\ ch' = [e \in Links |-> IF e \in go THEN c[e] \o f[e].out ELSE c[e]]
                     /\ back' = [back EXCEPT ![d] = Append(@, ack)]
                     /\ UNCHANGED gend
DeliverAck(d) ==
  /\ back[d] # <<>>
  /\ LET m == Head(back[d])
         t0 == s[d]
         t1 == IF m.blk THEN [t0 EXCEPT !.open = FALSE, !.run = FALSE] ELSE t0
         t2 == IF m.st THEN [t1 EXCEPT !.run = TRUE] ELSE t1
         t3 == IF t2.run THEN [t2 EXCEPT !.infl = @ - 1] ELSE t2
     IN \E b \in 0..MaxBurst :
          /\ b > 0 => m.blk
          /\ Pass(d[1], m.txs \ rcv[d[1]], d, [s EXCEPT ![d] = t3], r, {d}, b)
          /\ back' = [back EXCEPT ![d] = Tail(@)]
          /\ UNCHANGED gend

Next == \/ \E x \in Tx : Generate(x)
        \/ \E d \in Links : DeliverCw(d) \/ DeliverAck(d)
Spec == Init /\ [][Next]_vars
        /\ \A x \in Tx : WF_vars(Generate(x))
        /\ \A d \in Links : WF_vars(DeliverCw(d)) /\ WF_vars(DeliverAck(d))
-----------------------------------------------------------------------------
\* C16
Sound == \A i \in Nodes : rcv[i] \subseteq gend
\* every transaction a node holds is, on each of its links, waiting, in a block, or shared
Everywhere == <>[](\A i \in Nodes : rcv[i] = Tx)
\* C17
Fresh(d) == SelectSeq(ch[d], LAMBDA m : m.id = s[d].id)
Rng(q) == {q[i] : i \in 1..Len(q)}
BlockSync == \A d \in Links : ch[d] # <<>> =>
  LET m == Head(ch[d]) IN
  /\ (m.nb => r[d].fin)
  /\ ((~m.nb /\ ~r[d].fin) => m.id = r[d].id)
InFlight == \A d \in Links :
  LET t == s[d] IN
  (t.act /\ ~\E k \in 1..Len(back[d]) : back[d][k].blk) =>
     /\ t.open /\ t.infl >= 1
     /\ t.infl = Cardinality({k \in 1..Len(ch[d]) : ch[d][k].id = t.id}) + Len(back[d])
Bounded == \A d \in Links : s[d].infl <= (IF W > 1 + MaxBurst THEN W ELSE 1 + MaxBurst)
                            /\ Len(ch[d]) <= 2 * (W + 1 + MaxBurst) /\ Len(back[d]) <= 2 * (W + 1 + MaxBurst)
NoStall == \A d \in Links : s[d].act => ch[d] # <<>> \/ back[d] # <<>>
\* a transaction held by one end only is never dropped by that end
Kept == \A d \in Links : \A x \in gend :
  (x \in rcv[d[1]] /\ x \notin rcv[d[2]]) =>
      x \in s[d].buf \/ x \in s[d].blk \/ (\E k \in 1..Len(back[d]) : x \in back[d][k].txs)
KeptBack == \A d \in Links : \A x \in gend :
  (x \in rcv[d[2]] /\ x \notin rcv[d[1]]) =>
      x \in r[d].buf \/ x \in r[d].set \/ (\E k \in 1..Len(back[d]) : x \in back[d][k].txs)
=============================================================================
