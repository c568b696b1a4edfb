------------------------------ MODULE NodeQueues ------------------------------
(* Design specification of the goroutines of the network node and the bounded
   queues between them: the controller, and per peer the decoding and the sending
   goroutine.  Transactions are anonymous; what matters is who waits for whom.
   Careful = FALSE is a decoder that hands over decoded transactions without
   accepting new ones meanwhile: it deadlocks. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NP,       \* peers
          CapDec,   \* queue of decoded transactions
          CapTx,    \* queues of new transactions, two per peer
          CapLoss,
          Locals,   \* local transactions
          Cws,      \* codewords that arrive from each peer
          MaxBurst, \* transactions decoded at once
          MaxDec,   \* transactions decoded altogether
          Careful

P == 1..NP
VARIABLES local, decq, ctl, txS, txR, loss, rx, cws, total, gotS, gotR, made
vars == <<local, decq, ctl, txS, txR, loss, rx, cws, total, gotS, gotR, made>>
\* ctl: offers that the controller has yet to make, <<peer, to the encoder?>>, in order
\* decq: sequence of expired?; rx[p]: [st, k]: idle / reporting a loss / delivering k transactions
\* made: transactions distributed [all, fresh]
Init == /\ local = Locals /\ decq = <<>> /\ ctl = <<>> /\ txS = [p \in P |-> 0] /\ txR = [p \in P |-> 0]
        /\ loss = [p \in P |-> 0] /\ rx = [p \in P |-> [st |-> "idle", k |-> 0]]
        /\ cws = [p \in P |-> Cws] /\ total = 0 /\ gotS = [p \in P |-> 0] /\ gotR = [p \in P |-> 0]
        /\ made = [all |-> 0, fresh |-> 0]

RECURSIVE Offers(_, _)
Offers(p, exp) == IF p > NP THEN <<>> ELSE (IF exp THEN <<<<p, FALSE>>>> ELSE <<<<p, TRUE>>, <<p, FALSE>>>>) \o Offers(p + 1, exp)
Begin(exp) == /\ ctl' = Offers(1, exp)
              /\ made' = [all |-> made.all + 1, fresh |-> made.fresh + (IF exp THEN 0 ELSE 1)]
CtlLocal == ctl = <<>> /\ local > 0 /\ local' = local - 1 /\ Begin(FALSE)
            /\ UNCHANGED <<decq, txS, txR, loss, rx, cws, total, gotS, gotR>>
CtlDecoded == ctl = <<>> /\ decq # <<>> /\ decq' = Tail(decq) /\ Begin(Head(decq))
              /\ UNCHANGED <<local, txS, txR, loss, rx, cws, total, gotS, gotR>>
CtlOffer == /\ ctl # <<>>
            /\ LET p == Head(ctl)[1] IN
               IF Head(ctl)[2] THEN txS[p] < CapTx /\ txS' = [txS EXCEPT ![p] = @ + 1] /\ UNCHANGED txR
               ELSE txR[p] < CapTx /\ txR' = [txR EXCEPT ![p] = @ + 1] /\ UNCHANGED txS
            /\ ctl' = Tail(ctl) /\ UNCHANGED <<local, decq, loss, rx, cws, total, gotS, gotR, made>>
\* the sending goroutine never waits for others of the node
SndTx(p) == txS[p] > 0 /\ txS' = [txS EXCEPT ![p] = @ - 1] /\ gotS' = [gotS EXCEPT ![p] = @ + 1]
            /\ UNCHANGED <<local, decq, ctl, txR, loss, rx, cws, total, gotR, made>>
SndLoss(p) == loss[p] > 0 /\ loss' = [loss EXCEPT ![p] = @ - 1]
              /\ UNCHANGED <<local, decq, ctl, txS, txR, rx, cws, total, gotS, gotR, made>>
\* the decoding goroutine
RcvCw(p) == rx[p].st = "idle" /\ cws[p] > 0 /\ cws' = [cws EXCEPT ![p] = @ - 1]
            /\ rx' = [rx EXCEPT ![p].st = "loss"]
            /\ UNCHANGED <<local, decq, ctl, txS, txR, loss, total, gotS, gotR, made>>
Yield(p, k) == total + k <= MaxDec /\ total' = total + k
RcvLoss(p) == /\ rx[p].st = "loss" /\ loss[p] < CapLoss /\ loss' = [loss EXCEPT ![p] = @ + 1]
              /\ \E k \in 0..MaxBurst : /\ Yield(p, k)
                                        /\ rx' = [rx EXCEPT ![p] = [st |-> IF k = 0 THEN "idle" ELSE "del", k |-> k]]
              /\ UNCHANGED <<local, decq, ctl, txS, txR, cws, gotS, gotR, made>>
RcvTx(p) == /\ txR[p] > 0 /\ (rx[p].st = "idle" \/ (Careful /\ rx[p].st = "del"))
            /\ txR' = [txR EXCEPT ![p] = @ - 1] /\ gotR' = [gotR EXCEPT ![p] = @ + 1]
            /\ \E k \in 0..MaxBurst : /\ Yield(p, k)
                                      /\ rx' = [rx EXCEPT ![p] = [st |-> IF @.k + k = 0 THEN "idle" ELSE "del", k |-> @.k + k]]
            /\ UNCHANGED <<local, decq, ctl, txS, loss, cws, gotS, made>>
RcvDeliver(p) == /\ rx[p].st = "del" /\ Len(decq) < CapDec
                 /\ \E exp \in BOOLEAN : decq' = Append(decq, exp)
                 /\ rx' = [rx EXCEPT ![p] = [st |-> IF @.k = 1 THEN "idle" ELSE "del", k |-> @.k - 1]]
                 /\ UNCHANGED <<local, ctl, txS, txR, loss, cws, total, gotS, gotR, made>>
Ctl == CtlLocal \/ CtlDecoded \/ CtlOffer
Snd(p) == SndTx(p) \/ SndLoss(p)
Rcv(p) == RcvCw(p) \/ RcvLoss(p) \/ RcvTx(p) \/ RcvDeliver(p)
Next == Ctl \/ \E p \in P : Snd(p) \/ Rcv(p)
\* select chooses fairly among what is ready
Spec == Init /\ [][Next]_vars /\ WF_vars(CtlLocal) /\ WF_vars(CtlDecoded) /\ WF_vars(CtlOffer)
        /\ \A p \in P : WF_vars(SndTx(p)) /\ WF_vars(SndLoss(p)) /\ WF_vars(RcvCw(p)) /\ WF_vars(RcvLoss(p)) /\ WF_vars(RcvTx(p)) /\ WF_vars(RcvDeliver(p))
-----------------------------------------------------------------------------
Quiet == /\ local = 0 /\ decq = <<>> /\ ctl = <<>>
         /\ \A p \in P : txS[p] = 0 /\ txR[p] = 0 /\ loss[p] = 0 /\ rx[p].st = "idle" /\ cws[p] = 0
NoDeadlock == Quiet \/ ENABLED Next
Bounded == Len(decq) <= CapDec /\ \A p \in P : txS[p] <= CapTx /\ txR[p] <= CapTx /\ loss[p] <= CapLoss
\* what was distributed reached everybody, or is on its way
Offered(p, enc) == Cardinality({i \in 1..Len(ctl) : ctl[i] = <<p, enc>>})
Everyone == \A p \in P : /\ gotS[p] + txS[p] + Offered(p, TRUE) = made.fresh
                         /\ gotR[p] + txR[p] + Offered(p, FALSE) = made.all
RECURSIVE SumK(_)
SumK(p) == IF p = 0 THEN 0 ELSE rx[p].k + SumK(p - 1)
NoneLost == made.all + Len(decq) + SumK(NP) = (Locals - local) + total
AllDone == <>[]Quiet
=============================================================================
