----------------------------- MODULE NewsimTrace -----------------------------
(* Judges executions of the network simulation newsim recorded by
   harness/newsim: servers handling messages one at a time, with everything they
   send.  Messages in transit are kept here, in order, per direction of a link. *)
EXTENDS RibltCore, TraceBase, Samples

VARIABLES l,
          cf,     \* configuration: [alg, n, flood, ns, c8, links]
          map,    \* transaction -> coded symbols it contributes to (below 128)
          gen,    \* transactions generated so far
          fl,     \* of those, the ones that were flooded, by node
          rcv,    \* node -> transactions it has processed
          own,    \* node -> number of transactions it generated
          chan,   \* <<from, to>> -> messages in transit
          tx,     \* <<a, b>> -> sender of a coded link
          rx,     \* <<a, b>> -> receiver of a coded link (at b)
          pl,     \* <<a, b>> -> what a did towards b with the pull algorithm
          born,   \* transaction -> time of its generation
          st      \* node -> what it must have measured
vars == <<l, cf, map, gen, fl, rcv, own, chan, tx, rx, pl, born, st>>

MaxIdx == 128

Nodes == 1..cf.n
LinkSet(c) == Range(c.links)
Dirs(c) == LinkSet(c) \cup {<<d[2], d[1]>> : d \in LinkSet(c)}
Peers(i) == {d[2] : d \in {e \in DOMAIN chan : e[1] = i}}
Coding == cf.alg = "coding"

\* sender: buf transactions waiting for a block, blk the current block, n coded
\* symbols sent in it, open: a block is being sent, act: ever used, infl: unacknowledged,
\* win: send window * 8, ackc: acknowledgements of the current block, run: acknowledgements
\* of the current block are arriving, burst: coded symbols that open the block
\* recent: probes covered by the last blocks
FreshTx == [buf |-> {}, blk |-> {}, n |-> 0, open |-> FALSE, act |-> FALSE, infl |-> 0,
            win |-> 8, ackc |-> 0, run |-> FALSE, burst |-> 0, recent |-> <<>>]
\* receiver: buf transactions waiting, set: those in the block, blk: the set being
\* received, cnt: coded symbols received of the block, fin: block finished
FreshRx == [buf |-> {}, set |-> {}, blk |-> {}, cnt |-> 0, fin |-> FALSE]
\* counts since the last reset of transactions received, decoded, decoded again,
\* and bytes; latencies (microseconds) of those decoded after the warm-up
FreshStat == [rx |-> 0, dec |-> 0, dup |-> 0, bytes |-> 0, lat |-> <<>>]
FreshPull == [asked |-> {}, told |-> {}]

Init == /\ l = 1 /\ cf = [alg |-> "", n |-> 0, flood |-> FALSE, ns |-> 1, c8 |-> 0, links |-> <<>>]
        /\ born = <<>> /\ st = <<>>
        /\ map = <<>> /\ gen = {} /\ fl = <<>> /\ rcv = <<>> /\ own = <<>> /\ chan = <<>> /\ tx = <<>> /\ rx = <<>> /\ pl = <<>>
New(e) ==
  LET c == [alg |-> e.alg, n |-> e.n, flood |-> e.flood, ns |-> e.ns, c8 |-> e.c8, links |-> e.links, probes |-> e.probes,
             size |-> e.size, warm |-> e.warm, burst |-> e.burst,
             del |-> [d \in {<<e.links[k][1], e.links[k][2]>> : k \in 1..Len(e.del)} \cup {<<e.links[k][2], e.links[k][1]>> : k \in 1..Len(e.del)} |->
                        e.del[CHOOSE k \in 1..Len(e.del) : e.links[k] \in {d, <<d[2], d[1]>>}]]]
  IN /\ born' = <<>> /\ st' = [i \in 1..e.n |-> FreshStat] /\ cf' = c /\ map' = <<>> /\ gen' = {}
     /\ fl' = [i \in 1..e.n |-> {}] /\ rcv' = [i \in 1..e.n |-> {}] /\ own' = [i \in 1..e.n |-> 0]
     /\ chan' = [d \in Dirs(c) |-> <<>>]
     /\ tx' = [d \in LinkSet(c) |-> FreshTx] /\ rx' = [d \in LinkSet(c) |-> FreshRx]
     /\ pl' = [d \in Dirs(c) |-> FreshPull]

Tx(e) == map' = Put(map, e.x, Range(e.map)) /\ UNCHANGED <<cf, gen, fl, rcv, own, chan, tx, rx, pl, born, st>>

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
-----------------------------------------------------------------------------
To(e, p) == SelectSeq(e.outs, LAMBDA o : o.to = p)
Kind(q, k) == SelectSeq(q, LAMBDA o : o.k = k)

\* the size of a message, for overhead accounting
Size(m) == CASE m.k = "cw" -> cf.size + 24
             [] m.k = "ack" -> 8 + Len(m.txs) * cf.size
             [] m.k \in {"ann", "req"} -> 32
             [] m.k \in {"rsp", "ib"} -> cf.size
             [] OTHER -> 0

\* obligations of a node that hold whatever it handles: D is what it learned from
\* the message, sz the size of the message
Node(e, D, sz) ==
  LET i == e.node
      R == rcv[i] \cup Range(e.fresh)
      algp == IF Coding THEN {"C16"} ELSE {"C18"}
      self == e.ev = "gen"
      new == D \ rcv[i]
      s == [rx |-> st[i].rx + Cardinality(new),
            dec |-> st[i].dec + (IF self THEN 0 ELSE Cardinality(new)),
            dup |-> st[i].dup + Cardinality(D \cap rcv[i]),
            bytes |-> st[i].bytes + sz,
            lat |-> IF self \/ e.t < cf.warm THEN st[i].lat ELSE st[i].lat \o [k \in 1..Cardinality(new) |-> e.t - born[SetSeq(new)[k]]]]
  IN /\ st' = [st EXCEPT ![i] = TLCEval(s)]
     /\ ChkAny(l, algp \cup {"C24"}, "every transaction is processed once", e.rx \in {-1, s.rx} /\ e.dec \in {-1, s.dec})
     /\ Chk(l, "C24", "transactions received again are counted", e.dup \in {-1, s.dup})
     /\ Chk(l, "C24", "the size of every message received is counted", e.bytes \in {-1, s.bytes})
     /\ Chk(l, "C26", "messages between neighbours take the delay of the link",
            \A k \in 1..Len(e.outs) : LET o == e.outs[k] IN <<i, o.to>> \in DOMAIN cf.del /\ o.d = cf.del[<<i, o.to>>])
     /\ Chk(l, "C26", "every generation schedules exactly one next", e.again = IF self THEN << <<cf.burst, 1>> >> ELSE <<>>)
     /\ ChkAny(l, algp, "only generated transactions are received", Range(e.fresh) \subseteq gen')
     /\ ChkAny(l, algp, "a received transaction stays received", ~e.lost)
     /\ ChkAny(l, algp, "exactly the new transactions of the message are processed",
               NoDuplicates(e.fresh) /\ Range(e.fresh) = D \ rcv[i])
     /\ ChkAny(l, algp, "messages go to peers only, with their content",
               \A k \in 1..Len(e.outs) : LET o == e.outs[k] IN
                  /\ o.to \in Peers(i)
                  /\ o.k \in (IF Coding THEN {"cw", "ack", "ib"} ELSE {"ann", "req", "rsp", "ib"})
                  /\ o.k \in {"ann", "req", "rsp", "ib"} => o.x \in gen')
     /\ rcv' = [rcv EXCEPT ![i] = R]

\* coded symbols that node i sends on its link to p: sender state s0 before, with
\* forwarded transactions F
RECURSIVE Sends(_, _, _, _, _)
Sends(s, q, F0, F, k) ==
  IF k > Len(q) THEN [s |-> [s EXCEPT !.buf = @ \cup F, !.act = @ \/ F0 # {}], bad |-> ""]
  ELSE LET o == q[k] IN
    IF o.nb
    THEN LET in == Range(o.in)
             S == Range(o.s)
             burst == (s.ackc * 2) \div 3
             rec == Append(s.recent, Range(o.pin))
             last == IF Len(rec) > cf.ns THEN Tail(rec) ELSE rec
             t == [s EXCEPT !.blk = S, !.buf = @ \ S, !.n = 1, !.open = TRUE, !.act = TRUE, !.infl = 1,
                            !.win = Max(8, s.ackc * cf.c8), !.ackc = 0, !.burst = burst, !.recent = last]
         IN IF s.open THEN [s |-> s, bad |-> "block started before the previous one was acknowledged"]
            ELSE IF ~((s.buf \cap in) \subseteq S /\ S \subseteq ((s.buf \cup F) \cap in))
                 THEN [s |-> s, bad |-> "block holds every transaction of its shard range and no other"]
            ELSE IF ~(o.ok /\ o.cn = Cardinality(S)) THEN [s |-> s, bad |-> "first coded symbol of the block"]
            ELSE IF \E a, b \in 1..Len(last) : a < b /\ last[a] \cap last[b] # {} THEN [s |-> s, bad |-> "shards overlap"]
            ELSE IF Len(last) = cf.ns /\ UNION Range(last) # 1..cf.probes THEN [s |-> s, bad |-> "shards do not cover all hashes"]
            ELSE Sends(TLCEval(t), q, F0, F \ S, k + 1)
    ELSE IF ~s.open THEN [s |-> s, bad |-> "coded symbol of no block"]
    ELSE IF s.n < MaxIdx /\ ~(o.ok /\ [s |-> Range(o.s), n |-> o.cn] = CellOf(map, s.blk, s.n))
         THEN [s |-> s, bad |-> "coded symbol is not the next one of the block"]
    ELSE IF s.n > s.burst /\ ~(s.infl * 8 < s.win) THEN [s |-> s, bad |-> "more coded symbols in flight than the send window"]
    ELSE Sends([s EXCEPT !.n = @ + 1, !.infl = @ + 1], q, F0, F, k + 1)

\* an acknowledgement arrives at the sender
Acked(s, m) ==
  LET s1 == IF m.blk THEN [s EXCEPT !.open = FALSE, !.run = FALSE] ELSE s
      s2 == IF m.st THEN [s1 EXCEPT !.ackc = 0, !.run = TRUE] ELSE s1
  IN IF s2.run THEN [s2 EXCEPT !.ackc = @ + 1, !.infl = @ - 1, !.win = Max(8, @ + cf.c8)] ELSE s2

SenderStep(e, d, s0, F) == Sends(s0, Kind(To(e, d[2]), "cw"), F, F, 1)

CodedLinks(e, forw, txIn, rxIn) ==
  \* txIn, rxIn: link states after the incoming message was applied; forw[p]: set forwarded to p
  LET i == e.node
      mine == {d \in DOMAIN tx : d[1] = i}
      step == TLCEval([d \in mine |-> SenderStep(e, d, txIn[d], forw[d[2]])])
  IN /\ \A d \in mine : /\ ChkAny(l, {"C17"}, "link: " \o step[d].bad, step[d].bad = "")
                        /\ ChkAny(l, {"C16", "C17"}, "link: " \o step[d].bad,
                                  step[d].bad # "block holds every transaction of its shard range and no other")
                        /\ step[d].bad = ""
                        /\ ChkAny(l, {"C17"}, "an active link has something of the current block in flight",
                                  step[d].s.act => step[d].s.open /\ step[d].s.infl >= 1)
     /\ \A k \in 1..Len(e.outs) : e.outs[k].k = "cw" => <<i, e.outs[k].to>> \in DOMAIN tx
     /\ tx' = [d \in DOMAIN tx |-> IF d \in mine THEN step[d].s ELSE txIn[d]]
     /\ rx' = [d \in DOMAIN rx |-> IF d[2] = i THEN [rxIn[d] EXCEPT !.buf = @ \cup forw[d[1]]] ELSE rxIn[d]]

Deliver(e, c) ==
  [d \in DOMAIN c |-> IF d[1] = e.node THEN c[d] \o To(e, d[2]) ELSE c[d]]
NoAcks(e) == \A k \in 1..Len(e.outs) : e.outs[k].k # "ack"

-----------------------------------------------------------------------------
FloodedTo(Ibs, P, X) ==
  Len(Ibs) = Cardinality(P) * Cardinality(X) /\ {<<Ibs[k].to, Ibs[k].x>> : k \in 1..Len(Ibs)} = P \X X
\* the pull algorithm: node i heard of `heard' from p and was asked for `want' by p
PullLinks(e, from, F, kind, x) ==
  LET i == e.node
      R == rcv'[i]
      flooding == kind = "gen" /\ cf.flood
      P == Peers(i)
      Anns(p) == [k \in 1..Len(Kind(To(e, p), "ann")) |-> Kind(To(e, p), "ann")[k].x]
      Reqs == Kind(e.outs, "req")
      Rsps == Kind(e.outs, "rsp")
      Ibs == Kind(e.outs, "ib")
      needed == x \notin R /\ x \notin UNION {pl[<<i, p>>].asked : p \in P}
  IN /\ Chk(l, "C18", "a new transaction is announced once to every other peer",
            \A p \in P : NoDuplicates(Anns(p)) /\ Range(Anns(p)) = (IF p = from \/ flooding THEN {} ELSE F))
     /\ Chk(l, "C18", "a generated transaction is flooded to every peer",
            IF flooding THEN FloodedTo(Ibs, P, F) ELSE Ibs = <<>>)
     /\ Chk(l, "C18", "only an announced transaction that is needed is requested, once per peer",
            IF kind = "ann"
            THEN /\ Len(Reqs) <= 1
                 /\ \A k \in 1..Len(Reqs) : /\ Reqs[k].to = from /\ Reqs[k].x = x
                                            /\ x \notin pl[<<i, from>>].asked
                                            /\ x \notin rcv[i] \/ x \in fl[i]
                 /\ needed => Len(Reqs) = 1
            ELSE Reqs = <<>>)
     /\ Chk(l, "C18", "a request is answered with the announced transaction",
            IF kind = "req" THEN Len(Rsps) = 1 /\ Rsps[1].to = from /\ Rsps[1].x = x /\ x \in pl[<<i, from>>].told
            ELSE Rsps = <<>>)
     /\ pl' = [d \in DOMAIN pl |->
                 IF d[1] # i THEN pl[d]
                 ELSE [asked |-> pl[d].asked \cup {Reqs[k].x : k \in {j \in 1..Len(Reqs) : Reqs[j].to = d[2]}},
                       told |-> pl[d].told \cup Range(Anns(d[2]))]]

-----------------------------------------------------------------------------
Forward(i, F, from) == [p \in Peers(i) |-> IF p = from THEN {} ELSE F]

Gen(e) ==
  LET i == e.node
      X == Range(e.xs)
  IN
  /\ born' = TLCEval([y \in DOMAIN born \cup X |-> IF y \in X THEN e.t ELSE born[y]])
  /\ gen' = gen \cup X
  /\ own' = [own EXCEPT ![i] = @ + Cardinality(X)]
  /\ fl' = IF cf.flood THEN [fl EXCEPT ![i] = @ \cup X] ELSE fl
  /\ Node(e, X, 0)
  /\ IF Coding
     THEN /\ CodedLinks(e, Forward(i, IF cf.flood THEN {} ELSE X, 0), tx, rx)
          /\ Chk(l, "C17", "no acknowledgement without a coded symbol", NoAcks(e))
          /\ Chk(l, "C16", "a generated transaction is flooded to every peer",
                 LET Ibs == Kind(e.outs, "ib") IN IF cf.flood THEN FloodedTo(Ibs, Peers(i), X) ELSE Ibs = <<>>)
          /\ UNCHANGED pl
     ELSE PullLinks(e, 0, X, "gen", 0) /\ UNCHANGED <<tx, rx>>
  /\ chan' = Deliver(e, chan)
  /\ UNCHANGED <<cf, map>>

\* a coded symbol arrives: receiver state after the block was set up
Arrive(r, m, e) ==
  IF m.nb THEN [buf |-> r.buf \ Range(e.in), set |-> r.buf \cap Range(e.in), blk |-> Range(m.s), cnt |-> 1, fin |-> FALSE]
  ELSE [r EXCEPT !.cnt = @ + 1]
Codeword(e, m, d) ==
  LET i == e.node
      r0 == rx[d]
      acks == Kind(e.outs, "ack")
      stale == r0.fin /\ ~m.nb
      r == Arrive(r0, m, e)
      diff == Cardinality(SymDiff(r.set, r.blk))
      D == IF stale \/ Len(acks) # 1 THEN {} ELSE IF acks[1].blk THEN r.blk \ r.set ELSE {}
      F == D \ rcv[i]
      r2 == IF stale THEN r0 ELSE [r EXCEPT !.fin = Len(acks) = 1 /\ acks[1].blk]
  IN /\ IF stale THEN Chk(l, "C17", "no acknowledgement after the end of the block", acks = <<>>)
        ELSE /\ Chk(l, "C17", "a block begins after the previous one was finished", m.nb => (r0.fin \/ r0.cnt = 0))
             /\ Chk(l, "C17", "every coded symbol of the block is acknowledged once", Len(acks) = 1 /\ acks[1].to = d[1])
             /\ Chk(l, "C17", "the first acknowledgement of a block says so", acks[1].st = m.nb)
             /\ Chk(l, "C17", "the end of the block reports exactly what only the receiver has",
                    NoDuplicates(acks[1].txs) /\ Range(acks[1].txs) = (IF acks[1].blk THEN r.set \ r.blk ELSE {}))
             /\ Chk(l, "C17", "a block is finished within a linear number of coded symbols",
                    acks[1].blk \/ r.cnt < 3 * diff + 40)
             /\ Chk(l, "C17", "a finished block delivers exactly the difference",
                    Range(e.fresh) = F)
     /\ Node(e, D, Size(m))
     /\ CodedLinks(e, Forward(i, F, d[1]), tx, [rx EXCEPT ![d] = r2])
Ack(e, m, d) ==
  LET i == e.node
      F == Range(m.txs) \ rcv[i]
  IN /\ Chk(l, "C17", "no acknowledgement without a coded symbol", NoAcks(e))
     /\ Node(e, Range(m.txs), Size(m))
     /\ CodedLinks(e, Forward(i, F, d[2]), [tx EXCEPT ![d] = Acked(@, m)], rx)
Flooded(e, m, from) ==
  LET i == e.node  F == {m.x} \ rcv[i] IN
  /\ Node(e, {m.x}, Size(m))
  /\ IF Coding THEN /\ CodedLinks(e, Forward(i, F, from), tx, rx)
                    /\ Chk(l, "C17", "no acknowledgement without a coded symbol", NoAcks(e)) /\ UNCHANGED pl
     ELSE PullLinks(e, from, F, "ib", m.x) /\ UNCHANGED <<tx, rx>>

Msg(e) ==
  LET i == e.node
      c == <<e.from, i>>
      m == Head(chan[c])
  IN /\ UNCHANGED <<cf, map, gen, fl, own, born>>
     /\ CASE m.k = "cw" -> Codeword(e, m, c) /\ UNCHANGED pl
          [] m.k = "ack" -> Ack(e, m, <<i, e.from>>) /\ UNCHANGED pl
          [] m.k = "ib" -> Flooded(e, m, e.from)
          [] m.k = "ann" -> Node(e, {}, Size(m)) /\ PullLinks(e, e.from, {}, "ann", m.x) /\ UNCHANGED <<tx, rx>>
          [] m.k = "req" -> Node(e, {}, Size(m)) /\ PullLinks(e, e.from, {}, "req", m.x) /\ UNCHANGED <<tx, rx>>
          [] m.k = "rsp" -> Node(e, {m.x}, Size(m)) /\ PullLinks(e, e.from, {m.x} \ rcv[i], "rsp", m.x) /\ UNCHANGED <<tx, rx>>
     /\ chan' = Deliver(e, [chan EXCEPT ![c] = Tail(@)])

Same == UNCHANGED <<cf, map, gen, fl, rcv, own, chan, tx, rx, pl, born, st>>
Reset(e) == /\ st' = [i \in Nodes |-> [FreshStat EXCEPT !.lat = st[i].lat]]
            /\ UNCHANGED <<cf, map, gen, fl, rcv, own, chan, tx, rx, pl, born>>
Lat(e) ==
  /\ \A i \in Nodes :
       /\ Chk(l, "C24", "exactly the latencies after the warm-up are recorded", e.cnt[i] \in {-1, Len(st[i].lat)})
       /\ Chk(l, "C24", "latency quantiles", QuantilesOf(e.qs[i], Len(st[i].lat), st[i].lat))
  /\ Same
Fin(e) ==
  /\ LET Alone == {i \in Nodes : Peers(i) = {}}
         Want(i) == IF i \in Alone THEN rcv[i] ELSE gen \ UNION {rcv[j] : j \in Alone}
         All == \A i \in Nodes : Range(e.have[i]) = Want(i)
     IN IF Coding THEN Chk(l, "C16", "every transaction reaches every node", e.active => All)
        ELSE Chk(l, "C18", "every transaction reaches every node", e.drained /\ All)
  /\ Same
Integ(e) ==
  /\ ChkAny(l, IF Coding THEN {"C16"} ELSE {"C18"}, "every transaction reaches every node", e.missing = 0)
  /\ ChkAny(l, IF Coding THEN {"C16"} ELSE {"C18"}, "only generated transactions are received, each once", e.bad = 0 /\ e.once)
  /\ Same
Crash(e) == ChkAny(l, IF Coding THEN {"C16", "C17"} ELSE {"C18"}, "crash or hang: " \o e.why, FALSE) /\ Same

Step(e) ==
  CASE e.ev = "new" -> New(e)
    [] e.ev = "tx" -> Tx(e)
    [] e.ev = "gen" -> Gen(e)
    [] e.ev = "msg" -> Msg(e)
    [] e.ev = "fin" -> Fin(e)
    [] e.ev = "integ" -> Integ(e)
    [] e.ev = "lat" -> Lat(e)
    [] e.ev = "reset" -> Reset(e)
    [] e.ev = "early" -> Early(e, l)
    [] e.ev = "crash" -> Crash(e)
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
Note == Reached(l)
=============================================================================
