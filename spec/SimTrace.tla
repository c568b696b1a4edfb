------------------------------- MODULE SimTrace -------------------------------
(* Judges executions of the LT simulator recorded by harness/simulator: servers
   handling messages one at a time, with everything they send.  Messages in
   transit are kept here, in order, per direction of a link; time in microseconds. *)
EXTENDS TraceBase, Samples

VARIABLES l,
          cf,     \* [n, links, th, c, loss, intv, sync]: c and loss in 1/64
          total,  \* number of transactions generated
          known,  \* node -> transactions it has
          pend,   \* node -> (codeword number -> its members that are unknown)
          ncw,    \* codewords received so far (numbers them)
          fq,     \* node -> transactions waiting to be forwarded, [x, due]
          last,   \* node -> time of the last forward scheduled
          chan,   \* <<from, to>> -> messages in transit
          tx,     \* <<from, to>> -> sender
          rx,     \* <<from, to>> -> receiver (at `to')
          born,   \* transaction -> time of its generation
          st      \* node -> what it must have measured
vars == <<l, cf, total, known, pend, ncw, fq, last, chan, tx, rx, born, st>>

\* buf: handed over, in no block yet; blk: current block; open: being sent;
\* infl: codewords not acknowledged; win: send window
FreshTx(c) == [buf |-> {}, blk |-> {}, open |-> FALSE, infl |-> 0, win |-> c.th, used |-> FALSE]
\* ids: numbers of the codewords of the block; done: end acknowledged
FreshRx == [ids |-> {}, done |-> FALSE]

\* since the last reset: transactions decoded, codewords received; after the warm-up:
\* latencies (microseconds) and overlaps (millionths)
FreshStat == [dec |-> 0, cws |-> 0, lat |-> <<>>, ovl |-> <<>>]

Nodes == 1..cf.n
Dirs(c) == UNION {{<<c.links[k][1], c.links[k][2]>>, <<c.links[k][2], c.links[k][1]>>} : k \in 1..Len(c.links)}
MinBlock == (cf.th * 64) \div cf.c

Init == /\ l = 1 /\ cf = [n |-> 0, links |-> <<>>, th |-> 1, c |-> 64, loss |-> 0, intv |-> 0, sync |-> 0]
        /\ born = <<>> /\ st = <<>> /\ total = 0 /\ known = <<>> /\ pend = <<>> /\ ncw = 0 /\ fq = <<>> /\ last = <<>> /\ chan = <<>> /\ tx = <<>> /\ rx = <<>>
New(e) ==
  LET c == [n |-> e.n, links |-> e.links, th |-> e.th, c |-> e.c, loss |-> e.loss, intv |-> e.intv, sync |-> e.sync, warm |-> e.warm, ov |-> e.ov, burst |-> e.burst,
            del |-> [d \in {<<e.links[k][1], e.links[k][2]>> : k \in 1..Len(e.del)} \cup {<<e.links[k][2], e.links[k][1]>> : k \in 1..Len(e.del)} |->
                       e.del[CHOOSE k \in 1..Len(e.del) : e.links[k] \in {d, <<d[2], d[1]>>}]]]
  IN
  /\ born' = <<>> /\ st' = [i \in 1..e.n |-> FreshStat]
  /\ cf' = c /\ total' = 0 /\ ncw' = 0
  /\ known' = [i \in 1..e.n |-> {}] /\ pend' = [i \in 1..e.n |-> <<>>]
  /\ fq' = [i \in 1..e.n |-> <<>>] /\ last' = [i \in 1..e.n |-> 0]
  /\ chan' = [d \in Dirs(c) |-> <<>>] /\ tx' = [d \in Dirs(c) |-> FreshTx(c)] /\ rx' = [d \in Dirs(c) |-> FreshRx]

-----------------------------------------------------------------------------
To(e, p) == SelectSeq(e.outs, LAMBDA o : o.to = p)
Kind(q, k) == SelectSeq(q, LAMBDA o : o.k = k)
Peers(i) == {d[2] : d \in {x \in DOMAIN chan : x[1] = i}}

\* the codewords q that a sender in state s emits; may: it may start a block
RECURSIVE Sends(_, _, _)
Sends(s, q, may) ==
  LET full == s.infl >= s.win
      starts == ~s.open /\ may /\ Cardinality(s.buf) >= MinBlock
  IN IF q = <<>>
     THEN [s |-> s, bad |-> IF full THEN "" ELSE IF s.open THEN "not kept at the send window"
                            ELSE IF starts THEN "block not started" ELSE ""]
     ELSE LET o == Head(q) IN
       IF full THEN [s |-> s, bad |-> "more codewords in flight than the send window"]
       ELSE IF ~s.open /\ ~starts THEN [s |-> s, bad |-> "block started early"]
       ELSE IF o.nb # ~s.open THEN [s |-> s, bad |-> "first codeword of a block says so"]
       ELSE LET blk == IF s.open THEN s.blk ELSE s.buf
                t == [buf |-> IF s.open THEN s.buf ELSE {}, blk |-> blk, open |-> TRUE, infl |-> s.infl + 1, used |-> TRUE,
                      win |-> IF s.open THEN s.win ELSE Max(1, (Cardinality(s.buf) * cf.c) \div 64)]
            IN IF ~(o.ok /\ o.m # <<>> /\ NoDuplicates(o.m) /\ Range(o.m) \subseteq blk)
               THEN [s |-> s, bad |-> "codeword of transactions outside the block"]
               ELSE Sends(TLCEval(t), Tail(q), may)

\* senders of node i act; acting: those that may emit anything, in state t0
Senders(e, t0, acting, may) ==
  LET i == e.node
      mine == {d \in DOMAIN tx : d[1] = i}
      step == TLCEval([d \in acting |-> Sends(t0[d], Kind(To(e, d[2]), "cw"), may)])
  IN /\ \A d \in acting : ChkAny(l, IF step[d].bad \in {"codeword of transactions outside the block"} THEN {"C20"} ELSE {"C19", "C20"},
                                 "link: " \o step[d].bad, step[d].bad = "") /\ step[d].bad = ""
     /\ \A d \in mine \ acting : ChkAny(l, {"C19"}, "no codeword without a reason", Kind(To(e, d[2]), "cw") = <<>>)
     /\ tx' = [d \in DOMAIN tx |-> IF d \in acting THEN step[d].s ELSE t0[d]]

\* the messages of a node go where they may
Addressed(e) ==
  ChkAny(l, {"C19", "C20"}, "messages go to peers only",
         \A k \in 1..Len(e.outs) : LET o == e.outs[k] IN
            IF o.to = 0 THEN o.k \in {"lp", "tick"} ELSE o.to \in Peers(e.node) /\ o.k \in {"cw", "ack"})
\* what the node measures: D newly decoded, n codewords received
RECURSIVE Lats(_, _)
Lats(t, D) == IF D = {} THEN <<>> ELSE LET x == CHOOSE y \in D : TRUE IN <<t - born[x]>> \o Lats(t, D \ {x})
RECURSIVE Overlaps(_, _)
Overlaps(i, q) ==
  IF q = <<>> THEN <<>>
  ELSE IF Head(q).k = "cw" /\ Head(q).nb
       THEN LET B == tx'[<<i, Head(q).to>>].blk
            IN <<(Cardinality(B \cap known[Head(q).to]) * 1000000) \div Cardinality(B)>> \o Overlaps(i, Tail(q))
       ELSE Overlaps(i, Tail(q))
Measured(e, D, n) ==
  LET i == e.node
      warm == e.t >= cf.warm
      s == [dec |-> st[i].dec + Cardinality(D), cws |-> st[i].cws + n,
            lat |-> IF warm THEN st[i].lat \o Lats(e.t, D) ELSE st[i].lat,
            ovl |-> IF warm /\ cf.ov[i] THEN st[i].ovl \o Overlaps(i, e.outs) ELSE st[i].ovl]
  IN /\ st' = [st EXCEPT ![i] = TLCEval(s)]
     /\ Chk(l, "C24", "decoded transactions and received codewords are counted",
            e.dec \in {-1, s.dec} /\ e.cws \in {-1, s.cws})
     /\ Chk(l, "C26", "messages between neighbours take the delay of the link",
            \A k \in 1..Len(e.outs) : LET o == e.outs[k] IN o.to # 0 => <<i, o.to>> \in DOMAIN cf.del /\ o.d = cf.del[<<i, o.to>>])
     /\ Chk(l, "C26", "every generation schedules exactly one next",
            IF e.ev = "gen" THEN e.again = << <<Len(e.xs), 1>> >> \/ e.again = << <<cf.burst, 1>> >> ELSE e.again = <<>>)
NoAcks(e) == Chk(l, "C19", "no acknowledgement without a codeword", \A k \in 1..Len(e.outs) : e.outs[k].k # "ack")
Ticks(e, n) == ChkAny(l, {"C19", "C26"}, "the period of synchronised blocks goes on",
                   LET t == Kind(e.outs, "tick") IN Len(t) = n /\ \A k \in 1..n : t[k].d = cf.sync)
Travel(e, c) == [d \in DOMAIN c |-> IF d[1] = e.node THEN c[d] \o To(e, d[2]) ELSE c[d]]

\* transactions `new' of node i are scheduled to be forwarded
RECURSIVE Spaced(_, _, _)
Spaced(q, t, prev) ==
  IF q = <<>> THEN TRUE
  ELSE LET due == t + Head(q).d IN
       /\ Head(q).d >= 0
       /\ due = Max(t, prev + cf.intv)
       /\ Spaced(Tail(q), t, due)
Scheduled(e, new, ordered) ==
  LET i == e.node
      q == Kind(e.outs, "lp")
      xs == [k \in 1..Len(q) |-> q[k].x]
  IN /\ Chk(l, "C20", "every new transaction is scheduled for forwarding exactly once",
            NoDuplicates(xs) /\ Range(xs) = new /\ (Len(ordered) > 0 => xs = ordered))
     /\ Chk(l, "C20", "forwards are spaced, in order, and not delayed further", Spaced(q, e.t, last[i]))
     /\ fq' = [fq EXCEPT ![i] = @ \o [k \in 1..Len(q) |-> [x |-> q[k].x, due |-> e.t + q[k].d]]]
     /\ last' = IF q = <<>> THEN last ELSE [last EXCEPT ![i] = e.t + q[Len(q)].d]

-----------------------------------------------------------------------------
Gen(e) ==
  LET i == e.node IN
  /\ total' = Max(total, e.xs[Len(e.xs)])
  /\ known' = [known EXCEPT ![i] = @ \cup Range(e.xs)]
  /\ Chk(l, "C20", "every transaction is received once", e.rcv = Cardinality(known[i]) + Len(e.xs))
  /\ Addressed(e) /\ NoAcks(e) /\ Ticks(e, 0)
  /\ Senders(e, tx, {}, FALSE)
  /\ Scheduled(e, Range(e.xs), e.xs)
  /\ chan' = Travel(e, chan)
  /\ born' = [x \in Range(e.xs) |-> e.t] @@ born
  /\ Measured(e, {}, 0)
  /\ UNCHANGED <<cf, pend, ncw, rx>>

\* a message of the node to itself
Loop(e) ==
  LET i == e.node
      mine == {d \in DOMAIN tx : d[1] = i}
      t0 == TLCEval([d \in DOMAIN tx |-> IF d \in mine THEN [tx[d] EXCEPT !.buf = @ \cup {e.x}] ELSE tx[d]])
  IN /\ Chk(l, "C20", "transactions are forwarded in order and on time",
            fq[i] # <<>> /\ Head(fq[i]).x = e.x /\ Head(fq[i]).due = e.t)
     /\ fq' = [fq EXCEPT ![i] = Tail(@)]
     /\ Addressed(e) /\ NoAcks(e) /\ Ticks(e, 0)
     /\ Chk(l, "C20", "every new transaction is scheduled for forwarding exactly once", Kind(e.outs, "lp") = <<>>)
     /\ Senders(e, t0, mine, cf.sync = 0)
     /\ chan' = Travel(e, chan)
     /\ Measured(e, {}, 0)
     /\ UNCHANGED <<born, cf, total, known, pend, ncw, last, rx>>
Tick(e) ==
  LET mine == {d \in DOMAIN tx : d[1] = e.node} IN
  /\ Addressed(e) /\ NoAcks(e) /\ Ticks(e, 1)
  /\ Chk(l, "C20", "every new transaction is scheduled for forwarding exactly once", Kind(e.outs, "lp") = <<>>)
  /\ Senders(e, tx, mine, TRUE)
  /\ chan' = Travel(e, chan)
  /\ Measured(e, {}, 0)
  /\ UNCHANGED <<born, cf, total, known, pend, ncw, fq, last, rx>>

\* the transactions that can be recovered from codewords P (number -> unknown members)
RECURSIVE Close(_, _)
Close(P, got) ==
  LET ready == UNION {P[k] : k \in {j \in DOMAIN P : Cardinality(P[j]) = 1}} IN
  IF ready = {} THEN [P |-> P, got |-> got]
  ELSE LET Q == TLCEval([k \in {j \in DOMAIN P : ~(P[j] \subseteq ready)} |-> P[k] \ ready])
       IN Close(Q, TLCEval(got \cup ready))

Codeword(e, m, d) ==
  LET i == e.node
      k == ncw + 1
      unknown == Range(m.m) \ known[i]
      c == TLCEval(Close(IF unknown = {} THEN pend[i] ELSE (k :> unknown) @@ pend[i], {}))
      r == IF m.nb THEN [ids |-> {k}, done |-> FALSE] ELSE [rx[d] EXCEPT !.ids = @ \cup {k}]
      n == Cardinality(r.ids)
      undecoded == Cardinality(r.ids \cap DOMAIN c.P)
      finish == ~r.done /\ n > cf.th /\ undecoded <= (n * cf.loss) \div 64
      acks == Kind(e.outs, "ack")
  IN /\ ncw' = k
     /\ known' = [known EXCEPT ![i] = @ \cup c.got]
     /\ pend' = [pend EXCEPT ![i] = c.P]
     /\ Addressed(e) /\ Ticks(e, 0)
     /\ Chk(l, "C20", "every transaction is received once", e.rcv = Cardinality(known'[i]))
     /\ Chk(l, "C19", "every codeword is acknowledged exactly once", Len(acks) = 1 /\ acks[1].to = d[1])
     /\ Chk(l, "C19", "a block begins after the previous one ended", m.nb => (rx[d].ids = {} \/ rx[d].done))
     /\ Chk(l, "C19", "the end of a block is acknowledged exactly when enough codewords arrived and few are undecoded",
            acks[1].blk = finish)
     /\ rx' = [rx EXCEPT ![d] = [r EXCEPT !.done = @ \/ finish]]
     /\ Senders(e, tx, {}, FALSE)
     /\ Scheduled(e, c.got, <<>>)
     /\ Measured(e, c.got, 1)
     /\ UNCHANGED <<born, cf, total>>
Ack(e, m, d) ==
  LET t0 == TLCEval([tx EXCEPT ![d].infl = @ - 1, ![d].open = @ /\ ~m.blk]) IN
  /\ Addressed(e) /\ NoAcks(e) /\ Ticks(e, 0)
  /\ Chk(l, "C19", "codewords in flight equal sent minus acknowledged", t0[d].infl >= 0)
  /\ Chk(l, "C20", "every new transaction is scheduled for forwarding exactly once", Kind(e.outs, "lp") = <<>>)
  /\ Senders(e, t0, {d}, cf.sync = 0)
  /\ Measured(e, {}, 0)
  /\ UNCHANGED <<born, cf, total, known, pend, ncw, fq, last, rx>>

Msg(e) ==
  LET c == <<e.from, e.node>>
      m == Head(chan[c])
  IN /\ IF m.k = "cw" THEN Codeword(e, m, c) ELSE Ack(e, m, <<e.node, e.from>>)
     /\ chan' = Travel(e, [chan EXCEPT ![c] = Tail(@)])

Same == UNCHANGED <<cf, total, known, pend, ncw, fq, last, chan, tx, rx, born, st>>
Reset(e) == /\ st' = [i \in Nodes |-> [st[i] EXCEPT !.dec = 0, !.cws = 0]]
            /\ UNCHANGED <<cf, total, known, pend, ncw, fq, last, chan, tx, rx, born>>
Lat(e) ==
  /\ \A i \in Nodes :
       /\ Chk(l, "C24", "exactly the latencies after the warm-up are recorded", e.cnt[i] \in {-1, Len(st[i].lat)})
       /\ Chk(l, "C24", "latency quantiles", QuantilesOf(e.qs[i], Len(st[i].lat), st[i].lat))
       /\ Chk(l, "C24", "exactly the overlaps after the warm-up are recorded", e.ocnt[i] \in {-1, Len(st[i].ovl)})
       /\ Chk(l, "C24", "overlap quantiles", QuantilesOf(e.oqs[i], Len(st[i].ovl), st[i].ovl))
  /\ Same
Fin(e) ==
  /\ Chk(l, "C19", "blocks end and links drain", e.drained /\ (e.quiet \/ \A d \in DOMAIN tx : tx[d].infl = 0 /\ ~tx[d].open))
  /\ Chk(l, "C20", "no transaction is left waiting", e.quiet \/ \A i \in Nodes : fq[i] = <<>>)
  /\ Same
Integ(e) ==
  /\ Chk(l, "C20", "every transaction is received once", e.own = e.total /\ e.bad = 0)
  /\ Chk(l, "C19", "transactions spread", e.spread > 0)
  /\ Same
Crash(e) == ChkAny(l, {"C19", "C20"}, "crash or hang: " \o e.why, FALSE) /\ Same

Step(e) ==
  CASE e.ev = "new" -> New(e)
    [] e.ev = "gen" -> Gen(e)
    [] e.ev = "self" -> IF e.k = "lp" THEN Loop(e) ELSE Tick(e)
    [] e.ev = "msg" -> Msg(e)
    [] e.ev = "fin" -> Fin(e)
    [] e.ev = "integ" -> Integ(e)
    [] e.ev = "lat" -> Lat(e)
    [] e.ev = "reset" -> Reset(e)
    [] e.ev = "early" -> Early(e, l)
    [] e.ev = "crash" -> Crash(e)
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
Note == Reached(l)
=============================================================================
