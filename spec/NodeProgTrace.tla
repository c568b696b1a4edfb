----------------------------- MODULE NodeProgTrace -----------------------------
(* Judges runs of the node program recorded by harness/nodeprog: processes, the
   peers they are connected to being the driver's (or each other).
   Rates are in 1/64 codewords per second, printed numbers in hundredths, times in
   microseconds since the session began. *)
EXTENDS TraceBase

VARIABLES l, kd,    \* kind of session
          node,     \* process -> options
          con,      \* connection -> its state
          D, pend,  \* transactions given to the processes that can be decoded; codewords that cannot
          own,      \* transactions of the processes themselves -> time of generation
          tot, npeer, warm, done, quiet,
          lines     \* latencies printed after `done'
vars == <<l, kd, node, con, D, pend, own, tot, npeer, warm, done, quiet, lines>>
P == "C28"

Init == l = 1 /\ kd = "" /\ node = <<>> /\ con = <<>> /\ D = {} /\ pend = {} /\ own = <<>> /\ tot = <<>> /\ npeer = <<>>
        /\ warm = <<>> /\ done = FALSE /\ quiet = -1 /\ lines = 0
New(e) == kd' = e.kind /\ node' = <<>> /\ con' = <<>> /\ D' = {} /\ pend' = {} /\ own' = <<>> /\ tot' = <<>> /\ npeer' = <<>>
        /\ warm' = <<>> /\ done' = FALSE /\ quiet' = -1 /\ lines' = 0
Same == UNCHANGED <<kd, node, con, D, pend, own, tot, npeer, warm, done, quiet, lines>>

-----------------------------------------------------------------------------
\* connections
Node(e) == node' = Put(node, e.i, e) /\ tot' = Put(tot, e.i, 0) /\ npeer' = Put(npeer, e.i, 0) /\ UNCHANGED <<kd, con, D, pend, own, warm, done, quiet, lines>>
Conn(e) ==
  /\ Chk(l, P, "every connection has a key of its own", \A c \in DOMAIN con : con[c].i = e.i => con[c].theirs # e.theirs)
  /\ con' = Put(con, e.c, [i |-> e.i, dir |-> e.dir, ours |-> e.ours, theirs |-> e.theirs, delay |-> e.delay,
                           sent |-> 0, recv |-> 0, lossSent |-> 0, lossGot |-> 0, rates |-> 0, drop |-> 0, steady |-> FALSE, cand |-> 0, n |-> 0, first |-> 0, last |-> 0, used |-> {}])
  /\ UNCHANGED <<kd, node, D, pend, own, tot, npeer, warm, done, quiet, lines>>
NoKey(e) == Chk(l, P, "connections to every listed address and from every peer are made, whatever other peers do: " \o e.why, FALSE) /\ Same
Extra(e) == Chk(l, P, "one connection to every listed address", e.n = 0) /\ Same
Wired(e) == Chk(l, P, "the programs connect to each other", e.ok) /\ Same
Died(e) == Chk(l, P, "the program goes on: " \o e.why, FALSE) /\ Same
Cut(e) == Chk(l, P, "connections stay: " \o e.why, FALSE) /\ Same
Keys(e) == Chk(l, P, "the keys printed are those exchanged", e.ours = con[e.c].theirs /\ e.theirs = con[e.c].ours) /\ Same
Peers(e) == npeer' = [npeer EXCEPT ![e.i] = e.n] /\ UNCHANGED <<kd, node, con, D, pend, own, tot, warm, done, quiet, lines>>

-----------------------------------------------------------------------------
\* transactions
RECURSIVE Peel(_, _)
Peel(Q, K) ==
  LET one == {q \in Q : Cardinality(q) = 1} IN
  IF one = {} THEN <<Q \ {{}}, K>>
  ELSE LET new == UNION one IN Peel({q \ new : q \in Q}, K \cup new)
Send(e) ==
  LET r == TLCEval(Peel(pend \cup {Range(e.m) \ D}, D)) IN
  /\ pend' = r[1] /\ D' = r[2]
  /\ con' = [con EXCEPT ![e.c].sent = @ + 1, ![e.c].lossSent = @ + e.loss,
                        ![e.c].cand = @ + (IF Range(e.m) \subseteq r[2] THEN 0 ELSE 1)]
  /\ UNCHANGED <<kd, node, own, tot, npeer, warm, done, quiet, lines>>

Own(e) ==
  /\ Chk(l, P, "generated transactions are distinct", e.distinct = Len(e.x))
  /\ Chk(l, P, "transactions are generated only where that is asked for", kd # "gen" => e.x = <<>>)
  /\ own' = [k \in Range(e.x) |-> e.st[CHOOSE j \in 1..Len(e.x) : e.x[j] = k]]
  /\ UNCHANGED <<kd, node, con, D, pend, tot, npeer, warm, done, quiet, lines>>

\* a codeword from a program
Got(e) ==
  LET c == con[e.c]  k == node[c.i]  ms == Range(e.m) \ {0} IN
  /\ Chk(l, P, "codewords combine at most K transactions", Len(e.m) <= k.k)
  /\ Chk(l, P, "codewords combine transactions given to the program or generated by it",
         /\ ms \subseteq D \cup DOMAIN own
         /\ (kd # "gen" => 0 \notin Range(e.m))
         /\ (kd # "mem" => NoDuplicates(SelectSeq(e.m, LAMBDA x : x # 0))))
  /\ Chk(l, P, "codewords are the sum of their transactions", e.ok)
  /\ Chk(l, P, "codewords leave in the order in which they are made", c.n > 0 => e.at >= c.last)
  /\ Chk(l, P, "transactions carry the time of their generation", \A x \in ms \cap DOMAIN own : own[x] <= e.at /\ own[x] >= k.t - 3000000)
  /\ Chk(l, P, "losses are reported for codewords that could not be decoded only", c.lossGot + e.loss <= c.cand)
  /\ Chk(l, P, "the window holds the last K transactions",
         kd = "window" /\ quiet >= 0 /\ e.at > quiet => \A x \in ms : x > Cardinality(D) - k.k)
  /\ con' = [con EXCEPT ![e.c].n = @ + 1, ![e.c].last = e.at, ![e.c].first = (IF c.n = 0 THEN e.at ELSE @),
                        ![e.c].lossGot = @ + e.loss, ![e.c].used = @ \cup ms]
  /\ UNCHANGED <<kd, node, D, pend, own, tot, npeer, warm, done, quiet, lines>>

-----------------------------------------------------------------------------
\* what the programs print
Abs(x) == IF x < 0 THEN -x ELSE x
Near(v, r) == Abs(v * 64 - r * 100) <= 96
Total(e) ==
  /\ Chk(l, P, "the number of transactions decoded never shrinks", e.n >= tot[e.i])
  /\ Chk(l, P, "a transaction counts once", kd \in {"chain", "mem"} \/ e.n <= Cardinality(D))
  /\ tot' = [tot EXCEPT ![e.i] = e.n]
  /\ UNCHANGED <<kd, node, con, D, pend, own, npeer, warm, done, quiet, lines>>
Rate(e) ==
  LET c == con[e.c]  k == node[c.i]  r0 == Max(k.init, k.min)
      At(n, L) == Near(e.v, Max(k.min, r0 + k.inc * L - k.dec * n))
      Ls == IF e.settled THEN {c.lossSent} ELSE 0..c.lossSent
  IN /\ Chk(l, P, "the printed codeword rate is that of the options, the losses reported and the codewords sent",
            CASE k.dec = 0 \/ kd = "chain" -> \E L \in Ls : At(0, L)
              [] e.full -> \E n \in e.lo .. e.hi, L \in Ls : At(n, L)
              [] OTHER -> TRUE)
     /\ Chk(l, P, "nothing is dropped while the peer reads", kd = "held" \/ e.dropped = 0)
     /\ con' = [con EXCEPT ![e.c].rates = @ + 1, ![e.c].drop = e.dropped, ![e.c].steady = (e.dropped = con[e.c].drop)]
     /\ UNCHANGED <<kd, node, D, pend, own, tot, npeer, warm, done, quiet, lines>>
Slack == 800000
In(v, d) == v >= d - d \div 200 /\ v <= d + d \div 200 + Slack
Recv(e) ==
  LET c == con[e.c]  d == c.delay * 100 IN
  /\ Chk(l, P, "the number of codewords received", e.n >= c.recv /\ e.n <= e.sent)
  /\ Chk(l, P, "the delays printed are those of the codewords of the last second",
         IF e.n = c.recv THEN e.med = -100 /\ e.p95 = -100 ELSE In(e.med, d) /\ In(e.p95, d) /\ In(e.mean, d))
  /\ con' = [con EXCEPT ![e.c].recv = e.n]
  /\ UNCHANGED <<kd, node, D, pend, own, tot, npeer, warm, done, quiet, lines>>
Generated(e) ==
  LET k == node[e.i] IN
  /\ Chk(l, P, "the number of transactions generated", LET s == (e.t - k.t) \div 1000000   \* seconds since the start, rounded up
         IN e.n >= e.lo /\ (s > 4 => 2 * e.n >= k.tx * (s - 3)) /\ 2 * e.n <= 3 * k.tx * (s + 2) + 50)
  /\ Same
Warm(e) ==
  /\ Chk(l, P, "the warm-up lasts as long as asked for", e.i \notin DOMAIN warm /\ e.t - node[e.i].t >= node[e.i].warm - 100000 /\ e.t - node[e.i].t <= node[e.i].warm + 5000000)
  /\ warm' = Put(warm, e.i, tot[e.i])
  /\ UNCHANGED <<kd, node, con, D, pend, own, tot, npeer, done, quiet, lines>>
\* ages in the session: a fifth 10 s, a fifth 40 s, the others 20 s
Lat(e) ==
  LET before == warm[e.i]  n == tot[e.i] - before IN
  /\ Chk(l, P, "latencies are collected after the warm-up", e.i \in DOMAIN warm /\ e.n <= tot[e.i])
  \* the total is printed at the same moment
  /\ Chk(l, P, "latencies of all transactions since the warm-up", e.n = n)
  /\ Chk(l, P, "quantiles of the latencies",
         done => In(e.p5, 1000000) /\ In(e.p50, 2000000) /\ In(e.p95, 4000000)
                            /\ LET f == n \div 5 IN In(e.mean, ((5000 * f + 2000 * (n - 2 * f)) * 1000) \div n))
  /\ lines' = IF done THEN lines + 1 ELSE lines
  /\ UNCHANGED <<kd, node, con, D, pend, own, tot, npeer, warm, done, quiet>>
Done(e) == done' = TRUE /\ UNCHANGED <<kd, node, con, D, pend, own, tot, npeer, warm, quiet, lines>>
Quiet(e) == quiet' = e.t /\ UNCHANGED <<kd, node, con, D, pend, own, tot, npeer, warm, done, lines>>
Deg(e) ==
  /\ Chk(l, P, "degrees are distributed as the options say",
         \A i \in 1..Len(e.obs) : LET d == Abs((e.obs[i] * 10000) \div e.num - e.exp[i])
                                  IN d * d <= (36 * e.exp[i] * (10000 - e.exp[i])) \div e.num + 3600)
  /\ Same

-----------------------------------------------------------------------------
\* gaps between generated transactions are exponentially distributed with the rate
Gaps(k) ==
  LET ts == TLCEval(SortSeq([i \in 1..Cardinality(DOMAIN own) |-> own[1000 + i]], <))
      n == Len(ts) - 1
      short == Cardinality({i \in 1..n : ts[i+1] - ts[i] < 693147 \div k.tx})
  IN n >= 60 /\ (n >= 100 => 10 * short >= 3 * n /\ 10 * short <= 7 * n)
\* the codeword rate holds over the whole session
Speed(c) ==
  LET k == node[c.i]  top == Max(k.init, k.min) + k.inc * c.lossSent
      ms == (c.last - c.first) \div 1000
  IN c.n > 10 /\ kd # "held" => /\ (c.n - 4) * 64 <= (top * (ms + 50)) \div 1000 + 64
                 /\ (k.dec = 0 => 10 * c.n * 64 >= 3 * ((Max(k.init, k.min) * ms) \div 1000))
\* codewords that were sent and codewords that were dropped are those of the rate
Drops(c) == LET want == (Max(node[c.i].init, node[c.i].min) * ((c.last - c.first) \div 1000)) \div 64000
            IN c.n > 1 /\ c.steady => c.n + c.drop >= want - want \div 4 /\ c.n + c.drop <= want + want \div 20 + 60
End(e) ==
  LET late == IF Has(e, "late") THEN Range(e.late) ELSE {}
      need(c) == IF kd = "window" THEN {x \in D : x > Cardinality(D) - node[con[c].i].k} ELSE IF kd \in {"deg", "mem"} THEN {} ELSE D \ late
      judged == kd # "gen"
  IN /\ Chk(l, P, "all transactions given to the programs can be decoded", Cardinality(D) = e.n)
     /\ Chk(l, P, "every transaction reaches every peer", \A c \in DOMAIN con : need(c) \subseteq Range(e.seen[c]))
     /\ Chk(l, P, "every transaction counts", \A i \in DOMAIN node : judged => IF kd = "chain" THEN tot[i] >= e.n ELSE tot[i] = e.n + (IF kd = "mem" THEN e.again ELSE 0))
     /\ Chk(l, P, "every peer is registered once", \A i \in DOMAIN node : kd # "chain" => npeer[i] = Cardinality({c \in DOMAIN con : con[c].i = i}))
     /\ Chk(l, P, "all codewords received count", kd \in {"opts", "loss", "window", "mem", "held", "files"} => \A c \in DOMAIN con : con[c].recv = con[c].sent)
     /\ Chk(l, P, "transactions from expired codewords are not offered to encoders", \A c \in DOMAIN con : con[c].used \cap late = {})
     /\ Chk(l, P, "every codeword that timed out undecoded is reported",
            kd = "loss" => \A c \in DOMAIN con : con[c].lossGot = (IF con[c].cand > 0 THEN e.lost ELSE 0))
     /\ Chk(l, P, "transactions are generated at the rate asked for", kd = "gen" /\ Max(node[1].init, node[1].min) >= 3 * 64 * node[1].tx => Gaps(node[1]))
     /\ Chk(l, P, "codeword rates are printed", kd \notin {"deg", "chain"} => \A c \in DOMAIN con : con[c].rates >= 2)
     /\ Chk(l, P, "latencies are printed after the warm-up", kd = "lat" => done /\ lines >= 1 /\ warm # <<>>)
     /\ Chk(l, P, "dropped codewords are counted", kd = "held" => Drops(con[e.held]))
     /\ Chk(l, P, "codewords are sent at the rate", \A c \in DOMAIN con : Speed(con[c]))
     /\ Same

Crash(e) == Chk(l, P, "crash or hang: " \o e.why, FALSE) /\ Same
Step(e) ==
  CASE e.ev = "new" -> New(e)
    [] e.ev = "node" -> Node(e)
    [] e.ev = "conn" -> Conn(e)
    [] e.ev = "nokey" -> NoKey(e)
    [] e.ev = "extra" -> Extra(e)
    [] e.ev = "wired" -> Wired(e)
    [] e.ev = "died" -> Died(e)
    [] e.ev = "cut" -> Cut(e)
    [] e.ev = "keys" -> Keys(e)
    [] e.ev = "peers" -> Peers(e)
    [] e.ev = "send" -> Send(e)
    [] e.ev = "own" -> Own(e)
    [] e.ev = "got" -> Got(e)
    [] e.ev = "total" -> Total(e)
    [] e.ev = "rate" -> Rate(e)
    [] e.ev = "recv" -> Recv(e)
    [] e.ev = "generated" -> Generated(e)
    [] e.ev = "warm" -> Warm(e)
    [] e.ev = "lat" -> Lat(e)
    [] e.ev = "done" -> Done(e)
    [] e.ev = "quiet" -> Quiet(e)
    [] e.ev = "deg" -> Deg(e)
    [] e.ev = "end" -> End(e)
    [] e.ev = "early" -> Early(e, l)
    [] e.ev = "crash" -> Crash(e)
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
Note == Reached(l)
=============================================================================
