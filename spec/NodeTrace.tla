------------------------------- MODULE NodeTrace -------------------------------
(* Judges executions of the network node recorded by harness/node.
   Session kinds: one peer with its sender and receiver (peer), a controller with
   peers of the driver (fan), decoding cascades through several peers (casc),
   handshakes (hs), several connected nodes (net).
   Rates are in 1/64 codewords per second, times in microseconds. *)
EXTENDS TraceBase

VARIABLES l, cf,
          rate,    \* codeword rate
          credit,  \* in 1/6400 codewords
          accum,   \* own losses not reported yet
          win,     \* encoder window
          known,   \* transactions the decoder has
          pend,    \* codeword number -> its unknown members
          rxw,     \* sequence of codewords in the timeout window, [k, t]
          gone,    \* numbers of the codewords that timed out
          ncw,
          held,    \* the connection does not accept what the sender writes
          queued,  \* codewords that wait since then
          fan      \* transactions injected into a controller
vars == <<l, cf, rate, credit, accum, win, known, pend, rxw, gone, ncw, held, queued, fan>>
QueueCap == 1000

Init == /\ l = 1 /\ cf = [K |-> 0] /\ rate = 0 /\ credit = 0 /\ accum = 0 /\ win = <<>> /\ known = {} /\ pend = <<>>
        /\ rxw = <<>> /\ gone = {} /\ ncw = 0 /\ held = FALSE /\ queued = 0 /\ fan = <<>>
Peer(e) == /\ cf' = e /\ rate' = e.init /\ credit' = 0 /\ accum' = 0 /\ win' = <<>> /\ known' = {} /\ pend' = <<>>
           /\ rxw' = <<>> /\ gone' = {} /\ ncw' = 0 /\ held' = FALSE /\ queued' = 0 /\ UNCHANGED fan

-----------------------------------------------------------------------------
(* decoder: pend of the ready codewords, transactions released in order *)
Drop(P, x) == TLCEval([k \in {j \in DOMAIN P : P[j] # {x}} |-> P[k] \ {x}])
\* outcome: [P, bad]; the released transactions are those that can be released,
\* each marked expired iff its codeword had timed out
RECURSIVE Released(_, _, _)
Released(P, q, out) ==
  IF q = <<>>
  THEN [P |-> P, bad |-> IF \E k \in DOMAIN P : Cardinality(P[k]) = 1 THEN "decodable transactions are decoded" ELSE ""]
  ELSE LET x == q[1][1]
           src == {k \in DOMAIN P : P[k] = {x}}
       IN IF src = {} THEN [P |-> P, bad |-> "only decodable transactions are decoded"]
          ELSE IF ~\E k \in src : (k \in out) = (q[1][2] = 1) THEN [P |-> P, bad |-> "expired"]
          ELSE Released(Drop(P, x), Tail(q), out)
Xs(q) == {q[i][1] : i \in 1..Len(q)}

Decoded(e, P, K0) ==
  LET r == TLCEval(Released(P, e.dec, gone')) IN
  /\ Chk(l, "C22", "a transaction counts as expired iff its codeword timed out", r.bad # "expired")
  /\ ChkAny(l, {"C23", "C21", "C22"}, "codewords are decoded as they were sent: " \o r.bad, r.bad \in {"", "expired"})
  /\ r.bad = ""
  /\ pend' = r.P
  /\ known' = K0 \cup Xs(e.dec)

\* codewords that reached the timeout leave the window
RECURSIVE Retired(_, _)
Retired(q, now) == IF q # <<>> /\ now - Head(q).t >= cf.timeout THEN Retired(Tail(q), now) ELSE q
In(e) ==
  LET q == Retired(rxw, e.t)
      n == Len(rxw) - Len(q)
      old == {rxw[i].k : i \in 1..n}
      k == ncw + 1
      unknown == Range(e.m) \ known
  IN /\ gone' = gone \cup old
     /\ accum' = accum + Cardinality(old \cap DOMAIN pend)
     /\ rate' = rate + e.loss * cf.inc
     /\ ncw' = k
     /\ rxw' = Append(q, [k |-> k, t |-> e.t])
     /\ Decoded(e, IF unknown = {} THEN pend ELSE (k :> unknown) @@ pend, known)
     /\ UNCHANGED <<cf, credit, win, held, queued, fan>>
\* a transaction from the controller
NewTx(e) ==
  /\ gone' = gone
  /\ Decoded(e, Drop(pend, e.x), known \cup {e.x})
  /\ LET w == IF e.exp \/ e.x \in Range(win) THEN win ELSE Append(win, e.x)
     IN win' = IF Len(w) > cf.K THEN Tail(w) ELSE w
  /\ UNCHANGED <<cf, rate, credit, accum, rxw, ncw, held, queued, fan>>
Hold(e) == held' = e.on /\ queued' = 0 /\ UNCHANGED <<cf, rate, credit, accum, win, known, pend, rxw, gone, ncw, fan>>

\* n codewords leave, the first with the losses accumulated
RECURSIVE After(_, _)
After(r, n) == IF n = 0 THEN r ELSE After(Max(cf.min, r - cf.dec), n - 1)
Tick(e) ==
  LET n == Len(e.losses)
      c == credit + rate
      due == c \div 6400
      \* floating-point credit may be short of a whole codeword by a rounding error
      short == c % 6400 = 0 /\ due > 0
      full == held /\ queued + n >= QueueCap
  IN /\ Chk(l, "C21", "codewords are sent at the codeword rate",
            IF full THEN n <= due ELSE n = due \/ (short /\ n = due - 1))
     /\ Chk(l, "C21", "every own loss is reported exactly once",
            \A i \in 1..n : e.losses[i] = (IF i = 1 THEN accum ELSE 0))
     /\ ChkAny(l, {"C23"}, "codewords are sums of transactions under the salt sent", e.ok)
     /\ ChkAny(l, {"C22", "C23"}, "codewords combine transactions offered to the encoder",
            \A i \in 1..Len(e.ms) : /\ NoDuplicates(e.ms[i]) /\ Range(e.ms[i]) \subseteq Range(win)
                                    /\ (win # <<>> => e.ms[i] # <<>>))
     /\ credit' = c - 6400 * (IF full THEN due ELSE n)
     /\ rate' = After(rate, n)
     /\ accum' = IF n > 0 THEN 0 ELSE accum
     /\ queued' = IF held THEN queued + n ELSE 0
     /\ UNCHANGED <<cf, win, known, pend, rxw, gone, ncw, held, fan>>
Same == UNCHANGED <<cf, rate, credit, accum, win, known, pend, rxw, gone, ncw, held, queued, fan>>
Pend(e) == Chk(l, "C23", "codewords arrive in order", e.ordered /\ e.stray = 0) /\ Same

-----------------------------------------------------------------------------
Hs(e) ==
  /\ Chk(l, "C23", "a broken handshake yields no peer, a complete one does",
         IF e.sent < 16 \/ e.wfail THEN e.err /\ ~e.reg ELSE ~e.err /\ e.reg)
  /\ Same
Fan(e) == fan' = e.inj /\ UNCHANGED <<cf, rate, credit, accum, win, known, pend, rxw, gone, ncw, held, queued>>
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
Bag(q) == [x \in Range(q) |-> Count(q, x)]
Got(e) ==
  LET mine == SubSeq(fan, e.from + 1, Len(fan))
      fresh == SelectSeq(mine, LAMBDA p : p[2] = 0)
  IN /\ Chk(l, "C22", "every fresh transaction is offered to the encoder of every peer, no expired one is",
            Bag(e.s) = Bag([i \in 1..Len(fresh) |-> fresh[i][1]]))
     /\ Chk(l, "C22", "every transaction is offered to the decoder of every peer",
            Bag(e.r) = Bag([i \in 1..Len(mine) |-> mine[i][1]]))
     /\ Same
Casc(e) ==
  /\ Chk(l, "C22", "no goroutines wait for each other forever", e.answers /\ e.done)
  /\ Chk(l, "C22", "every transaction of a cascade is offered to every peer", e.missing = 0 /\ e.bad = 0)
  /\ Same
Net(e) ==
  /\ Chk(l, "C22", "no goroutines wait for each other forever", e.flow)
  /\ Chk(l, "C23", "connected nodes decode each other's codewords",
         e.bad = 0 /\ e.errs = 0 /\ \A i \in 1..Len(e.learned) : e.learned[i] >= 20)
  /\ Same
\* the sending and the receiving loop of a connection
IsPrefix(p, q) == Len(p) <= Len(q) /\ \A i \in 1..Len(p) : p[i] = q[i]
Wire(e) ==
  /\ Chk(l, "C23", "codewords and loss reports arrive unchanged, in order, exactly once",
         IF e.full THEN e.got = e.sent ELSE IsPrefix(e.got, e.sent))
  /\ Chk(l, "C23", "a broken connection ends its loops", e.ended >= 1)
  /\ Same
\* the decoding loop with a slow sender and a slow controller: codewords of one
\* transaction are decoded, those of two are not, and all but the last are retired
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
Slow(e) ==
  LET lost == Cardinality({i \in 1..Len(e.cws) : Len(e.cws[i]) = 3})
      lone == SelectSeq(e.cws, LAMBDA c : Len(c) = 2)
  IN /\ Chk(l, "C21", "every codeword undecoded when it is retired is reported once, however slow the sender is", e.own = lost)
     /\ Chk(l, "C21", "losses reported by the peer are forwarded unchanged, however slow the sender is",
            e.peer = SumSeq([i \in 1..Len(e.cws) |-> e.cws[i][1]]))
     /\ Chk(l, "C22", "every decoded transaction reaches the controller once",
            Bag(e.got) = Bag([i \in 1..Len(lone) |-> lone[i][2]]))
     /\ Same
Crash(e) == ChkAny(l, {"C21", "C22", "C23"}, "crash or hang: " \o e.why, FALSE) /\ Same

Step(e) ==
  CASE e.ev = "new" -> Same
    [] e.ev = "peer" -> Peer(e)
    [] e.ev = "in" -> In(e)
    [] e.ev = "tx" -> NewTx(e)
    [] e.ev = "hold" -> Hold(e)
    [] e.ev = "tick" -> Tick(e)
    [] e.ev = "pend" -> Pend(e)
    [] e.ev = "hs" -> Hs(e)
    [] e.ev = "fan" -> Fan(e)
    [] e.ev = "got" -> Got(e)
    [] e.ev = "casc" -> Casc(e)
    [] e.ev = "net" -> Net(e)
    [] e.ev = "wire" -> Wire(e)
    [] e.ev = "slow" -> Slow(e)
    [] e.ev = "early" -> Early(e, l)
    [] e.ev = "crash" -> Crash(e)
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
Note == Reached(l)
=============================================================================
