------------------------------ MODULE StatTrace ------------------------------
(* What the simulators report (C24) and how they take their parameters (C26):
   statistics of samples, topologies read from files, filters of time series, and
   whole runs of the programs next to the same simulation driven on its own.   *)
EXTENDS TraceBase, Samples

VARIABLE l
vars == <<l>>
Init == l = 1

P24(name, cond) == Chk(l, "C24", name, cond)
P26(name, cond) == Chk(l, "C26", name, cond)

\* every line of the file is a link, in order; nodes are numbered from 0
Topo(e) ==
  P26("the links are those of the file", /\ Len(e.got) = Len(e.lines)
      /\ \A k \in 1..Len(e.lines) : e.got[k] = <<e.lines[k][1], e.lines[k][2], e.lines[k][3] * 1000>>)
  /\ P26("every node of the file exists, and no other",
         LET ends == {e.lines[k][1] : k \in 1..Len(e.lines)} \cup {e.lines[k][2] : k \in 1..Len(e.lines)} IN
         (e.n - 1) \in ends /\ \A v \in ends : v < e.n)

\* operations <<1, v>> record v, <<0, r>> read r
RECURSIVE Difference(_, _, _, _)
Difference(q, k, last, cur) ==
  IF k > Len(q) THEN TRUE
  ELSE IF q[k][1] = 1 THEN Difference(q, k + 1, last, q[k][2])
  ELSE q[k][2] = cur - last /\ Difference(q, k + 1, cur, cur)
RECURSIVE Maximum(_, _, _)
Maximum(q, k, m) ==
  IF k > Len(q) THEN TRUE
  ELSE IF q[k][1] = 1 THEN Maximum(q, k + 1, Max(m, q[k][2]))
  ELSE q[k][2] = m /\ Maximum(q, k + 1, 0)

Sk(e) ==
  LET after == TLCEval(SelectSeq(e.pts, LAMBDA p : p[1] >= e.warm))
      lats == TLCEval([k \in 1..Len(after) |-> (after[k][1] - after[k][2]) * 1000])
  IN /\ P24("exactly the latencies after the warm-up are recorded", e.cnt \in {-1, Len(after)})
     /\ P24("latency quantiles", QuantilesOf(e.qs, Len(after), lats))

-----------------------------------------------------------------------------
\* First report after the warm-up (reports at 0, intv, 2*intv, ... ms), 0 if none
FirstAfter(warm, intv, n) ==
  LET ks == {k \in 1..n : (k - 1) * intv > warm} IN IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A j \in ks : k <= j
Known(v) == \A i \in 1..Len(v) : v[i] >= 0 
\* values are known up to the precision with which the driver records them
Fits(p, xs, limit) == (\A i \in 1..Len(xs) : Abs(xs[i]) <= limit) => MomentsWithin(p, xs, 6)
Rates(p, cnt, k0, at) ==
  LET n == Len(cnt)
      T == at[n] - at[k0]
  IN Fits(p, [i \in 1..Len(cnt[1]) |-> ((cnt[n][i] - cnt[k0][i]) * 10000) \div T], 2000)

Run(e) ==
  /\ P26("the program runs, and every run gives the same results", e.ok /\ e.same)
  /\ LET n == Len(e.at)
         k0 == FirstAfter(e.warm, 1000, n)
         N == 1..e.n
         gen == Sum([i \in N |-> e.rx[n][i] - e.dec[n][i]])
         want == (e.n * e.rate * (e.at[n] \div 10)) \div 100
         dd == TLCEval([i \in N |-> e.dec[n][i] - e.dec[k0][i]])
         db == TLCEval([i \in N |-> e.bytes[n][i] - e.bytes[k0][i]])
     IN Known(e.rx[n]) /\ Known(e.dec[n]) /\ Known(e.dup[n]) /\ Known(e.bytes[n]) /\ k0 > 0 /\ k0 < n =>
        /\ P24("received transaction rate", Rates(e.prx, e.rx, k0, e.at))
        /\ P24("duplicate transaction rate", Rates(e.pdup, e.dup, k0, e.at))
        /\ P24("overhead", (\A i \in N : dd[i] > 0) => Fits(e.pov, [i \in N |-> ((db[i] \div dd[i]) * 100) \div e.size], 2000))
        /\ P24("latencies", \A k \in 1..3 : Fits(e.plat[k], e.lat[k], 2000))
        /\ P26("transactions are generated at the given rate", (gen - want) * (gen - want) <= 200 * (want + 20))

SRun(e) ==
  /\ P26("the program runs, and every run gives the same results", e.ok /\ e.same)
  /\ LET n == Len(e.at)
         k0 == FirstAfter(e.warm, e.intv, n)
         N == 1..2
         dd == TLCEval([i \in N |-> e.dec[n][i] - e.dec[k0][i]])
         dc == TLCEval([i \in N |-> e.cws[n][i] - e.cws[k0][i]])
     IN Known(e.dec[n]) /\ Known(e.cws[n]) /\ k0 > 0 /\ k0 < n =>
        /\ P24("decoded transaction rate", Rates(e.pdec, e.dec, k0, e.at))
        /\ P24("overhead", (\A i \in N : dd[i] > 0) => Fits(e.pov, [i \in N |-> (dc[i] * 100) \div dd[i]], 2000))
        /\ P24("latencies", \A k \in 1..3 : Fits(e.plat[k], e.lat[k], 2000))
        /\ P24("overlap distributions", \A i \in N : /\ e.plen[i] = 100 /\ Len(e.povl[i]) = Len(e.ovl[i])
                 /\ \A k \in 1..Len(e.ovl[i]) : Abs(e.povl[i][k] - e.ovl[i][k]) <= 2)
        /\ P24("time series of the rate of codewords",
               /\ Len(e.series) = n - k0
               /\ \A k \in 1..Len(e.series) : /\ Abs(e.series[k][1] - e.at[k0 + k]) <= 1
                    /\ Abs(e.series[k][2] * e.intv - (e.cws[k0 + k][1] - e.cws[k0 + k - 1][1]) * 1000) <= e.intv)

Step(e) ==
  CASE e.ev = "new" -> TRUE
    [] e.ev = "topo" -> Topo(e)
    [] e.ev = "mom" -> P24("moments", MomentsWithin(e.out, e.xs, 2))
    [] e.ev = "filt" -> P24("difference since the last reading", Difference(e.dif, 1, 0, 0)) /\ P24("maximum since the last reading", Maximum(e.max, 1, 0))
    [] e.ev = "sk" -> Sk(e)
    [] e.ev = "run" -> Run(e)
    [] e.ev = "srun" -> SRun(e)
    [] e.ev = "early" -> Early(e, l)
    [] e.ev = "crash" -> ChkAny(l, {"C24", "C26"}, "crash or hang: " \o e.why, FALSE)
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
Note == Reached(l)
=============================================================================
