-------------------------------- MODULE Stats --------------------------------
(* How a simulator counts and reports (newsim, simulator: serverMetric,
   resetMetric, distributionSketch, difference, main).

   Time passes in ticks; every Period ticks there is a report.  At every instant a
   node may learn a new transaction, or one it has already, as the sketch of
   latencies and the counters see it.  Counters are reset at the first report after
   the warm-up; latencies are recorded from the end of the warm-up on.  At the end
   rates are printed: counts divided by the time since they were reset.  A filter
   (difference) turns the counter into a time series.

   Since = "reset": rates refer to the time of the reset; "warmup": to the end of
   the warm-up (what the code did before it was repaired).                        *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Warm, Period, End, MaxPerTick, Since

VARIABLES now, hist, rx, dup, lat, warmed, from, series, last, done
vars == <<now, hist, rx, dup, lat, warmed, from, series, last, done>>
\* hist: ghost, what was learned, as <<time, new, latency>>

Init == /\ now = 0 /\ hist = <<>> /\ rx = 0 /\ dup = 0 /\ lat = <<>>
        /\ warmed = FALSE /\ from = (IF Since = "warmup" THEN Warm ELSE 0) /\ series = <<>> /\ last = 0 /\ done = FALSE

PerTick(t) == Cardinality({i \in 1..Len(hist) : hist[i][1] = t})
Learn(new, d) ==
  /\ ~done /\ PerTick(now) < MaxPerTick
  /\ hist' = Append(hist, <<now, new, d>>)
  /\ rx' = IF new THEN rx + 1 ELSE rx
  /\ dup' = IF new THEN dup ELSE dup + 1
  /\ lat' = IF new /\ now >= Warm THEN Append(lat, d) ELSE lat
  /\ UNCHANGED <<now, warmed, from, series, last, done>>

\* the instant is over: a report if it is due, and on to the next
Report(t) ==
  IF t % Period = 0 /\ t > Warm
  THEN IF ~warmed THEN /\ warmed' = TRUE /\ rx' = 0 /\ dup' = 0 /\ last' = 0
                       /\ from' = IF Since = "reset" THEN t ELSE from
                       /\ UNCHANGED series
       ELSE /\ series' = Append(series, rx - last) /\ last' = rx
            /\ UNCHANGED <<warmed, rx, dup, from>>
  ELSE UNCHANGED <<warmed, rx, dup, from, series, last>>
Tick ==
  /\ ~done
  /\ Report(now)
  /\ IF now = End THEN done' = TRUE /\ UNCHANGED now ELSE now' = now + 1 /\ UNCHANGED done
  /\ UNCHANGED <<hist, lat>>

Next == Tick \/ \E new \in BOOLEAN, d \in 0..1 : Learn(new, d)
Spec == Init /\ [][Next]_vars /\ WF_vars(Tick)

-----------------------------------------------------------------------------
Count(P(_)) == Cardinality({i \in 1..Len(hist) : P(i)})
ResetAt == CHOOSE t \in 1..(Warm + Period) : t > Warm /\ t % Period = 0
Counted(i) == IF warmed THEN hist[i][1] > ResetAt ELSE TRUE

\* counters hold what happened since the reset, each once
CountersExact == /\ rx = Count(LAMBDA i : hist[i][2] /\ Counted(i))
                 /\ dup = Count(LAMBDA i : ~hist[i][2] /\ Counted(i))
\* latencies of exactly the new transactions after the warm-up, in order
AfterWarm == SelectSeq(hist, LAMBDA h : h[2] /\ h[1] >= Warm)
LatenciesExact == lat = [k \in 1..Len(AfterWarm) |-> AfterWarm[k][3]]
\* the rate that is printed is the average over the time it is divided by
RateMeansWhatItSays ==
  done /\ warmed => rx = Count(LAMBDA i : hist[i][2] /\ hist[i][1] > from)
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE Head(q) + Total(Tail(q))
\* the time series adds up to what was counted
SeriesAddsUp == Total(series) = last /\ last <= rx
SeriesComplete == done /\ End % Period = 0 /\ warmed => Total(series) = rx
Ends == <>done
=============================================================================
