------------------------------- MODULE Samples -------------------------------
(* Statistics of sequences of integers. *)
EXTENDS Integers, Sequences, TLC

Sorted(q) == SortSeq(q, <)
\* qs: quantiles 0, 5, 50, 95, 100 % of a sketch with 1 % accuracy; empty without samples
Percents == <<0, 5, 50, 95, 100>>
Near(v, lo, hi) == v >= lo - (lo \div 80) - 2 /\ v <= hi + (hi \div 80) + 2
QuantilesOf(qs, n, samples) ==
  IF n = 0 THEN qs = <<>>
  ELSE LET s == TLCEval(Sorted(samples)) IN
       qs = <<>> \/
       \A k \in 1..Len(qs) :
         LET r == Percents[k] * (n - 1)
         IN Near(qs[k], s[(r \div 100) + 1], s[((r + 99) \div 100) + 1])

RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Abs(x) == IF x < 0 THEN -x ELSE x

\* mean and standard deviation of the sample xs, |xs[i]| <= 2000, Len(xs) <= 8,
\* up to t
MeanOf(m, xs, t) == Abs(m * Len(xs) - Sum(xs)) <= t * Len(xs)
DevOf(d, xs, t) ==
  LET n == Len(xs)
      S == TLCEval(Sum(xs))
      v == Sum([i \in 1..n |-> (n * xs[i] - S) * (n * xs[i] - S)])
      w == n * n * (n - 1)
      Lo == IF d > t THEN (d - t) * (d - t) ELSE 0
      Hi == (d + t) * (d + t)
  IN n > 1 => (Lo * w <= v /\ v <= Hi * w)
\* p percent quantile, interpolated so that it is unbiased for the median
\* (position p (n + 1/3) + 1/3)
PercentileOf(v, p, xs, t) ==
  LET n == Len(xs)
      s == TLCEval(Sorted(xs))
      pos == p * (3 * n + 1) + 100     \* in 1/300
      k == pos \div 300
      f == pos % 300
      x == IF k < 1 THEN 300 * s[1] ELSE IF k >= n THEN 300 * s[n] ELSE 300 * s[k] + f * (s[k + 1] - s[k])
  IN Abs(300 * v - x) <= 300 * t
Moments == <<5, 25, 50, 75, 95>>
\* mean, standard deviation, percentiles
MomentsWithin(res, xs, t) ==
  /\ Len(res) = 7
  /\ \A k \in 1..7 : (Len(xs) = 1 /\ k = 2) \/ Abs(res[k]) <= (IF Len(xs) <= 6 THEN 3000 ELSE 2140)
  /\ MeanOf(res[1], xs, t)
  /\ DevOf(res[2], xs, t)
  /\ \A k \in 1..5 : PercentileOf(res[k + 2], Moments[k], xs, t)
=============================================================================
