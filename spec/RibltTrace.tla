----------------------------- MODULE RibltTrace -----------------------------
(* Judges executions of package riblt recorded by harness/riblt. *)
EXTENDS RibltCore, TraceBase

VARIABLES l,      \* next trace position
          map,    \* symbol -> set of stream indices, as observed from one-symbol sets
          enc,    \* encoder -> [win, n]
          dec,    \* decoder -> [base, cells, R, L, pend, rc]
          sk      \* sketch -> sequence of cells
vars == <<l, map, enc, dec, sk>>

\* every symbol must show up only where a fresh encoder puts it
ToCell(j) == [s |-> Range(j.s), n |-> j.n]
CellsOf(js) == TLCEval([i \in 1..Len(js) |-> ToCell(js[i])])
Clean(j) == j.c /\ 0 \notin Range(j.s)
AllClean(js) == \A i \in 1..Len(js) : Clean(js[i])
WinCell(S, i) == LET In == {x \in S : i \in map[x]} IN [s |-> In, n |-> Cardinality(In)]

\* obligations of an object that was reset are obligations of C06 as well
Of(p, rc) == IF rc > 0 THEN {p, "C06"} ELSE {p}

Init == l = 1 /\ map = <<>> /\ enc = <<>> /\ dec = <<>> /\ sk = <<>>

New(e) == map' = <<>> /\ enc' = <<>> /\ dec' = <<>> /\ sk' = <<>>

Map(e) ==
  LET idx == {i-1 : i \in {k \in 1..Len(e.cells) : e.cells[k].s # <<>> \/ e.cells[k].n # 0}}
  IN /\ Chk(l, "C05", "symbol contributes to the first coded symbol", Len(e.cells) > 0 => 0 \in idx)
     /\ Chk(l, "C05", "symbol contributes at most once to each coded symbol",
            \A i \in idx : LET c == e.cells[i+1] IN Range(c.s) = {e.s} /\ c.n = 1 /\ c.c)
     /\ Chk(l, "C05", "other coded symbols are empty",
            \A k \in 1..Len(e.cells) : k-1 \notin idx => e.cells[k].c)
     /\ map' = Put(map, e.s, idx)
     /\ UNCHANGED <<enc, dec, sk>>

EncNew(e) == enc' = Put(enc, e.e, [win |-> {}, n |-> 0, rc |-> 0]) /\ UNCHANGED <<map, dec, sk>>
EncAdd(e) == enc' = [enc EXCEPT ![e.e].win = @ \cup {e.s}] /\ UNCHANGED <<map, dec, sk>>
EncProduce(e) ==
  LET o == enc[e.e] IN
  /\ ChkAny(l, Of("C03", o.rc), "coded symbol is the combination of its set",
            Clean(e.cell) /\ ToCell(e.cell) = WinCell(o.win, o.n))
  /\ enc' = [enc EXCEPT ![e.e].n = @ + 1]
  /\ UNCHANGED <<map, dec, sk>>
EncReset(e) == enc' = [enc EXCEPT ![e.e] = [win |-> {}, n |-> 0, rc |-> @.rc + 1]] /\ UNCHANGED <<map, dec, sk>>
\* coded symbols produced earlier, looked at again: those of a fresh encoder of the same set
EncKept(e) ==
  LET o == enc[e.e] IN
  /\ Chk(l, "C03", "coded symbols stay what they were",
         AllClean(e.cells) /\ CellsOf(e.cells) = [i \in 1..Len(e.cells) |-> WinCell(o.win, i - 1)])
  /\ UNCHANGED <<map, enc, dec, sk>>

\* --- decoders.  cells: what was received, with the effect of the decoder's own set and of
\* everything recovered removed.  R, L: what peeling had recovered at the last attempt.
\* pend: number of cells not explained.
FreshDec(rc) == [base |-> {}, cells |-> <<>>, R |-> {}, L |-> {}, pend |-> 0, rc |-> rc]
Reports(e, d) ==
  /\ ChkAny(l, Of("C01", d.rc), "recovered symbols are intact", e.ok)
  /\ ChkAny(l, Of("C01", d.rc), "recovered symbols are distinct", NoDuplicates(e.R) /\ NoDuplicates(e.L))
  /\ ChkAny(l, Of("C02", d.rc), "recovered exactly what peeling reaches", Range(e.R) = d.R /\ Range(e.L) = d.L)
  /\ ChkAny(l, Of("C02", d.rc), "complete iff every coded symbol is explained",
            e.dec = (d.pend = 0))
DecNew(e) == LET d == FreshDec(0) IN Reports(e, d) /\ dec' = Put(dec, e.d, d) /\ UNCHANGED <<map, enc, sk>>
DecReset(e) == LET d == FreshDec(dec[e.d].rc + 1) IN
               Reports(e, d) /\ dec' = [dec EXCEPT ![e.d] = d] /\ UNCHANGED <<map, enc, sk>>
DecAdd(e) == dec' = [dec EXCEPT ![e.d].base = @ \cup {e.s}] /\ UNCHANGED <<map, enc, sk>>
DecCoded(e) ==
  LET d0 == dec[e.d]
      i == Len(d0.cells)
      c == Residual(map, SubCell(ToCell(e.cell), WinCell(d0.base, i)), i, d0.R, d0.L)
      d == [d0 EXCEPT !.cells = Append(@, c), !.pend = @ + (IF Zero(c) THEN 0 ELSE 1)]
  IN /\ Reports(e, d)
     /\ dec' = [dec EXCEPT ![e.d] = d]
     /\ UNCHANGED <<map, enc, sk>>
\* the sets being reconciled: the set behind the cells is the one whose cells they are; in
\* every session decoder d is fed by encoder d
DecTry(e) ==
  LET d0 == dec[e.d]
      p == TLCEval(PeelResiduals(map, d0.cells, d0.R, d0.L))
      d == [d0 EXCEPT !.R = p.R, !.L = p.L, !.cells = p.res,
                      !.pend = IF p.R = d0.R /\ p.L = d0.L THEN @
                               ELSE Cardinality({i \in 1..Len(p.res) : ~Zero(p.res[i])})]
      A == enc[e.d].win
      B == d.base
  IN /\ Reports(e, d)
     /\ ChkAny(l, Of("C01", d.rc), "remote symbols belong to the encoder only", Range(e.R) \subseteq A \ B)
     /\ ChkAny(l, Of("C01", d.rc), "local symbols belong to the decoder only", Range(e.L) \subseteq B \ A)
     /\ ChkAny(l, Of("C01", d.rc), "complete means the exact difference",
               (e.dec /\ Len(d.cells) > 0) => Range(e.R) = A \ B /\ Range(e.L) = B \ A)
     /\ dec' = [dec EXCEPT ![e.d] = d]
     /\ UNCHANGED <<map, enc, sk>>

\* --- sketches
SkNew(e) == sk' = Put(sk, e.k, [cells |-> [i \in 1..e.len |-> EmptyCell], A |-> {}, B |-> {}]) /\ UNCHANGED <<map, enc, dec>>
SkAdd(e) == /\ sk' = [sk EXCEPT ![e.k].cells = [i \in 1..Len(@) |-> IF i-1 \in map[e.s] THEN ApplyTo(@[i], e.s, 1) ELSE @[i]],
                                ![e.k].A = @ \cup {e.s}]
            /\ UNCHANGED <<map, enc, dec>>
Same(js, cells) == AllClean(js) /\ CellsOf(js) = cells
SkDump(e) ==
  /\ ChkAny(l, {"C03", "C04"}, "sketch equals the prefix of the stream", Same(e.cells, sk[e.k].cells))
  /\ UNCHANGED <<map, enc, dec, sk>>
SkSub(e) ==
  LET a == sk[e.k]  b == sk[e.j] IN
  IF Len(a.cells) # Len(b.cells)
  THEN /\ Chk(l, "C04", "subtraction of different lengths is refused", e.refused)
       /\ Chk(l, "C04", "refused subtraction changes nothing", Same(e.cells, a.cells) /\ Same(e.cells2, b.cells))
       /\ UNCHANGED <<map, enc, dec, sk>>
  ELSE LET d == TLCEval([i \in 1..Len(a.cells) |-> SubCell(a.cells[i], b.cells[i])]) IN
       /\ Chk(l, "C04", "subtraction is accepted", ~e.refused)
       /\ Chk(l, "C04", "subtraction gives the difference of every cell", Same(e.cells, d))
       /\ Chk(l, "C04", "the subtracted sketch is unchanged", Same(e.cells2, b.cells))
       /\ sk' = [sk EXCEPT ![e.k] = [cells |-> d, A |-> a.A, B |-> b.A]]
       /\ UNCHANGED <<map, enc, dec>>
SkDecode(e) ==
  LET a == sk[e.k]
      p == TLCEval(PeelResiduals(map, a.cells, {}, {})) IN
  /\ Chk(l, "C04", "recovered symbols are intact", e.ok)
  /\ Chk(l, "C04", "recovered symbols are distinct", NoDuplicates(e.R) /\ NoDuplicates(e.L))
  /\ Chk(l, "C04", "only true differences are reported",
         Range(e.R) \subseteq a.A \ a.B /\ Range(e.L) \subseteq a.B \ a.A)
  /\ Chk(l, "C04", "everything that peeling reaches is reported", Range(e.R) = p.R /\ Range(e.L) = p.L)
  /\ Chk(l, "C04", "success iff the whole difference was recovered",
         Len(a.cells) > 0 => (e.dec = (Range(e.R) = a.A \ a.B /\ Range(e.L) = a.B \ a.A)))
  /\ UNCHANGED <<map, enc, dec, sk>>

\* --- summaries
Overhead(e) ==
  LET d == Len(e.A) + Len(e.B) IN
  /\ Chk(l, "C02", "decoding completes within a linear number of coded symbols", e.dec /\ e.m <= 3 * d + 40)
  /\ Chk(l, "C01", "complete means the exact difference",
         e.ok /\ NoDuplicates(e.R) /\ NoDuplicates(e.L) /\
         (e.dec => Range(e.R) = Range(e.A) /\ Range(e.L) = Range(e.B)))
  /\ UNCHANGED <<map, enc, dec, sk>>
\* n symbols, cnt contributions to indices lo..hi; expectation n * sum 2/(2+i)
RECURSIVE DensSum(_, _, _)
DensSum(n, lo, hi) == IF lo = hi THEN (2 * n * 100) \div (2 + lo)
                      ELSE LET mid == (lo + hi) \div 2 IN DensSum(n, lo, mid) + DensSum(n, mid + 1, hi)
Density(e) ==
  LET x == DensSum(e.n, e.lo, e.hi) IN
  /\ Chk(l, "C05", "share of symbols contributing to an index", e.cnt * 1000 >= x * 9 - 9000 /\ e.cnt * 1000 <= x * 11 + 9000)
  /\ UNCHANGED <<map, enc, dec, sk>>

\* --- sets of thousands of symbols: 1..a belong to the encoder only, a+1..a+b to the decoder
\* only.  Recovered sets are given by their size and the intervals they cover.
Interval(j, lo, hi) == j.n = hi - lo + 1 /\ j.runs = (IF lo > hi THEN <<>> ELSE <<<<lo, hi>>>>)
BigDec(e) ==
  LET d == e.a + e.b IN
  /\ Chk(l, "C02", "decoding completes within a linear number of coded symbols", e.dec /\ e.m <= 3 * d + 40)
  /\ Chk(l, "C01", "complete means the exact difference",
         e.dec => e.ok /\ Interval(e.R, 1, e.a) /\ Interval(e.L, e.a + 1, e.a + e.b))
  /\ UNCHANGED <<map, enc, dec, sk>>
BigSk(e) ==
  /\ ChkAny(l, {"C03", "C04"}, "sketch equals the prefix of the stream", e.sketch = e.stream)
  /\ UNCHANGED <<map, enc, dec, sk>>
BigLin(e) ==
  /\ Chk(l, "C03", "the difference of two streams is the stream of the difference", e.stream = e.only)
  /\ Chk(l, "C04", "subtraction gives the difference of every cell", e.sketch = e.only)
  /\ UNCHANGED <<map, enc, dec, sk>>
BigSkDec(e) ==
  /\ Chk(l, "C04", "only true differences are reported",
         e.ok /\ \A k \in 1..Len(e.R.runs) : e.R.runs[k][1] >= 1 /\ e.R.runs[k][2] <= e.a)
  /\ Chk(l, "C04", "success iff the whole difference was recovered",
         e.dec = (Interval(e.R, 1, e.a) /\ Interval(e.L, e.a + 1, e.a + e.b)))
  /\ UNCHANGED <<map, enc, dec, sk>>

\* the indices 2^b-1 .. 2^(b+1)-2 hold 2 ln 2 = 1.3863 contributions of each symbol
DensFar(e) ==
  LET x == ((e.n \div 100) * 13863) \div 100 IN
  /\ Chk(l, "C05", "share of symbols contributing to a far index",
         e.b >= 8 /\ e.cnt * 100 >= x * 96 /\ e.cnt * 100 <= x * 104)
  /\ UNCHANGED <<map, enc, dec, sk>>

Crash(e) == ChkAny(l, {"C01","C02","C03","C04","C05","C06"}, "crash or hang: " \o e.why, FALSE) /\ UNCHANGED <<map, enc, dec, sk>>
Mismatch(e) == ChkAny(l, {"C01","C02"}, "generated behaviour not followed: " \o e.why, FALSE) /\ UNCHANGED <<map, enc, dec, sk>>

Step(e) ==
  CASE e.ev = "new" -> New(e)
    [] e.ev = "map" -> Map(e)
    [] e.ev = "en" -> EncNew(e)
    [] e.ev = "ea" -> EncAdd(e)
    [] e.ev = "ep" -> EncProduce(e)
    [] e.ev = "er" -> EncReset(e)
    [] e.ev = "ek" -> EncKept(e)
    [] e.ev = "dn" -> DecNew(e)
    [] e.ev = "da" -> DecAdd(e)
    [] e.ev = "dc" -> DecCoded(e)
    [] e.ev = "dt" -> DecTry(e)
    [] e.ev = "dr" -> DecReset(e)
    [] e.ev = "sn" -> SkNew(e)
    [] e.ev = "sa" -> SkAdd(e)
    [] e.ev = "sd" -> SkDump(e)
    [] e.ev = "ss" -> SkSub(e)
    [] e.ev = "sx" -> SkDecode(e)
    [] e.ev = "ovh" -> Overhead(e)
    [] e.ev = "density" -> Density(e)
    [] e.ev = "bigdec" -> BigDec(e)
    [] e.ev = "bigsk" -> BigSk(e)
    [] e.ev = "biglin" -> BigLin(e)
    [] e.ev = "bigskdec" -> BigSkDec(e)
    [] e.ev = "densfar" -> DensFar(e)
    [] e.ev = "early" -> Early(e, l)
    [] e.ev = "crash" -> Crash(e)
    [] e.ev = "mismatch" -> Mismatch(e)

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
Note == Reached(l)
=============================================================================
