-------------------------------- MODULE Riblt --------------------------------
(* Design specification of rateless reconciliation: an encoder with set A
   streams coded symbols to a decoder with set B.  The decoder works like
   riblt.Decoder: cells received so far with the effect of the recovered
   symbols removed, a queue of dirty cells and a counter of cells that are not
   yet explained.  Receiving and the individual steps of a decode attempt
   interleave freely, in particular any number of coded symbols may arrive
   between two attempts. *)
EXTENDS RibltCore, TLC

CONSTANTS Sym,      \* set of symbols
          M         \* number of coded symbols in the stream

Mappings == {m \in SUBSET (0..M-1) : 0 \in m}

VARIABLES map, A, B,
          cells,    \* sequence of cells as received, after removal of B and of recovered symbols
          raw,      \* the same cells as received, after removal of B only
          remote, local,   \* sequences of recovered symbols
          dirty,    \* sequence of cell positions waiting for inspection
          pending,  \* number of cells not explained
          busy      \* a decode attempt is in progress
vars == <<map, A, B, cells, raw, remote, local, dirty, pending, busy>>

RECURSIVE SetMin(_)
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y

SeqToSet(q) == {q[i] : i \in 1..Len(q)}
IsDirty(i) == i \in SeqToSet(dirty)

Init ==
  /\ map \in [Sym -> Mappings]
  /\ A \in SUBSET Sym
  /\ B \in SUBSET Sym
  /\ cells = <<>> /\ raw = <<>> /\ remote = <<>> /\ local = <<>> /\ dirty = <<>>
  /\ pending = 0 /\ busy = FALSE

Receive ==
  /\ ~busy
  /\ Len(cells) < M
  /\ LET i == Len(cells)
         in == SubCell(CellOf(map, A, i), CellOf(map, B, i))
         c == Residual(map, in, i, SeqToSet(remote), SeqToSet(local))
     IN /\ raw' = Append(raw, in)
        /\ cells' = Append(cells, c)
        /\ IF Zero(c)
           THEN UNCHANGED <<dirty, pending>>
           ELSE /\ pending' = pending + 1
                /\ dirty' = IF c.n \in {-1, 0, 1} THEN Append(dirty, i+1) ELSE dirty
  /\ UNCHANGED <<map, A, B, remote, local, busy>>

StartDecode == /\ ~busy /\ dirty # <<>> /\ busy' = TRUE
               /\ UNCHANGED <<map, A, B, cells, raw, remote, local, dirty, pending>>

\* apply a newly recovered symbol to all cells received so far; newly touched
\* cells that may have become pure or empty are queued behind the current one
ApplyNew(x, dir) ==
  LET touched == {i \in 1..Len(cells) : i-1 \in map[x]}
      nc == [i \in 1..Len(cells) |-> IF i \in touched THEN ApplyTo(cells[i], x, dir) ELSE cells[i]]
      newdirty == {i \in touched : ~IsDirty(i) /\ nc[i].n \in {-1, 0, 1}}
      RECURSIVE AsSeq(_)
      AsSeq(S) == IF S = {} THEN <<>> ELSE <<SetMin(S)>> \o AsSeq(S \ {SetMin(S)})
  IN /\ cells' = nc
     /\ dirty' = Tail(dirty) \o AsSeq(newdirty)

DecodeStep ==
  /\ busy /\ dirty # <<>>
  /\ LET i == Head(dirty)  c == cells[i] IN
     CASE Pure(c) /\ c.n = 1 ->
            /\ LET x == CHOOSE y \in c.s : TRUE IN
               /\ remote' = Append(remote, x) /\ ApplyNew(x, -1)
            /\ pending' = pending - 1 /\ UNCHANGED local
       [] Pure(c) /\ c.n = -1 ->
            /\ LET x == CHOOSE y \in c.s : TRUE IN
               /\ local' = Append(local, x) /\ ApplyNew(x, 1)
            /\ pending' = pending - 1 /\ UNCHANGED remote
       [] Zero(c) ->
            /\ pending' = pending - 1 /\ dirty' = Tail(dirty)
            /\ UNCHANGED <<cells, remote, local>>
       [] OTHER ->
            /\ dirty' = Tail(dirty) /\ UNCHANGED <<cells, remote, local, pending>>
  /\ UNCHANGED <<map, A, B, raw, busy>>

EndDecode == /\ busy /\ dirty = <<>> /\ busy' = FALSE
             /\ UNCHANGED <<map, A, B, cells, raw, remote, local, dirty, pending>>

Next == Receive \/ StartDecode \/ DecodeStep \/ EndDecode
Fairness == WF_vars(Receive) /\ WF_vars(StartDecode) /\ WF_vars(DecodeStep) /\ WF_vars(EndDecode)
Spec == Init /\ [][Next]_vars /\ Fairness

---------------------------------------------------------------------------
Decoded == pending = 0

NoDup(q) == Cardinality(SeqToSet(q)) = Len(q)

\* C01
Sound == /\ SeqToSet(remote) \subseteq A \ B
         /\ SeqToSet(local) \subseteq B \ A
         /\ NoDup(remote) /\ NoDup(local)
ExactWhenDecoded ==
  (Decoded /\ Len(cells) > 0) => /\ SeqToSet(remote) = A \ B
                                 /\ SeqToSet(local) = B \ A
\* C02
CellsAreResiduals ==
  \A i \in 1..Len(cells) :
     cells[i] = Residual(map, raw[i], i-1, SeqToSet(remote), SeqToSet(local))
Idle == ~busy /\ dirty = <<>>
ClosureWhenIdle ==
  Idle => LET p == PeelClosure(map, raw, {}, {})
          IN SeqToSet(remote) = p.R /\ SeqToSet(local) = p.L
\* the incremental closure used on traces is the same function
IncrementalClosure ==
  Idle => LET p == PeelClosure(map, raw, {}, {})  q == PeelResiduals(map, raw, {}, {})
          IN /\ p.R = q.R /\ p.L = q.L
             /\ \A i \in 1..Len(raw) : q.res[i] = Residual(map, raw[i], i-1, p.R, p.L)
DecodedExact ==
  ~busy => (Decoded <=> Explained(map, raw, SeqToSet(remote), SeqToSet(local)))
PendingNonNegative == pending >= 0
\* a symbol once recovered stays recovered, in place
Monotone == [][ /\ Len(remote) <= Len(remote') /\ SubSeq(remote', 1, Len(remote)) = remote
                /\ Len(local) <= Len(local') /\ SubSeq(local', 1, Len(local)) = local ]_vars
\* C03: linearity of the stream
Linear == \A i \in 0..M-1 :
   LET a == CellOf(map, A, i)  b == CellOf(map, B, i)
   IN /\ (A \cap B = {}) => CellOf(map, A \cup B, i) = [s |-> SymDiff(a.s, b.s), n |-> a.n + b.n]
      /\ (A = B) => Zero(SubCell(a, b))
EqualSetsEqualStream == (A = B) => (\A i \in 1..Len(cells) : Zero(cells[i])) /\ Decoded
\* the stream is eventually fully received and every attempt ends
Terminates == <>[](Len(cells) = M /\ Idle)
=============================================================================
