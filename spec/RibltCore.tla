------------------------------ MODULE RibltCore ------------------------------
(* Vocabulary of the rateless IBLT codec (package riblt).

   A symbol is a positive integer.  Where the implementation keeps the XOR of
   symbol data, the specification keeps the SET of symbols that occur an odd
   number of times (the XOR group of independent symbols is exactly the
   symmetric-difference group of sets).  A coded symbol ("cell") is a record
     s: that set,  n: the signed number of symbols in it.
   The checksum (XOR of the hashes) carries the same information as s as long
   as no two sets of symbols have equal checksums, so it is not repeated here;
   the harness reports for every observed cell whether its checksum is the one
   that belongs to s.

   Where symbols go is a parameter: map[x] is the set of coded-symbol indices
   that symbol x contributes to.  The implementation derives it from the hash. *)
EXTENDS Integers, FiniteSets, Sequences, TLC

SymDiff(a, b) == (a \ b) \cup (b \ a)

EmptyCell == [s |-> {}, n |-> 0]

\* direction +1: add, -1: remove
ApplyTo(cell, x, dir) == [s |-> SymDiff(cell.s, {x}), n |-> cell.n + dir]

\* the cell of index i of the stream of a set A
CellOf(map, A, i) == LET In == {x \in A : i \in map[x]}
                     IN [s |-> In, n |-> Cardinality(In)]

SubCell(a, b) == [s |-> SymDiff(a.s, b.s), n |-> a.n - b.n]
NegCell(a) == [s |-> a.s, n |-> -a.n]

\* what a receiver that recovered R (remote) and L (local) still sees of a cell
\* with index i
Residual(map, cell, i, R, L) ==
   LET r == {x \in R : i \in map[x]}
       l == {x \in L : i \in map[x]}
   IN [s |-> SymDiff(SymDiff(cell.s, r), l),
       n |-> cell.n - Cardinality(r) + Cardinality(l)]

Pure(cell) == Cardinality(cell.s) = 1 /\ cell.n \in {1, -1}
Zero(cell) == cell.s = {} /\ cell.n = 0

\* One parallel peeling round over the cells (sequence; cell at position i has
\* index i-1), starting from the recovered sets R and L.
PeelRound(map, cells, R, L) ==
   LET res == {Residual(map, cells[i], i-1, R, L) : i \in 1..Len(cells)}
   IN [R |-> R \cup UNION {c.s : c \in {d \in res : Pure(d) /\ d.n = 1}},
       L |-> L \cup UNION {c.s : c \in {d \in res : Pure(d) /\ d.n = -1}}]

RECURSIVE PeelClosure(_, _, _, _)
PeelClosure(map, cells, R, L) ==
   LET p == PeelRound(map, cells, R, L)
   IN IF p.R = R /\ p.L = L THEN p ELSE PeelClosure(map, cells, p.R, p.L)

\* The same closure on cells from which R and L were removed already.
RemoveAll(map, res, newR, newL) ==
   TLCEval([i \in 1..Len(res) |-> Residual(map, res[i], i-1, newR, newL)])
RECURSIVE PeelResiduals(_, _, _, _)
PeelResiduals(map, res, R, L) ==
   LET pure == TLCEval({res[i] : i \in {k \in 1..Len(res) : Pure(res[k])}})
       newR == TLCEval((UNION {c.s : c \in {d \in pure : d.n = 1}}) \ R)
       newL == TLCEval((UNION {c.s : c \in {d \in pure : d.n = -1}}) \ L)
   IN IF newR = {} /\ newL = {} THEN [res |-> res, R |-> R, L |-> L]
      ELSE PeelResiduals(map, RemoveAll(map, res, newR, newL), TLCEval(R \cup newR), TLCEval(L \cup newL))
AllZero(res) == \A i \in 1..Len(res) : Zero(res[i])

Explained(map, cells, R, L) ==
   \A i \in 1..Len(cells) : Zero(Residual(map, cells[i], i-1, R, L))
=============================================================================
