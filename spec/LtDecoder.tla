------------------------------ MODULE LtDecoder ------------------------------
(* Design specification of the peeling decoder.  An operation (a codeword
   arrives, a transaction is learned locally) puts codewords into a work queue;
   the queue is then processed one codeword at a time, in any order. *)
EXTENDS LtCore

CONSTANTS Tx,        \* 1..n
          ClsSeq,    \* sequence: salted hash of every transaction
          MaxOps,
          Memories,  \* set of memory sizes
          Malformed  \* TRUE: codewords with arbitrary data and members as well

VARIABLES s,         \* decoder state
          queue,     \* set of codeword positions to process
          out,       \* sequence of transactions released by the current operation
          released,  \* ghost: sequence of all transactions released
          learned,   \* ghost: sequence of the transactions learned (released or local)
          hist       \* ghost: what every codeword contained: [d, m]
vars == <<s, queue, out, released, learned, hist>>

NoConflicts == <<1, 2, 3, 4>>
OneConflict == <<1, 1, 2, 3>>
Cls == [x \in Tx |-> ClsSeq[x]]
Hashes == {ClsSeq[x] : x \in Tx}
Ops == Len(hist)

RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o AsSeq(S \ {x})

Init == /\ \E m \in Memories : s = FreshDecoder(m)
        /\ queue = {} /\ out = <<>> /\ released = <<>> /\ learned = <<>> /\ hist = <<>>

Idle == queue = {}
Decodable(t) == {j \in 1..Len(t.cws) : ~t.cws[j].st /\ Len(t.cws[j].m) <= 1}

Codeword(d, m) ==
  LET t == NewCodeword(s, d, m) IN
  /\ s' = t
  /\ queue' = Decodable(t)
  /\ out' = <<>>
  /\ hist' = Append(hist, [op |-> "cw", d |-> d, m |-> m])
  /\ UNCHANGED <<released, learned>>

AddCodeword ==
  /\ Idle /\ Len(hist) < MaxOps
  /\ \/ \E d \in (SUBSET Tx) \ {{}} : Codeword(d, [i \in 1..Cardinality(d) |-> Cls[AsSeq(d)[i]]])
     \/ /\ Malformed
        /\ \E d \in SUBSET Tx, m \in UNION {[1..k -> Hashes] : k \in 0..2} : Codeword(d, m)

AddTransaction ==
  /\ Idle /\ Len(hist) < MaxOps
  /\ \E x \in Tx :
       /\ hist' = Append(hist, [op |-> "tx", x |-> x])
       /\ out' = <<>> /\ UNCHANGED released
       /\ LET h == Cls[x] IN
          IF h \in DOMAIN s.rec
          THEN IF s.rec[h].d = {x}
               THEN UNCHANGED <<s, queue, learned>>
               ELSE s' = Remember(s, h, {x}) /\ queue' = {} /\ learned' = Append(learned, x)
          ELSE LET t == Learn(s, h, {x}) IN s' = t /\ queue' = Decodable(t) /\ learned' = Append(learned, x)

\* process one queued codeword
Process ==
  \E j \in queue :
    LET c == s.cws[j] IN
    /\ IF Len(c.m) = 0
       THEN /\ s' = [s EXCEPT !.cws[j].st = TRUE]
            /\ UNCHANGED <<out, released, learned>>
            /\ queue' = queue \ {j}
       ELSE IF HashOf(Cls, c.d) # c.m[1]
       THEN /\ s' = [s EXCEPT !.cws[j].st = TRUE, !.cws[j].m = <<>>]
            /\ UNCHANGED <<out, released, learned>>
            /\ queue' = queue \ {j}
       ELSE LET x == CHOOSE y \in c.d : TRUE
                t0 == Learn(s, c.m[1], c.d)
                t == [t0 EXCEPT !.cws[j].st = TRUE]
            IN /\ s' = t
               /\ out' = Append(out, x) /\ released' = Append(released, x) /\ learned' = Append(learned, x)
               /\ queue' = (queue \ {j}) \cup {k \in Decodable(t) : k # j}
    /\ UNCHANGED hist

Next == AddCodeword \/ AddTransaction \/ Process
Spec == Init /\ [][Next]_vars /\ WF_vars(Process)

---------------------------------------------------------------------------
NoConflict == \A x, y \in Tx : Cls[x] = Cls[y] => x = y
HasRoom == s.mem >= Cardinality(Tx)
NoDup(q) == Cardinality(RngOf(q)) = Len(q)
CwOps == SelectSeq(hist, LAMBDA e : e.op = "cw")

\* C09
ReleasedTrue == \A i \in 1..Len(released) : \E j \in 1..Len(CwOps) : released[i] \in CwOps[j].d \/ \E x \in RngOf(learned) : Cls[x] \in RngOf(CwOps[j].m)
ReleasedOnce == (NoConflict /\ HasRoom) => NoDup(released) /\ NoDup(learned)
\* C10
Closed == Idle => \A j \in 1..Len(s.cws) : s.cws[j].st \/ Len(s.cws[j].m) > 1
Truthful == (Idle /\ NoConflict /\ HasRoom /\ ~Malformed) =>
   \A j \in 1..Len(CwOps) : s.cws[j].st <=> CwOps[j].d \subseteq RngOf(learned)
\* declarative peeling closure of everything received, from the local transactions
RECURSIVE ClosureOf(_, _)
ClosureOf(K, ds) == LET new == UNION {d \ K : d \in {e \in ds : Cardinality(e \ K) = 1}}
                    IN IF new = {} THEN K ELSE ClosureOf(K \cup new, ds)
LocalTx == {hist[i].x : i \in {k \in 1..Len(hist) : hist[k].op = "tx"}}
ReachesClosure == (Idle /\ NoConflict /\ HasRoom /\ ~Malformed) =>
   RngOf(learned) = ClosureOf(LocalTx, {CwOps[j].d : j \in 1..Len(CwOps)})
DataMatchesMembers == (NoConflict /\ ~Malformed) =>
   \A j \in 1..Len(s.cws) : {Cls[x] : x \in s.cws[j].d} = RngOf(s.cws[j].m)
StatusFinal == [][\A j \in 1..Len(s.cws) : s.cws[j].st => s'.cws[j].st]_vars
\* C11
MemoryBound == Len(s.recent) <= s.mem /\ Cardinality(DOMAIN s.rec) <= s.mem
Min2(a, b) == IF a < b THEN a ELSE b
RemembersLast == NoConflict =>
   LET k == Min2(Len(learned), s.mem)
       last == {learned[i] : i \in (Len(learned) - k + 1)..Len(learned)}
   IN /\ DOMAIN s.rec = {Cls[x] : x \in last}
      /\ \A x \in last : s.rec[Cls[x]].d = {x}
\* C12: whatever is remembered is a real transaction with the right hash
RememberedTrue == \A h \in DOMAIN s.rec : HashOf(Cls, s.rec[h].d) = h
NeverBoth == \A h \in DOMAIN s.rec : \A j \in 1..Len(s.cws) : h \notin RngOf(s.cws[j].m)
\* isolation: what the conflict-free well-formed codewords give alone is learned anyway
Clean(e) == LET hs == {Cls[x] : x \in e.d} IN
            /\ Len(e.m) = Cardinality(e.d) /\ RngOf(e.m) = hs
            /\ \A x \in e.d : \A y \in Tx : Cls[x] = Cls[y] => x = y
Isolation == (Idle /\ HasRoom) =>
   ClosureOf({x \in LocalTx : \A y \in Tx : Cls[x] = Cls[y] => x = y},
             {CwOps[j].d : j \in {k \in 1..Len(CwOps) : Clean(CwOps[k])}}) \subseteq RngOf(learned)
QueueDrains == []<>Idle
=============================================================================
