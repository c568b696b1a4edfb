-------------------------------- MODULE LtCore --------------------------------
(* Vocabulary of the LT codecs (packages lt, iblt, ldpc).

   A transaction is a positive integer; transaction data is the SET of
   transactions whose XOR it is (the XOR group of independent transactions is
   the symmetric-difference group of sets).  cls[x] > 0 is the salted hash of
   transaction x; transactions with equal cls are in hash conflict.  Data that is not
   a single transaction hashes to something that no codeword announces (0).

   Decoder state
     rec     salted hash -> [d, k]: data remembered for it, and since when
     recent  sequence of [h, d, k] in the order learned, oldest first
     cws     sequence of codewords received, [d, m, st, fr]:
             d remaining data, m remaining unknown members (sequence of hashes,
             a malformed codeword may repeat one), st: decoded, fr: freed by the user
     mem     memory size
     cnt     number of transactions learned *)
EXTENDS Integers, FiniteSets, Sequences, TLC

SymDiff(a, b) == TLCEval((a \ b) \cup (b \ a))
RngOf(q) == {q[i] : i \in 1..Len(q)}
HashOf(cls, d) == IF Cardinality(d) = 1 /\ (CHOOSE x \in d : TRUE) \in DOMAIN cls
                  THEN cls[CHOOSE x \in d : TRUE] ELSE 0

Without(m, h) == SelectSeq(m, LAMBDA y : y # h)
Occurs(m, h) == Len(m) - Len(Without(m, h))

\* remove one known transaction from a codeword
PeelOne(cw, h, d) ==
  IF Occurs(cw.m, h) = 0 THEN cw
  ELSE [cw EXCEPT !.m = Without(cw.m, h),
                  !.d = IF Occurs(cw.m, h) % 2 = 1 THEN SymDiff(@, d) ELSE @]

FreshDecoder(mem) == [rec |-> <<>>, recent |-> <<>>, cws |-> <<>>, mem |-> mem, cnt |-> 0]

\* remember a transaction, forget the oldest beyond the memory size.  A hash is
\* forgotten only if nothing was remembered for it since: a transaction that is in
\* hash conflict with it, or the same one that returned after such a transaction.
RECURSIVE Forget(_)
Forget(s) ==
  IF Len(s.recent) <= s.mem THEN s
  ELSE LET o == Head(s.recent)
           drop == o.h \in DOMAIN s.rec /\ s.rec[o.h].k = o.k
       IN Forget([s EXCEPT !.recent = Tail(@),
                           !.rec = IF drop THEN TLCEval([h \in DOMAIN s.rec \ {o.h} |-> s.rec[h]]) ELSE @])
Remember(s, h, d) ==
  Forget([s EXCEPT !.rec = (h :> [d |-> d, k |-> s.cnt]) @@ @,
                  !.recent = Append(@, [h |-> h, d |-> d, k |-> s.cnt]), !.cnt = @ + 1])

\* learn transaction data d with hash h, which was not known: remember it and
\* peel it from every codeword that waits for it
Learn(s, h, d) ==
  LET t == Remember(s, h, d)
  IN [t EXCEPT !.cws = TLCEval([j \in 1..Len(@) |-> PeelOne(@[j], h, d)])]

\* a received codeword with the known members removed
RECURSIVE PeelKnown(_, _, _)
PeelKnown(rec, cw, ms) ==
  IF ms = <<>> THEN cw
  ELSE LET h == Head(ms) IN
       PeelKnown(rec, IF h \in DOMAIN rec
                      THEN [cw EXCEPT !.d = SymDiff(@, rec[h].d)]
                      ELSE [cw EXCEPT !.m = Append(@, h)], Tail(ms))
NewCodeword(s, d, m) ==
  [s EXCEPT !.cws = Append(@, PeelKnown(s.rec, [d |-> d, m |-> <<>>, st |-> FALSE, fr |-> FALSE], m))]

\* codewords from which transaction x can be released now
Sources(s, cls, x) ==
  {j \in 1..Len(s.cws) : LET c == s.cws[j] IN ~c.st /\ c.d = {x} /\ Len(c.m) = 1 /\ c.m[1] = HashOf(cls, {x})}
\* all transactions that could be released now
Ready(s, cls) ==
  {j \in 1..Len(s.cws) : LET c == s.cws[j] IN ~c.st /\ Len(c.m) = 1 /\ HashOf(cls, c.d) = c.m[1]}

\* end of an operation: codewords with no unknown member are decoded; one whose
\* last member cannot be its data (hash conflict) is given up
Settle(s) ==
  [s EXCEPT !.cws = TLCEval([j \in 1..Len(@) |->
       IF ~@[j].st /\ Len(@[j].m) <= 1 THEN [@[j] EXCEPT !.st = TRUE, !.m = <<>>] ELSE @[j]])]

\* any transaction of class h known?
Knows(s, cls, x) == cls[x] \in DOMAIN s.rec
=============================================================================
