-------------------------------- MODULE LtGen --------------------------------
(* All sequences of operations on a decoder with ample or small memory, without
   hash conflicts, with what each of them releases and what is decoded after it. *)
EXTENDS LtCore, Json

CONSTANTS N, Mem, MaxOps
Tx == 1..N
Cls == [x \in Tx |-> x]

VARIABLES s, hist
vars == <<s, hist>>

RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o AsSeq(S \ {x})

\* without hash conflicts and forgetting inside an operation the order of
\* processing does not matter
RECURSIVE Cascade(_, _)
Cascade(t, rel) ==
  LET r == Ready(t, Cls) IN
  IF r = {} THEN [s |-> Settle(t), rel |-> rel]
  ELSE LET j == CHOOSE k \in r : TRUE
           x == CHOOSE y \in t.cws[j].d : TRUE
       IN Cascade(TLCEval([Learn(t, Cls[x], {x}) EXCEPT !.cws[j].st = TRUE]), rel \cup {x})

DoneOf(t) == {j \in 1..Len(t.cws) : t.cws[j].st}
Init == s = FreshDecoder(Mem) /\ hist = <<>>
Rec(op, x, S, r) == Append(hist, [op |-> op, x |-> x, s |-> AsSeq(S), rel |-> AsSeq(r.rel), done |-> AsSeq(DoneOf(r.s))])
Next ==
  /\ Len(hist) < MaxOps
  /\ \/ \E x \in Tx : LET r == TLCEval(Cascade(IF x \in DOMAIN s.rec THEN s ELSE Learn(s, x, {x}), {}))
                      IN s' = r.s /\ hist' = Rec("tx", x, {}, r)
     \/ \E S \in (SUBSET Tx) \ {{}} :
          LET r == TLCEval(Cascade(NewCodeword(s, S, AsSeq(S)), {}))
          IN s' = r.s /\ hist' = Rec("cw", 0, S, r)
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = MaxOps => PrintT(ToJson([n |-> N, mem |-> Mem, hist |-> hist]))
=============================================================================
