------------------------------- MODULE LtTrace -------------------------------
(* Judges executions of packages lt, iblt and ldpc recorded by harness/lt. *)
EXTENDS LtCore, TraceBase

VARIABLES l,      \* next trace position
          kind,   \* kind of session: decides which property its obligations belong to
          cls,    \* transaction -> salted hash
          enc,    \* encoder -> [win, ws]   win: sequence of transactions, oldest first
          dec     \* decoder -> state of LtCore (+ freed positions in cws[j].fr)
vars == <<l, kind, cls, enc, dec>>

\* whose obligations: of the property itself in ordinary sessions, and of the
\* property the session is about.  (With hash conflicts C09 and C10 do not apply;
\* handles of a pooled decoder are the subject of C13.)
For(p) == CASE kind.k = "memory" -> {p, "C11"}
            [] kind.k = "conflict" -> {"C11", "C12"}
            [] kind.k = "pool" -> {"C13"}
            [] OTHER -> {p}

Init == l = 1 /\ kind = [k |-> "", codec |-> ""] /\ cls = <<>> /\ enc = <<>> /\ dec = <<>>
New(e) == /\ kind' = [k |-> e.kind, codec |-> e.codec] /\ cls' = e.cls
          /\ enc' = <<>> /\ dec' = <<>>

-----------------------------------------------------------------------------
\* encoders
ClsOf(q) == [i \in 1..Len(q) |-> cls[q[i]]]
LastN(q, n) == IF Len(q) <= n THEN q ELSE SubSeq(q, Len(q) - n + 1, Len(q))

EncNew(e) == enc' = Put(enc, e.e, [win |-> <<>>, ws |-> e.ws]) /\ UNCHANGED <<kind, cls, dec>>
EncReset(e) == enc' = [enc EXCEPT ![e.e] = [win |-> <<>>, ws |-> e.ws]] /\ UNCHANGED <<kind, cls, dec>>
EncAdd(e) ==
  LET o == enc[e.e]
      new == cls[e.x] \notin Range(ClsOf(o.win))
  IN /\ Chk(l, "C07", "adding reports whether the transaction was new to the window", e.ok = new)
     /\ enc' = [enc EXCEPT ![e.e].win = IF new THEN LastN(Append(@, e.x), o.ws) ELSE @]
     /\ UNCHANGED <<kind, cls, dec>>
EncProduce(e) ==
  LET o == enc[e.e]
      k == Min(e.deg, Len(o.win))
      S == Range(e.s)
  IN /\ IF e.deg < Len(o.win) THEN TRUE
        ELSE Chk(l, "C07", "the window holds exactly the latest transactions", S = Range(o.win) /\ Range(e.m) = Range(ClsOf(o.win)))
     /\ Chk(l, "C08", "codeword covers as many transactions as its degree", Cardinality(S) = k /\ Len(e.m) = k)
     /\ Chk(l, "C08", "data is the combination of transactions of the window", 0 \notin S /\ S \subseteq Range(o.win))
     /\ Chk(l, "C08", "members are exactly the hashes of the covered transactions",
            NoDuplicates(e.m) /\ 0 \notin S /\ Range(e.m) = {cls[x] : x \in S})
     /\ UNCHANGED <<kind, cls, enc, dec>>
\* codewords produced earlier, looked at once more
EncKept(e) ==
  /\ Chk(l, "C08", "codewords stay what they were when they were produced", e.ok)
  /\ UNCHANGED <<kind, cls, enc, dec>>
EncCover(e) ==
  /\ Chk(l, "C08", "every transaction of the window can be selected", Range(e.seen) = Range(ClsOf(enc[e.e].win)))
  /\ UNCHANGED <<kind, cls, enc, dec>>

-----------------------------------------------------------------------------
\* decoders: rel is processed in the order in which the transactions were
\* released; each needs a codeword that gives it at that point
RECURSIVE Releases(_, _, _, _)
Releases(s, rel, exp, i) ==
  IF i > Len(rel) THEN [s |-> s, bad |-> ""]
  ELSE LET x == rel[i]
           src == IF x = 0 THEN {} ELSE Sources(s, cls, x)
       IN IF x = 0 THEN [s |-> s, bad |-> "content"]
          ELSE IF cls[x] \in DOMAIN s.rec THEN [s |-> s, bad |-> "known"]
          ELSE IF src = {} THEN [s |-> s, bad |-> "source"]
          ELSE LET j == {k \in src : s.cws[k].fr = (exp[i] = 1)}
                   t == Learn(s, cls[x], {x})
               IN IF j = {} THEN [s |-> s, bad |-> "expired"]
                  ELSE Releases(TLCEval([t EXCEPT !.cws[CHOOSE k \in j : TRUE].st = TRUE]), rel, exp, i + 1)

Done(s) == {j \in 1..Len(s.cws) : s.cws[j].st /\ ~s.cws[j].fr}
Observed(e, s) ==
  /\ ChkAny(l, For("C10"), "codewords reported decoded", Range(e.done) = Done(s))
  /\ ChkAny(l, For("C09"), "number of transactions learned", e.count # -1 => e.count = s.cnt)
  /\ ChkAny(l, For("C09"), "transactions reported as known",
            Has(e, "known") => Range(e.known) = {x \in DOMAIN cls : cls[x] \in DOMAIN s.rec})
  /\ ChkAny(l, For("C09") \cup For("C10"), "released transactions keep their content", e.intact)

After(e, s0) ==
  LET r == Releases(s0, e.rel, e.exp, 1)
      s == TLCEval(Settle(r.s))
  IN /\ ChkAny(l, For("C09") \cup For("C10"), "released transaction has the content of a codeword", r.bad # "content")
     /\ ChkAny(l, For("C09") \cup For("C10"), "released transaction was not known", r.bad # "known")
     /\ ChkAny(l, For("C09") \cup For("C10"), "released transaction comes from a received codeword", r.bad # "source")
     /\ Chk(l, "C13", "released transaction expired iff its codeword was freed", r.bad # "expired")
     /\ r.bad = ""
     /\ ChkAny(l, For("C09") \cup For("C10"), "everything that peels was released", Ready(r.s, cls) = {})
     /\ Observed(e, s)
     /\ dec' = [dec EXCEPT ![e.d] = s]
     /\ UNCHANGED <<kind, cls, enc>>

DecNew(e) == LET s == FreshDecoder(e.mem) IN
             Observed(e, s) /\ dec' = Put(dec, e.d, s) /\ UNCHANGED <<kind, cls, enc>>
DecCodeword(e) == After(e, NewCodeword(dec[e.d], Range(e.s), e.m))
DecTx(e) ==
  LET s == dec[e.d]  h == cls[e.x] IN
  IF h \in DOMAIN s.rec
  THEN After(e, IF s.rec[h].d = {e.x} THEN s ELSE Remember(s, h, {e.x}))
  ELSE After(e, Learn(s, h, {e.x}))
DecFree(e) ==
  LET s == [dec[e.d] EXCEPT !.cws[e.i].fr = TRUE]
  IN Observed(e, s) /\ dec' = [dec EXCEPT ![e.d] = s] /\ UNCHANGED <<kind, cls, enc>>

Crash(e) == ChkAny(l, CASE kind.k = "window" -> {"C07", "C08"}
                        [] kind.k \in {"plain", "memory"} -> {"C09", "C10"} \cup For("C09")
                        [] OTHER -> For(""), "crash or hang: " \o e.why, FALSE) /\ UNCHANGED <<kind, cls, enc, dec>>
Mismatch(e) == ChkAny(l, {"C09", "C10", "C11"}, "generated behaviour not followed: " \o e.why, FALSE) /\ UNCHANGED <<kind, cls, enc, dec>>

Step(e) ==
  CASE e.ev = "new" -> New(e)
    [] e.ev = "en" -> EncNew(e)
    [] e.ev = "er" -> EncReset(e)
    [] e.ev = "ea" -> EncAdd(e)
    [] e.ev = "ep" -> EncProduce(e)
    [] e.ev = "ec" -> EncCover(e)
    [] e.ev = "ek" -> EncKept(e)
    [] e.ev = "dn" -> DecNew(e)
    [] e.ev = "dc" -> DecCodeword(e)
    [] e.ev = "dt" -> DecTx(e)
    [] e.ev = "df" -> DecFree(e)
    [] e.ev = "early" -> Early(e, l)
    [] e.ev = "crash" -> Crash(e)
    [] e.ev = "mismatch" -> Mismatch(e)

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
Note == Reached(l)
=============================================================================
