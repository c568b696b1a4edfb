--------------------------------- MODULE Pull ---------------------------------
(* Design specification of gossip by announcement, request and response. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N, Links, Tx, GenBy

VARIABLES rcv, known, ch, reqs, gend, proc
vars == <<rcv, known, ch, reqs, gend, proc>>

Line3 == {<<1, 2>>, <<2, 3>>}
Triangle == {<<1, 2>>, <<2, 3>>, <<1, 3>>}
Star4 == {<<1, 2>>, <<1, 3>>, <<1, 4>>}
Square == {<<1, 2>>, <<2, 3>>, <<3, 4>>, <<4, 1>>}
Gen1 == [x \in Tx |-> x]

Nodes == 1..N
Dirs == Links \cup {<<d[2], d[1]>> : d \in Links}
Peers(i) == {d[2] : d \in {e \in Dirs : e[1] = i}}

\* known[<<i, p>>]: what i knows that p has or was told about
Init == /\ rcv = [i \in Nodes |-> {}] /\ known = [d \in Dirs |-> {}]
        /\ ch = [d \in Dirs |-> <<>>] /\ reqs = [d \in Dirs |-> <<>>] /\ gend = {}
        /\ proc = [i \in Nodes |-> <<>>]

Announce(i, F, not, c) == [d \in Dirs |-> IF d[1] = i /\ d[2] # not /\ F # {}
                                          THEN Append(c[d], [k |-> "ann", x |-> CHOOSE x \in F : TRUE]) ELSE c[d]]
Learn(i, F, not) ==
  /\ rcv' = [rcv EXCEPT ![i] = @ \cup F]
  /\ proc' = [proc EXCEPT ![i] = IF F = {} THEN @ ELSE Append(@, CHOOSE x \in F : TRUE)]

Generate(x) ==
  /\ x \notin gend /\ gend' = gend \cup {x}
  /\ Learn(GenBy[x], {x}, 0)
  /\ known' = [d \in Dirs |-> IF d[1] = GenBy[x] THEN known[d] \cup {x} ELSE known[d]]
  /\ ch' = Announce(GenBy[x], {x}, 0, ch)
  /\ UNCHANGED reqs

Deliver(d) ==
  /\ ch[d] # <<>>
  /\ LET m == Head(ch[d])  i == d[2]  p == d[1]  b == <<i, p>>
         c == [ch EXCEPT ![d] = Tail(@)]
     IN CASE m.k = "ann" ->
               IF m.x \in known[b] THEN ch' = c /\ UNCHANGED <<rcv, known, reqs, gend, proc>>
               ELSE /\ ch' = [c EXCEPT ![b] = Append(@, [k |-> "req", x |-> m.x])]
                    /\ reqs' = [reqs EXCEPT ![b] = Append(@, m.x)]
                    /\ UNCHANGED <<rcv, known, gend, proc>>
          [] m.k = "req" ->
               /\ m.x \in known[b]
               /\ ch' = [c EXCEPT ![b] = Append(@, [k |-> "rsp", x |-> m.x])]
               /\ UNCHANGED <<rcv, known, reqs, gend, proc>>
          [] m.k = "rsp" ->
               LET F == {m.x} \ rcv[i] IN
               /\ Learn(i, F, p)
               /\ known' = [e \in Dirs |-> IF e = b THEN known[e] \cup {m.x} ELSE IF e[1] = i THEN known[e] \cup F ELSE known[e]]
               /\ ch' = Announce(i, F, p, c)
               /\ UNCHANGED <<reqs, gend>>
Next == (\E x \in Tx : Generate(x)) \/ (\E d \in Dirs : Deliver(d))
Spec == Init /\ [][Next]_vars /\ (\A x \in Tx : WF_vars(Generate(x))) /\ (\A d \in Dirs : WF_vars(Deliver(d)))

NoDup(q) == \A a, b \in 1..Len(q) : a # b => q[a] # q[b]
RequestedOnce == \A d \in Dirs : NoDup(reqs[d])
ProcessedOnce == \A i \in Nodes : NoDup(proc[i])
Sound == \A i \in Nodes : rcv[i] \subseteq gend
Answerable == \A d \in Dirs : ch[d] # <<>> => (Head(ch[d]).k = "req" => Head(ch[d]).x \in known[<<d[2], d[1]>>])
NeverWhenHeld == [][\A d \in Dirs : Len(reqs'[d]) > Len(reqs[d]) => reqs'[d][Len(reqs'[d])] \notin rcv[d[1]]]_vars
Everywhere == <>[](\A i \in Nodes : rcv[i] = Tx)
=============================================================================
