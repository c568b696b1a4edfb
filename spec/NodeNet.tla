------------------------------- MODULE NodeNet -------------------------------
(* The node program among others: programs that start in any order, dial the
   addresses listed until somebody listens there, accept connections, exchange keys,
   register peers with the controller, generate transactions, and pass on what they
   decode. Codewords are abstracted to the transactions that they let the other side
   decode (LtCore has the codewords, NodeQueues the channels inside of a program). *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Nodes,
          Listed,    \* node -> nodes whose addresses are on its command line
          Silent,    \* nodes that somebody connects to who never says anything
          Inline,    \* TRUE: the accept loop exchanges keys itself
          Retry,     \* FALSE: an address is dialled only once
          ToSource,  \* FALSE: what was decoded is not told to the decoders of other connections
          Txs, Early \* TRUE: transactions are generated before the connections are there

Mute == 0   \* the peer who never says anything

VARIABLES up, failed,  \* failed: dialled in vain and given up
          queue,       \* node -> connections that the system has accepted for it
          hand,        \* node -> connections whose key exchange goes on in the accepting program
          dialled,     \* connections made
          peers,       \* node -> registered connections
          box,         \* node -> transactions for the controller, with the decoder they came from
          enc, dec,    \* node -> connection -> transactions of the encoder, the decoder
          total, made, \* transactions decoded; generated: tx -> node
          wired        \* the connections were all there when it was generated
vars == <<up, failed, queue, hand, dialled, peers, box, enc, dec, total, made, wired>>

Conns == {<<a, b>> : a \in Nodes, b \in Nodes} \cup {<<Mute, b>> : b \in Nodes}
Wanted == {c \in Conns : c[1] \in Nodes /\ c[2] \in Listed[c[1]]}
Ends(c) == {c[1], c[2]} \cap Nodes
Other(n, c) == IF c[1] = n THEN c[2] ELSE c[1]

Init == /\ up = {} /\ failed = {} /\ queue = [n \in Nodes |-> <<>>] /\ hand = [n \in Nodes |-> {}]
        /\ dialled = {} /\ peers = [n \in Nodes |-> {}] /\ box = [n \in Nodes |-> <<>>]
        /\ enc = [n \in Nodes |-> [c \in Wanted |-> {}]] /\ dec = [n \in Nodes |-> [c \in Wanted |-> {}]]
        /\ total = [n \in Nodes |-> 0] /\ made = <<>> /\ wired = {}

Start(n) == n \notin up /\ up' = up \cup {n}
            /\ UNCHANGED <<failed, queue, hand, dialled, peers, box, enc, dec, total, made, wired>>
Dial(c) ==
  /\ c[1] \in up /\ c \notin dialled \cup failed
  /\ IF c[2] \in up
     THEN queue' = [queue EXCEPT ![c[2]] = Append(@, c)] /\ dialled' = dialled \cup {c} /\ UNCHANGED failed
     ELSE ~Retry /\ failed' = failed \cup {c} /\ UNCHANGED <<queue, dialled>>
  /\ UNCHANGED <<up, hand, peers, box, enc, dec, total, made, wired>>
Intrude(b) ==
  LET c == <<Mute, b>> IN
  /\ b \in up /\ c \notin dialled
  /\ queue' = [queue EXCEPT ![b] = Append(@, c)] /\ dialled' = dialled \cup {c}
  /\ UNCHANGED <<up, failed, hand, peers, box, enc, dec, total, made, wired>>
\* the key of b is on its way from here on
Accept(b) ==
  /\ queue[b] # <<>> /\ (Inline => hand[b] = {})
  /\ hand' = [hand EXCEPT ![b] = @ \cup {Head(queue[b])}] /\ queue' = [queue EXCEPT ![b] = Tail(@)]
  /\ UNCHANGED <<up, failed, dialled, peers, box, enc, dec, total, made, wired>>
RegisterIn(b, c) ==
  /\ c \in hand[b] /\ c[1] # Mute
  /\ hand' = [hand EXCEPT ![b] = @ \ {c}] /\ peers' = [peers EXCEPT ![b] = @ \cup {c}]
  /\ UNCHANGED <<up, failed, queue, dialled, box, enc, dec, total, made, wired>>
RegisterOut(c) ==
  /\ c \in dialled /\ c[1] # Mute /\ c \notin peers[c[1]]
  /\ c \in hand[c[2]] \cup peers[c[2]]
  /\ peers' = [peers EXCEPT ![c[1]] = @ \cup {c}]
  /\ UNCHANGED <<up, failed, queue, hand, dialled, box, enc, dec, total, made, wired>>

AllWired == \A c \in Wanted : \A n \in Ends(c) : c \in peers[n]
Generate(n, t) ==
  /\ n \in up /\ t \notin DOMAIN made /\ (Early \/ AllWired)
  /\ made' = [x \in DOMAIN made \cup {t} |-> IF x = t THEN n ELSE made[x]]
  /\ wired' = IF AllWired THEN wired \cup {t} ELSE wired
  /\ box' = [box EXCEPT ![n] = Append(@, t)]
  /\ UNCHANGED <<up, failed, queue, hand, dialled, peers, enc, dec, total>>
\* the controller tells the encoders and the decoders of all connections
Control(n) ==
  /\ box[n] # <<>>
  /\ LET t == Head(box[n]) IN
     /\ enc' = [enc EXCEPT ![n] = [c \in Wanted |-> IF c \in peers[n] THEN @[c] \cup {t} ELSE @[c]]]
     /\ dec' = [dec EXCEPT ![n] = [c \in Wanted |-> IF c \in peers[n] /\ ToSource THEN @[c] \cup {t} ELSE @[c]]]
  /\ box' = [box EXCEPT ![n] = Tail(@)]
  /\ UNCHANGED <<up, failed, queue, hand, dialled, peers, total, made, wired>>
Decode(n, c, t) ==
  /\ c \in peers[n] /\ t \in enc[Other(n, c)][c] \ dec[n][c]
  /\ dec' = [dec EXCEPT ![n][c] = @ \cup {t}]
  /\ box' = [box EXCEPT ![n] = Append(@, t)]
  /\ total' = [total EXCEPT ![n] = @ + 1]
  /\ UNCHANGED <<up, failed, queue, hand, dialled, peers, enc, made, wired>>

Next == \/ \E n \in Nodes : Start(n) \/ Accept(n) \/ Control(n)
        \/ \E c \in Wanted : Dial(c) \/ RegisterOut(c)
        \/ \E n \in Nodes, c \in Wanted : RegisterIn(n, c) \/ \E t \in Txs : Decode(n, c, t)
        \/ \E n \in Silent : Intrude(n)
        \/ \E n \in Nodes, t \in Txs : Generate(n, t)
Fair == /\ \A n \in Nodes : WF_vars(Start(n)) /\ WF_vars(Accept(n)) /\ WF_vars(Control(n))
        /\ \A c \in Wanted : WF_vars(Dial(c)) /\ WF_vars(RegisterOut(c))
        /\ \A n \in Nodes, c \in Wanted : WF_vars(RegisterIn(n, c)) /\ \A t \in Txs : WF_vars(Decode(n, c, t))
Spec == Init /\ [][Next]_vars /\ Fair

-----------------------------------------------------------------------------
Knows(n) == {t \in DOMAIN made : made[t] = n \/ \E c \in Wanted : t \in dec[n][c]}
Idle == ~ENABLED Next
\* when nothing can happen any more, everything that had to happen has happened
Connected == Idle => AllWired
Spread == Idle => \A t \in wired, n \in Nodes : t \in Knows(n)
\* holds on trees: in a ring, a transaction may come from two sides at the same time
CountOnce == \A n \in Nodes : total[n] <= Cardinality({t \in Knows(n) : made[t] # n})
Counted == Idle => \A n \in Nodes : total[n] >= Cardinality({t \in wired : made[t] # n})
Registered == \A n \in Nodes : peers[n] \subseteq {c \in Wanted : n \in Ends(c)} /\ peers[n] \subseteq dialled
OneSide == \A c \in Wanted : c \in peers[c[2]] => c \in dialled

EventuallyWired == <>[]AllWired
EventuallySpread == \A t \in Txs : (t \in wired) ~> (\A n \in Nodes : t \in Knows(n))

\* topologies
Line3 == [n \in Nodes |-> IF n = 1 THEN {2} ELSE IF n = 3 THEN {2} ELSE {}]
Line4 == [n \in Nodes |-> IF n = 4 THEN {} ELSE {n + 1}]
Tree5 == [n \in Nodes |-> IF n = 1 THEN {2, 3} ELSE IF n \in {4, 5} THEN {2} ELSE {}]
Line3b == [n \in Nodes |-> IF n = 3 THEN {} ELSE {n + 1}]
Ring3 == [n \in Nodes |-> IF n = 3 THEN {1} ELSE {n + 1}]
Star4 == [n \in Nodes |-> IF n = 1 THEN {2, 3, 4} ELSE {}]
==============================================================================
