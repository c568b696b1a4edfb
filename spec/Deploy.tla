-------------------------------- MODULE Deploy --------------------------------
(* Design of the experiment command: on every server the old node is stopped,
   then the program is replaced, started or its results are collected; servers
   work independently of each other, and anything may fail on any of them. *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Hosts, Links, MaxCmds, MaxFaults, KillFirst
VARIABLES ops, gen, pc, procs, prog, busy, failed, faults, got
vars == <<ops, gen, pc, procs, prog, busy, failed, faults, got>>
\* gen: number of commands begun; procs: host -> set of [gen, peers]; prog: host -> generation of the program
\* busy: the program was replaced while it ran; got: host -> results collected in this command

Steps(o) == CASE o = "install" -> {"install"} [] o = "run" -> {"run"} [] o = "dl" -> {"dl"} [] OTHER -> {"install", "run", "dl"}
Init == /\ ops = "none" /\ gen = 0 /\ pc = [h \in Hosts |-> "idle"] /\ procs = [h \in Hosts |-> {}] /\ prog = [h \in Hosts |-> 0]
        /\ busy = FALSE /\ failed = {} /\ faults = 0 /\ got = {}
First(o) == IF "install" \in Steps(o) THEN "ikill" ELSE IF "run" \in Steps(o) THEN "rkill" ELSE "dkill"
Begin(o) == ops = "none" /\ gen < MaxCmds /\ gen' = gen + 1 /\ ops' = o /\ pc' = [h \in Hosts |-> First(o)] /\ failed' = {} /\ got' = {}
            /\ UNCHANGED <<procs, prog, busy, faults>>
\* a phase begins when the previous one has ended on every server
Phase(p) == CASE p \in {"ikill", "copy", "iend"} -> 1 [] p \in {"rkill", "start", "rend"} -> 2 [] OTHER -> 3
AfterI == IF "run" \in Steps(ops) THEN "rkill" ELSE IF "dl" \in Steps(ops) THEN "dkill" ELSE "end"
AfterR == IF "dl" \in Steps(ops) THEN "dkill" ELSE "end"
Barrier == /\ ops # "none" /\ \/ /\ \A h \in Hosts : pc[h] = "iend"
                                 /\ pc' = [h \in Hosts |-> AfterI]
                              \/ /\ \A h \in Hosts : pc[h] = "rend"
                                 /\ pc' = [h \in Hosts |-> AfterR]
           /\ UNCHANGED <<ops, gen, procs, prog, busy, failed, faults, got>>
Next1(h, p) == pc' = [pc EXCEPT ![h] = p]
EndOf(p) == CASE Phase(p) = 1 -> "iend" [] Phase(p) = 2 -> "rend" [] OTHER -> "end"
Kill(h) == /\ pc[h] \in {"ikill", "rkill", "dkill"}
           /\ procs' = IF KillFirst THEN [procs EXCEPT ![h] = {}] ELSE procs
           /\ Next1(h, CASE pc[h] = "ikill" -> "copy" [] pc[h] = "rkill" -> "start" [] OTHER -> "fetch")
           /\ UNCHANGED <<ops, gen, prog, busy, failed, faults, got>>
Copy(h) == pc[h] = "copy" /\ prog' = [prog EXCEPT ![h] = gen] /\ busy' = (busy \/ procs[h] # {}) /\ Next1(h, "iend") /\ UNCHANGED <<ops, gen, procs, failed, faults, got>>
Start(h) == /\ pc[h] = "start" /\ procs' = [procs EXCEPT ![h] = @ \cup {[gen |-> gen, peers |-> {p[2] : p \in {p \in Links : p[1] = h}}]}]
            /\ Next1(h, "rend") /\ UNCHANGED <<ops, gen, prog, busy, failed, faults, got>>
Fetch(h) == pc[h] = "fetch" /\ got' = got \cup {h} /\ Next1(h, "end") /\ UNCHANGED <<ops, gen, procs, prog, busy, failed, faults>>
Fail(h) == /\ pc[h] \in {"ikill", "copy", "rkill", "start", "dkill", "fetch"} /\ faults < MaxFaults /\ faults' = faults + 1
           /\ failed' = failed \cup {h} /\ Next1(h, EndOf(pc[h])) /\ UNCHANGED <<ops, gen, procs, prog, busy, got>>
End == /\ ops # "none" /\ \A h \in Hosts : pc[h] = "end" \/ (pc[h] = "iend" /\ AfterI = "end") \/ (pc[h] = "rend" /\ AfterR = "end")
       /\ ops' = "none" /\ pc' = [h \in Hosts |-> "idle"] /\ UNCHANGED <<gen, procs, prog, busy, failed, faults, got>>
Next == \/ \E o \in {"install", "run", "dl", "all"} : Begin(o)
        \/ Barrier \/ End \/ \E h \in Hosts : Kill(h) \/ Copy(h) \/ Start(h) \/ Fetch(h) \/ Fail(h)
Spec == Init /\ [][Next]_vars /\ WF_vars(Barrier) /\ WF_vars(End) /\ \A h \in Hosts : WF_vars(Kill(h) \/ Copy(h) \/ Start(h) \/ Fetch(h))

OneNode == \A h \in Hosts : Cardinality(procs[h]) <= 1
NeverBusy == ~busy
\* when the nodes have been started, every server at which nothing failed runs its part of this topology
Running == ops = "run" /\ (\A h \in Hosts : pc[h] = "rend") =>
             \A h \in Hosts \ failed : procs[h] = {[gen |-> gen, peers |-> {p[2] : p \in {p \in Links : p[1] = h}}]}
Collected == ops \in {"dl", "all"} /\ (\A h \in Hosts : pc[h] = "end") => Hosts \ failed \subseteq got
Ends == ops # "none" ~> ops = "none"
TwoLinks == {<<1, 2>>, <<2, 1>>}
Chain3 == {<<1, 2>>, <<2, 3>>, <<1, 3>>}
=============================================================================
