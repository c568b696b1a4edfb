------------------------------- MODULE Testbed -------------------------------
(* Design of the cluster commands: one worker per region, a list of images that
   the workers of one command share behind a lock, a cloud in which every
   request may fail and the command may be killed at any point. *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Regs, Tags, N, MaxCmds, MaxFaults, MaxServers, Release, StopAll
\* Release: a worker that cannot get the list of images releases the lock
\* StopAll: stop terminates servers in every state (not only running ones)
None == "none"

VARIABLES srv, nid, op, pc, seen, lock, cached, faults, cmds, made, before, wrong
vars == <<srv, nid, op, pc, seen, lock, cached, faults, cmds, made, before, wrong>>
\* srv: [id, loc, tag, st]; op: command in progress; pc: region -> state of its worker
\* seen: region -> servers its worker found; made: region -> servers it started
\* before: servers of the tag when the command began; wrong: something was terminated that should not be

Live == {"pending", "running", "stopped"}
Init == /\ srv = {} /\ nid = 0 /\ op = [k |-> None, tag |-> None] /\ pc = [r \in Regs |-> "idle"]
        /\ seen = [r \in Regs |-> {}] /\ lock = None /\ cached = FALSE /\ faults = 0 /\ cmds = 0
        /\ made = [r \in Regs |-> 0] /\ before = {} /\ wrong = FALSE

Begin(k, t) ==
  /\ op.k = None /\ cmds < MaxCmds /\ cmds' = cmds + 1
  /\ op' = [k |-> k, tag |-> t]
  /\ pc' = [r \in Regs |-> IF k = "start" THEN "lock" ELSE "list"]
  /\ seen' = [r \in Regs |-> {}] /\ made' = [r \in Regs |-> 0] /\ cached' = FALSE /\ lock' = None
  /\ before' = {s.id : s \in {s \in srv : s.tag = t /\ s.st \in Live}}
  /\ UNCHANGED <<srv, nid, faults, wrong>>

Go(r, p) == pc' = [pc EXCEPT ![r] = p]
Fail(r) == faults < MaxFaults /\ faults' = faults + 1 /\ Go(r, "failed")

Lock(r) == pc[r] = "lock" /\ lock = None /\ lock' = r /\ Go(r, "image") /\ UNCHANGED <<srv, nid, op, seen, cached, faults, cmds, made, before, wrong>>
Image(r) == pc[r] = "image" /\ cached' = TRUE /\ lock' = None /\ Go(r, "prepare") /\ UNCHANGED <<srv, nid, op, seen, faults, cmds, made, before, wrong>>
ImageFails(r) == pc[r] = "image" /\ ~cached /\ Fail(r) /\ lock' = (IF Release THEN None ELSE lock) /\ UNCHANGED <<srv, nid, op, seen, cached, cmds, made, before, wrong>>
Prepare(r) == pc[r] = "prepare" /\ Go(r, "run") /\ UNCHANGED <<srv, nid, op, seen, lock, cached, faults, cmds, made, before, wrong>>
Request(r) == pc[r] \in {"prepare", "run", "list", "term"} /\ Fail(r) /\ UNCHANGED <<srv, nid, op, seen, lock, cached, cmds, made, before, wrong>>
Run(r) ==
  /\ pc[r] = "run" /\ nid + N <= MaxServers /\ nid' = nid + N /\ Go(r, "done")
  /\ srv' = srv \cup {[id |-> i, loc |-> r, tag |-> op.tag, st |-> "pending"] : i \in (nid + 1)..(nid + N)}
  /\ made' = [made EXCEPT ![r] = @ + N] /\ UNCHANGED <<op, seen, lock, cached, faults, cmds, before, wrong>>
\* the account has no room for more servers
Full(r) == pc[r] = "run" /\ nid + N > MaxServers /\ Go(r, "failed") /\ UNCHANGED <<srv, nid, op, seen, lock, cached, faults, cmds, made, before, wrong>>
List(r) ==
  /\ pc[r] = "list" /\ Go(r, "term")
  /\ seen' = [seen EXCEPT ![r] = {s.id : s \in {s \in srv : s.loc = r /\ s.tag = op.tag /\ s.st \in (IF StopAll THEN Live ELSE {"running"})}}]
  /\ UNCHANGED <<srv, nid, op, lock, cached, faults, cmds, made, before, wrong>>
Term(r) ==
  /\ pc[r] = "term" /\ Go(r, "done")
  /\ srv' = {IF s.id \in seen[r] THEN [s EXCEPT !.st = "gone"] ELSE s : s \in srv}
  /\ wrong' = (wrong \/ \E s \in srv : s.id \in seen[r] /\ s.tag # op.tag)
  /\ UNCHANGED <<nid, op, seen, lock, cached, faults, cmds, made, before>>

Over == \A r \in Regs : pc[r] \in {"done", "failed"}
End == op.k # None /\ Over /\ op' = [k |-> None, tag |-> None] /\ pc' = [r \in Regs |-> "idle"]
       /\ seen' = [r \in Regs |-> {}] /\ made' = [r \in Regs |-> 0] /\ before' = {} /\ UNCHANGED <<srv, nid, lock, cached, faults, cmds, wrong>>
Kill == op.k # None /\ ~Over /\ faults < MaxFaults /\ faults' = faults + 1 /\ op' = [k |-> None, tag |-> None] /\ pc' = [r \in Regs |-> "idle"]
       /\ seen' = [r \in Regs |-> {}] /\ made' = [r \in Regs |-> 0] /\ before' = {} /\ UNCHANGED <<srv, nid, lock, cached, cmds, wrong>>
Evolve == \E s \in srv : \E st \in CASE s.st = "pending" -> {"running"} [] s.st = "running" -> {"stopped"} [] OTHER -> {} :
            srv' = (srv \ {s}) \cup {[s EXCEPT !.st = st]} /\ UNCHANGED <<nid, op, pc, seen, lock, cached, faults, cmds, made, before, wrong>>

Work(r) == Lock(r) \/ Image(r) \/ ImageFails(r) \/ Prepare(r) \/ Request(r) \/ Run(r) \/ Full(r) \/ List(r) \/ Term(r)
Next == \/ \E k \in {"start", "stop"}, t \in Tags : Begin(k, t)
        \/ \E r \in Regs : Work(r)
        \/ End \/ Kill \/ Evolve
Spec == Init /\ [][Next]_vars /\ \A r \in Regs : WF_vars(Work(r)) /\ WF_vars(End)

\* ------------------------------------------------------------- properties
\* a command can always go on until all its workers have ended
NoHang == op.k # None /\ ~Over => \E r \in Regs : CASE pc[r] = "lock" -> lock = None [] OTHER -> pc[r] \notin {"done", "failed"}
OnlyOnRequest == \A r \in Regs : made[r] \in {0, N} /\ (made[r] > 0 => op.k = "start" /\ pc[r] \in {"done"})
\* whatever happens elsewhere, a worker none of whose requests failed has done its job
StartComplete == op.k = "start" => \A r \in Regs : pc[r] = "done" => made[r] = N
StopComplete == op.k = "stop" /\ Over => \A s \in srv : s.tag = op.tag /\ s.id \in before /\ pc[s.loc] = "done" => s.st = "gone"
OnlyTag == ~wrong
\* every server alive was started by a command and carries its tag: another stop gets it
Releasable == \A s \in srv : s.tag \in Tags
Ends == op.k # None ~> op.k = None
=============================================================================
