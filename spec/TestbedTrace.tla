----------------------------- MODULE TestbedTrace -----------------------------
(* Judges what the testbed tool makes of a cloud (C25) and of the servers of an
   experiment (C27), as recorded by harness/testbed. *)
EXTENDS TraceBase

VARIABLES l, vendor, ms, cmd, made, reb, flt, nimg, killed,     \* cluster
          hosts, proc, prep, ran, pinged, port, up, down, xflt   \* exp
cvars == <<vendor, ms, made, reb, nimg, killed>>
xvars == <<hosts, proc, prep, ran, pinged, port, up, down, xflt>>
vars == <<l, cvars, cmd, flt, xvars>>
\* ms: machine id -> [loc, tag, st, pub, priv, marked]; made: ids created by the command in progress
\* flt: locations at which a request of the command failed; nimg: failures to get the list of images

NoCmd == [op |-> "none"]
Init == /\ l = 1 /\ vendor = "" /\ ms = <<>> /\ cmd = NoCmd /\ made = {} /\ reb = {} /\ flt = {} /\ nimg = 0 /\ killed = FALSE
        /\ hosts = {} /\ proc = <<>> /\ prep = {} /\ ran = {} /\ pinged = {} /\ port = 0 /\ up = {} /\ down = {} /\ xflt = {}

Of(S) == TLCEval([i \in {m.id : m \in S} |-> LET m == CHOOSE m \in S : m.id = i IN
           [loc |-> m.loc, tag |-> m.tag, st |-> m.st, pub |-> m.pub, priv |-> m.priv, marked |-> m.marked]])
New(e) ==
  /\ cmd' = NoCmd /\ made' = {} /\ reb' = {} /\ flt' = {} /\ nimg' = 0 /\ killed' = FALSE
  /\ prep' = {} /\ ran' = {} /\ pinged' = {} /\ port' = 0 /\ up' = {} /\ down' = {} /\ xflt' = {}
  /\ IF e.kind = "cluster"
     THEN vendor' = e.vendor /\ ms' = Of(Range(e.servers)) /\ hosts' = {} /\ proc' = <<>>
     ELSE vendor' = "" /\ ms' = <<>> /\ hosts' = 0..(e.n - 1) /\ proc' = [h \in 0..(e.n - 1) |-> 0]

\* ---------------------------------------------------------------- cluster
Aws == vendor = "aws"
Agreed == cmd.ok /\ cmd.tag # ""
Mine(m) == m.tag = cmd.tag /\ m.marked
MadeAt(loc) == Cardinality({i \in made : ms[i].loc = loc})
\* machines that the tool has to be able to get rid of
Alive(m) == IF Aws THEN m.st \in {"pending", "running", "stopping", "stopped"} ELSE m.st \in {"ok", "installing"}

Cmd(e) ==
  /\ Chk(l, "C25", "commands come one after the other", cmd.op = "none")
  /\ cmd' = e /\ made' = {} /\ reb' = {} /\ flt' = {} /\ nimg' = 0 /\ killed' = FALSE
  /\ UNCHANGED <<vendor, ms, xvars>>
Create(e) ==
  /\ Chk(l, "C25", "servers are started by a confirmed start command with a tag only", cmd.op = "start" /\ Agreed)
  /\ Chk(l, "C25", "every server carries the tag of the command that started it", e.tag = cmd.tag)
  /\ Chk(l, "C25", "servers are started at the matching locations only", e.loc \in Range(cmd.at))
  /\ Chk(l, "C25", "no more servers than asked for", MadeAt(e.loc) + Len(e.ids) <= cmd.n)
  /\ made' = made \cup Range(e.ids)
  /\ ms' = [i \in Range(e.ids) |-> [loc |-> e.loc, tag |-> e.tag, st |-> "pending", pub |-> "", priv |-> "", marked |-> TRUE]] @@ ms
  /\ UNCHANGED <<vendor, cmd, reb, flt, nimg, killed, xvars>>
Delete(e) ==
  /\ Chk(l, "C25", "servers are terminated by a confirmed stop command with a tag only", cmd.op = "stop" /\ Agreed)
  /\ Chk(l, "C25", "only servers of the tag are terminated", \A i \in Range(e.ids) : i \in DOMAIN ms /\ Mine(ms[i]))
  /\ ms' = [i \in DOMAIN ms |-> IF i \in Range(e.ids) THEN [ms[i] EXCEPT !.st = IF Aws /\ @ # "gone" THEN "going" ELSE "gone"] ELSE ms[i]]
  /\ UNCHANGED <<vendor, cmd, made, reb, flt, nimg, killed, xvars>>
Reboot(e) ==
  /\ Chk(l, "C25", "servers are rebooted by a confirmed reboot command with a tag only", cmd.op = "reboot" /\ Agreed)
  /\ Chk(l, "C25", "only servers of the tag are rebooted, once", e.id \in DOMAIN ms /\ Mine(ms[e.id]) /\ e.id \notin reb)
  /\ reb' = reb \cup {e.id} /\ UNCHANGED <<vendor, cmd, ms, made, flt, nimg, killed, xvars>>
Evolve(e) ==
  /\ ms' = [ms EXCEPT ![e.id] = [@ EXCEPT !.st = e.st, !.pub = e.pub, !.priv = e.priv]]
  /\ UNCHANGED <<vendor, cmd, made, reb, flt, nimg, killed, xvars>>
Fault(e) ==
  /\ IF e.act = "image" THEN nimg' = nimg + 1 /\ UNCHANGED flt ELSE flt' = flt \cup {e.loc} /\ UNCHANGED nimg
  /\ UNCHANGED <<vendor, cmd, ms, made, reb, killed, xvars>>
Kill(e) == killed' = TRUE /\ UNCHANGED <<vendor, cmd, ms, made, reb, flt, nimg, xvars>>

StartDone(e) ==
  LET short == {a \in Range(cmd.at) : MadeAt(a) # cmd.n} IN
  IF Aws
  THEN Chk(l, "C25", "what was asked for is started wherever no request fails",
           ("*" \in flt /\ e.rc # 0) \/ Cardinality(short \ flt) <= nimg)
  ELSE /\ Chk(l, "C25", "what was asked for is started, or the command fails", short = {} \/ (flt # {} /\ e.rc # 0))
       /\ Chk(l, "C25", "the servers started are listed", ~e.wrote \/ ({x.id : x \in Range(e.list)} = made /\ Len(e.list) = Cardinality(made)))
       /\ Chk(l, "C25", "a list that was asked for is written", cmd.list /\ e.rc = 0 => e.wrote)
StopDone(e) ==
  LET left == {i \in DOMAIN ms : Mine(ms[i]) /\ Alive(ms[i])} IN
  IF Aws
  THEN Chk(l, "C25", "every server of the tag is terminated wherever no request fails",
           ("*" \in flt /\ e.rc # 0) \/ \A i \in left : ms[i].loc \in flt)
  ELSE Chk(l, "C25", "every server of the tag is terminated, or the command fails", left = {} \/ (flt # {} /\ e.rc # 0))
RebootDone(e) ==
  LET todo == {i \in DOMAIN ms : Mine(ms[i]) /\ Alive(ms[i])} \ reb IN
  Chk(l, "C25", "every server of the tag is rebooted, or the command fails", todo = {} \/ (flt # {} /\ e.rc # 0))
StatusDone(e) ==
  LET due == {i \in DOMAIN ms : IF Aws THEN ms[i].marked /\ ms[i].st = "running" ELSE ms[i].st # "gone"}
      mine == {i \in due : cmd.tag = "" \/ ms[i].tag = cmd.tag}
      got == {x.id : x \in Range(e.list)}
      ok(x) == LET m == ms[x.id] IN
               /\ x.loc = m.loc /\ x.pub = m.pub /\ x.port = 22 /\ x.prov = vendor
               /\ IF Aws THEN x.priv = m.priv /\ x.user = "ubuntu" ELSE x.priv = m.pub /\ x.user = "root"
               /\ (Aws /\ cmd.tag = "") \/ x.tag = m.tag
  IN /\ Chk(l, "C25", "a list that was asked for is written unless the command fails", cmd.list => (e.wrote \/ e.rc # 0))
     /\ Chk(l, "C25", "the command succeeds if no request fails", flt = {} => e.rc = 0)
     /\ IF e.wrote
        THEN /\ Chk(l, "C25", "only servers of the tag are listed", got \subseteq mine)
             /\ Chk(l, "C25", "every server is listed once", Len(e.list) = Cardinality(got))
             /\ Chk(l, "C25", "every server of the tag is listed wherever no request fails",
                    \A i \in mine \ got : Aws /\ ms[i].loc \in flt)
             /\ Chk(l, "C25", "servers are listed as they are", \A x \in Range(e.list) : ok(x))
             /\ Chk(l, "C25", "the list is in order of location and identity", e.sorted)
        ELSE TRUE
End(e) ==
  /\ IF killed THEN TRUE
     ELSE CASE cmd.op = "start" /\ Agreed -> StartDone(e)
            [] cmd.op = "stop" /\ Agreed -> StopDone(e)
            [] cmd.op = "reboot" /\ Agreed -> RebootDone(e)
            [] cmd.op = "status" -> StatusDone(e)
            [] OTHER -> TRUE
  /\ cmd' = NoCmd /\ UNCHANGED <<cvars, flt, xvars>>

\* -------------------------------------------------------------------- exp
XCmd(e) ==
  /\ cmd' = [op |-> "exp", e |-> e]
  /\ prep' = {} /\ ran' = {} /\ pinged' = {} /\ port' = 0 /\ up' = {} /\ down' = {} /\ xflt' = {}
  /\ UNCHANGED <<cvars, flt, hosts, proc>>
Ops == Range(cmd.e.ops)
Topo == {<<p.a, p.b>> : p \in Range(cmd.e.topo)}
Exec(e) ==
  /\ Chk(l, "C27", "nothing is done unless every server can be reached", ~cmd.e.refused)
  /\ CASE e.c = "kill" ->
          /\ Chk(l, "C27", "nodes are stopped to install, run or collect only", Ops \cap {"install", "run", "dl"} # {})
          /\ Chk(l, "C27", "the old node has ended", ~e.left)
          /\ proc' = [proc EXCEPT ![e.srv] = 0] /\ prep' = prep \cup {e.srv}
          /\ UNCHANGED <<ran, pinged, port>>
       [] e.c = "run" ->
          /\ Chk(l, "C27", "nodes are started if asked for, once", "run" \in Ops /\ e.srv \notin ran)
          /\ Chk(l, "C27", "no node is started while another one runs on the server", proc[e.srv] = 0 /\ e.srv \in prep)
          /\ Chk(l, "C27", "all nodes use the same port, out of the usual ones", e.port \in 10000..49999 /\ port \in {0, e.port})
          /\ Chk(l, "C27", "a node connects to its peers of the topology, and only to them",
                 /\ {p.srv : p \in Range(e.peers)} = {b \in hosts : <<e.srv, b>> \in Topo}
                 /\ Len(e.peers) = Cardinality({b \in hosts : <<e.srv, b>> \in Topo})
                 /\ \A p \in Range(e.peers) : p.port = e.port)
          /\ Chk(l, "C27", "nodes get the options given", e.args = cmd.e.args)
          /\ Chk(l, "C27", "the output of the node is kept", e.log)
          /\ proc' = [proc EXCEPT ![e.srv] = @ + 1] /\ ran' = ran \cup {e.srv} /\ port' = e.port
          /\ UNCHANGED <<pinged, prep>>
       [] e.c = "ping" ->
          /\ Chk(l, "C27", "the links of the topology are measured, once", "ping" \in Ops /\ <<e.srv, e.to>> \in Topo \ pinged)
          /\ pinged' = pinged \cup {<<e.srv, e.to>>} /\ UNCHANGED <<proc, ran, port, prep>>
       [] OTHER -> Chk(l, "C27", "unexpected command on a server: " \o e.cmd, FALSE) /\ UNCHANGED <<proc, ran, port, prep, pinged>>
  /\ UNCHANGED <<cvars, cmd, flt, hosts, up, down, xflt>>
Scp(e) ==
  /\ Chk(l, "C27", "nothing is done unless every server can be reached", ~cmd.e.refused)
  /\ Chk(l, "C27", "files are copied to and from the servers of the list, with their key", e.srv \in hosts /\ e.key)
  /\ IF e.up
     THEN /\ Chk(l, "C27", "the program is installed if asked for", "install" \in Ops /\ e.srv \notin up /\ e.far = "txcode-node" /\ e.near = "build/node")
          /\ Chk(l, "C27", "the program is not replaced while it runs", proc[e.srv] = 0 /\ e.srv \in prep /\ e.srv \notin ran)
          /\ up' = up \cup {e.srv} /\ UNCHANGED down
     ELSE /\ Chk(l, "C27", "results are collected if asked for, each into its own file",
                 "dl" \in Ops /\ e.srv \notin down /\ e.far = "log.txt" /\ e.near = cmd.e.prefix \o "-" \o ToString(e.srv))
          /\ Chk(l, "C27", "results are complete: the node has ended", proc[e.srv] = 0 /\ e.srv \in prep)
          /\ down' = down \cup {e.srv} /\ UNCHANGED up
  /\ UNCHANGED <<cvars, cmd, flt, hosts, proc, prep, ran, pinged, port, xflt>>
XFault(e) == xflt' = xflt \cup {e.srv} /\ UNCHANGED <<cvars, cmd, flt, hosts, proc, prep, ran, pinged, port, up, down>>
XEnd(e) ==
  LET good == hosts \ xflt
      want == {<<p.a, p.b, p.d>> : p \in Range(cmd.e.rtt)}
      got == {<<p.a, p.b, p.d>> : p \in Range(e.lines)} IN
  /\ IF cmd.e.refused THEN Chk(l, "C27", "the command fails if a server cannot be reached", e.rc # 0)
     ELSE /\ Chk(l, "C27", "the program is installed wherever nothing fails", "install" \in Ops => good \subseteq up)
          /\ Chk(l, "C27", "nodes are started wherever nothing fails", "run" \in Ops => good \subseteq ran)
          /\ Chk(l, "C27", "nodes keep running", ("run" \in Ops /\ "dl" \notin Ops) => \A h \in good : proc[h] = 1)
          /\ Chk(l, "C27", "results are collected wherever nothing fails", "dl" \in Ops => good \subseteq down)
          /\ Chk(l, "C27", "delays printed are those measured", got \subseteq want /\ Len(e.lines) = Cardinality(got))
          /\ Chk(l, "C27", "every link is measured wherever nothing fails", "ping" \in Ops => \A w \in want : w \in got \/ w[1] \in xflt)
  /\ cmd' = NoCmd /\ UNCHANGED <<cvars, flt, xvars>>

Crash(e) == ChkAny(l, {"C25", "C27"}, "crash or hang: " \o e.why, FALSE) /\ UNCHANGED <<cvars, cmd, flt, xvars>>

Step(e) ==
  CASE e.ev = "new" -> New(e)
    [] e.ev = "cmd" -> Cmd(e)
    [] e.ev = "create" -> Create(e)
    [] e.ev = "delete" -> Delete(e)
    [] e.ev = "reboot" -> Reboot(e)
    [] e.ev = "evolve" -> Evolve(e)
    [] e.ev = "fault" -> Fault(e)
    [] e.ev = "kill" -> Kill(e)
    [] e.ev = "end" -> End(e)
    [] e.ev = "xcmd" -> XCmd(e)
    [] e.ev = "exec" -> Exec(e)
    [] e.ev = "scp" -> Scp(e)
    [] e.ev = "xfault" -> XFault(e)
    [] e.ev = "xend" -> XEnd(e)
    [] e.ev = "early" -> Early(e, l)
    [] e.ev = "crash" -> Crash(e)
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
Note == Reached(l)
=============================================================================
