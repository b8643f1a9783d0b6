----------------------------- MODULE ThreadTrace -----------------------------
(***************************************************************************)
(* Are the recorded operations of groot's threads a behaviour of           *)
(* Threads.tla, and is nothing left at the end of each job?                *)
(* TRACES: one line per run, [id, events], an event is                     *)
(*   [a |-> action, t |-> thread, i |-> number, todo |-> <<what is done    *)
(*   with the task>>]                                                      *)
(***************************************************************************)
EXTENDS Threads, Sequences, TLC, Json, IOUtils

VARIABLES tr, at, seen
avars == <<tvars, tr, at, seen>>

Traces == ndJsonDeserialize(IOEnv.TRACES)
Range(s) == {s[i] : i \in 1..Len(s)}

TraceInit == TInit /\ tr \in 1..Len(Traces) /\ at = 1 /\ seen = {}

Events == Traces[tr].events
e == Events[at]

Step ==
    CASE e.a = "Begin" -> Begin
      [] e.a = "Spawn" -> Spawn(e.t)
      [] e.a = "Join" -> Join(e.t)
      [] e.a = "SetFin" -> SetFin
      [] e.a = "Put" -> Put(e.i)
      [] e.a = "GenFin" -> GenFin
      [] e.a = "Check" -> Check(e.t)
      [] e.a = "Take" -> TakeTask(e.t, e.i, Range(e.todo))
      [] e.a = "None" -> NoTask(e.t)
      [] e.a = "Finding" -> PutFinding(e.t, <<"finding", e.i>>)
      [] e.a = "Size" -> PutSize(e.t, <<"size", e.i>>)
      [] e.a = "Count" -> Count(e.t, <<"count", e.i>>)
      [] e.a = "Inc" -> Inc(e.t)
      [] e.a = "ColCheck" -> ColCheck(e.t)
      [] e.a = "Collect" -> Collect(<<"finding", e.i>>)
      [] e.a = "Measure" -> Measure(<<"size", e.i>>)
      [] e.a = "Nothing" -> Nothing(e.t)
      [] OTHER -> FALSE

(* what kinds of situations the runs reach, for the evidence *)
Situation ==
    (IF e.a = "Take" /\ dn >= N THEN {"the last round finds a task"} ELSE {})
    \cup (IF e.a = "Take" /\ fin /\ con[e.t].left THEN {"a task is taken after the generator has finished"} ELSE {})
    \cup (IF e.a = "Take" /\ ~con[e.t].left THEN {"a consumer that knows of the end finds a task"} ELSE {})
    \cup (IF e.a = "Put" /\ started # Threads THEN {"tasks before all threads run"} ELSE {})
    \cup (IF e.a = "Collect" /\ dn = N + 1 THEN {"a finding is collected after the last sign"} ELSE {})
    \cup (IF e.a = "Collect" /\ ~col["json"].left THEN {"a collector that knows of the end finds something"} ELSE {})
    \cup (IF e.a = "ColCheck" /\ dn = N THEN {"a collector looks between the last two signs"} ELSE {})
    \cup (IF e.a = "Spawn" /\ dn > 0 THEN {"a consumer ends before all threads run"} ELSE {})
    \cup (IF e.a = "Inc" /\ \E c \in Consumers : con[c].todo # {} THEN {"a consumer ends while another one works"} ELSE {})
    \cup (IF e.a = "GenFin" /\ taken = {} /\ made # {} THEN {"all is generated before anything is taken"} ELSE {})
    \cup (IF e.a = "SetFin" /\ dn > 0 THEN {"consumers end before the generator is joined"} ELSE {})

Left == tasks # {} \/ findings # {} \/ sizes # {} \/ taken # made

TraceNext ==
    \/ /\ at <= Len(Events)
       /\ Step
       /\ at' = at + 1 /\ tr' = tr
       /\ seen' = seen \cup Situation
       /\ IF root'.pc = "idle" /\ Left' THEN PrintT("@@ " \o ToJson(<<Traces[tr].id, at, "left behind">>)) ELSE TRUE
    \/ /\ at = Len(Events) + 1
       /\ PrintT("## " \o ToJson(<<Traces[tr].id, root.pc = "idle", seen>>))
       /\ at' = at + 1 /\ UNCHANGED <<tvars, tr, seen>>

TraceSpec == TraceInit /\ [][TraceNext]_avars
TraceView == <<tr, at>>
=============================================================================
