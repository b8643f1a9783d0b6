------------------------------- MODULE Threads -------------------------------
(***************************************************************************)
(* The threads and queues of Driver::GenerateECsAndCheckProperties.  Each  *)
(* action is one operation on an object the threads share: an atomic       *)
(* variable, a queue, the creation or the joining of a thread.             *)
(*                                                                         *)
(* The root thread starts a generator, the consumers and two collectors.   *)
(* The generator puts tasks into a queue and says when it is done          *)
(* (fin).  A consumer reads fin, then empties the queue; when it had read  *)
(* TRUE and found nothing it counts itself as done (dn), and the last one  *)
(* looks once more, after which dn is N + 1: the sign for the collectors   *)
(* that nothing more can come.                                             *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

CONSTANTS Consumers,
          Flaw          \* "none", or a mistake that the properties have to show

VARIABLES root,         \* [pc, joined]: what the root thread does next
          started,      \* threads that run or have run
          ended,        \* threads that have ended
          fin, dn,      \* the atomics
          gen,          \* is there anything left to generate?
          con,          \* consumer -> [pc, left, todo]
          col,          \* collector -> [pc, left]
          tasks, findings, sizes,     \* the queues; their order does not matter
          made, taken, counted, collected, measured
tvars == <<root, started, ended, fin, dn, gen, con, col, tasks, findings, sizes, made, taken, counted, collected, measured>>

N == Cardinality(Consumers)
Collectors == {"json", "stats"}
Threads == Consumers \cup Collectors \cup {"generator"}

Reset ==    \* what a job starts with
    /\ root' = [pc |-> "spawn", joined |-> {}]
    /\ started' = {} /\ ended' = {} /\ dn' = 0 /\ gen' = TRUE
    /\ con' = [c \in Consumers |-> [pc |-> "check", left |-> TRUE, todo |-> {}]]
    /\ col' = [k \in Collectors |-> [pc |-> "check", left |-> TRUE]]
    /\ made' = {} /\ taken' = {} /\ counted' = {} /\ collected' = {} /\ measured' = {}

TInit ==
    /\ root = [pc |-> "idle", joined |-> {}]
    /\ started = {} /\ ended = {} /\ fin = FALSE /\ dn = 0 /\ gen = TRUE
    /\ con = [c \in Consumers |-> [pc |-> "check", left |-> TRUE, todo |-> {}]]
    /\ col = [k \in Collectors |-> [pc |-> "check", left |-> TRUE]]
    /\ tasks = {} /\ findings = {} /\ sizes = {}
    /\ made = {} /\ taken = {} /\ counted = {} /\ collected = {} /\ measured = {}

(* ------------------------------------------------------------ root thread *)
Begin ==
    /\ root.pc = "idle"
    /\ Reset /\ fin' = FALSE
    /\ UNCHANGED <<tasks, findings, sizes>>

Spawn(t) ==
    /\ root.pc = "spawn" /\ t \notin started
    /\ t # "generator" => "generator" \in started
    /\ t \in Collectors => Consumers \subseteq started
    /\ t = "stats" => "json" \in started
    /\ started' = started \cup {t}
    /\ root' = IF started' = Threads THEN [root EXCEPT !.pc = "wait"] ELSE root
    /\ UNCHANGED <<ended, fin, dn, gen, con, col, tasks, findings, sizes, made, taken, counted, collected, measured>>

Join(t) ==
    /\ t \in ended \ root.joined
    /\ \/ root.pc = "wait" /\ t = "generator" /\ root' = [pc |-> "set", joined |-> {t}]
       \/ root.pc = "join" /\ t \in Consumers /\ root' = [root EXCEPT !.joined = @ \cup {t}]
       \/ /\ root.pc = "join" /\ Consumers \subseteq root.joined /\ t \in Collectors
          /\ root' = IF root.joined \cup {t} = Threads THEN [pc |-> "idle", joined |-> Threads] ELSE [root EXCEPT !.joined = @ \cup {t}]
    /\ UNCHANGED <<started, ended, fin, dn, gen, con, col, tasks, findings, sizes, made, taken, counted, collected, measured>>

SetFin ==
    /\ root.pc = "set"
    /\ fin' = TRUE /\ root' = [root EXCEPT !.pc = "join"]
    /\ UNCHANGED <<started, ended, dn, gen, con, col, tasks, findings, sizes, made, taken, counted, collected, measured>>

(* -------------------------------------------------------------- generator *)
Generating == "generator" \in started \ ended

Put(i) ==
    /\ Generating /\ gen /\ i \notin made
    /\ made' = made \cup {i} /\ tasks' = tasks \cup {i}
    /\ UNCHANGED <<root, started, ended, fin, dn, gen, con, col, findings, sizes, taken, counted, collected, measured>>

\* the generator says that it is done before the last task (a mistake)
EarlyFin ==
    /\ Flaw = "says done too early" /\ Generating /\ gen
    /\ fin' = TRUE
    /\ UNCHANGED <<root, started, ended, dn, gen, con, col, tasks, findings, sizes, made, taken, counted, collected, measured>>

GenFin ==
    /\ Generating
    /\ fin' = TRUE /\ gen' = FALSE /\ ended' = ended \cup {"generator"}
    /\ UNCHANGED <<root, started, dn, con, col, tasks, findings, sizes, made, taken, counted, collected, measured>>

(* -------------------------------------------------------------- consumers *)
Consuming(c) == c \in started \ ended

Check(c) ==
    /\ Consuming(c) /\ con[c].pc = "check" /\ con' = [con EXCEPT ![c].pc = "drain", ![c].left = ~fin]
    /\ UNCHANGED <<root, started, ended, fin, dn, gen, col, tasks, findings, sizes, made, taken, counted, collected, measured>>

\* todo: what is still to be done with the task, {"size", "count"} and findings
TakeTask(c, i, todo) ==
    /\ Consuming(c) /\ con[c].pc = "drain" /\ con[c].todo = {} /\ i \in tasks
    /\ tasks' = tasks \ {i} /\ taken' = taken \cup {i}
    /\ con' = [con EXCEPT ![c].left = TRUE, ![c].todo = todo]
    /\ UNCHANGED <<root, started, ended, fin, dn, gen, col, findings, sizes, made, counted, collected, measured>>

NoTask(c) ==
    /\ Consuming(c) /\ con[c].pc = "drain" /\ con[c].todo = {} /\ tasks = {}
    /\ con' = [con EXCEPT ![c].pc = IF con[c].left THEN "check" ELSE "done"]
    /\ UNCHANGED <<root, started, ended, fin, dn, gen, col, tasks, findings, sizes, made, taken, counted, collected, measured>>

PutFinding(c, x) ==
    /\ Consuming(c) /\ x \in con[c].todo /\ x[1] = "finding"
    /\ findings' = findings \cup {x} /\ con' = [con EXCEPT ![c].todo = @ \ {x}]
    /\ UNCHANGED <<root, started, ended, fin, dn, gen, col, tasks, sizes, made, taken, counted, collected, measured>>

PutSize(c, x) ==
    /\ Consuming(c) /\ x \in con[c].todo /\ x[1] = "size"
    /\ sizes' = sizes \cup {x} /\ con' = [con EXCEPT ![c].todo = @ \ {x}]
    /\ UNCHANGED <<root, started, ended, fin, dn, gen, col, tasks, findings, made, taken, counted, collected, measured>>

Count(c, x) ==
    /\ Consuming(c) /\ x \in con[c].todo /\ x[1] = "count"
    /\ counted' = counted \cup {x[2]} /\ con' = [con EXCEPT ![c].todo = @ \ {x}]
    /\ UNCHANGED <<root, started, ended, fin, dn, gen, col, tasks, findings, sizes, made, taken, collected, measured>>

Inc(c) ==
    /\ Consuming(c) /\ con[c].pc = "done"
    /\ dn' = dn + 1
    /\ IF Flaw # "no extra round" /\ dn + 1 = N
       THEN con' = [con EXCEPT ![c].pc = "check"] /\ ended' = ended
       ELSE con' = [con EXCEPT ![c].pc = "end"] /\ ended' = ended \cup {c}
    /\ UNCHANGED <<root, started, fin, gen, col, tasks, findings, sizes, made, taken, counted, collected, measured>>

(* ------------------------------------------------------------- collectors *)
Collecting(k) == k \in started \ ended

ColCheck(k) ==
    /\ Collecting(k) /\ col[k].pc = "check" /\ col' = [col EXCEPT ![k] = [pc |-> "drain", left |-> IF Flaw = "collectors end early" THEN dn = 0 ELSE dn <= N]]
    /\ UNCHANGED <<root, started, ended, fin, dn, gen, con, tasks, findings, sizes, made, taken, counted, collected, measured>>

Collect(x) ==
    /\ Collecting("json") /\ col["json"].pc = "drain" /\ x \in findings
    /\ findings' = findings \ {x} /\ collected' = collected \cup {x} /\ col' = [col EXCEPT !["json"].left = TRUE]
    /\ UNCHANGED <<root, started, ended, fin, dn, gen, con, tasks, sizes, made, taken, counted, measured>>

Measure(x) ==
    /\ Collecting("stats") /\ col["stats"].pc = "drain" /\ x \in sizes
    /\ sizes' = sizes \ {x} /\ measured' = measured \cup {x} /\ col' = [col EXCEPT !["stats"].left = TRUE]
    /\ UNCHANGED <<root, started, ended, fin, dn, gen, con, tasks, findings, made, taken, counted, collected>>

Nothing(k) ==
    /\ Collecting(k) /\ col[k].pc = "drain" /\ (IF k = "json" THEN findings ELSE sizes) = {}
    /\ IF col[k].left THEN col' = [col EXCEPT ![k].pc = "check"] /\ ended' = ended
       ELSE col' = [col EXCEPT ![k].pc = "end"] /\ ended' = ended \cup {k}
    /\ UNCHANGED <<root, started, fin, dn, gen, con, tasks, findings, sizes, made, taken, counted, collected, measured>>
=============================================================================
