------------------------------ MODULE MCThreads ------------------------------
(* Threads.tla with given jobs: safety, termination of every job, and that it implements Work.tla. *)
EXTENDS Threads, TLC

CONSTANTS NJobs, NTasks, TwoFindings   \* in a job there are up to NTasks tasks

VARIABLE job
mvars == <<tvars, job>>

Plan(j) == {<<j, k>> : k \in 1..(IF j = 1 THEN NTasks ELSE 1)}
Found(i) == {<<"finding", i, n>> : n \in 1..(IF i[2] = 1 THEN (IF TwoFindings THEN 2 ELSE 1) ELSE 0)}
Todo(i) == Found(i) \cup {<<"size", i>>, <<"count", i>>}

MInit == TInit /\ job = 0

RootStep ==
    \/ job < NJobs /\ Begin /\ job' = job + 1
    \/ (\E t \in Threads : Spawn(t) \/ Join(t)) /\ job' = job
    \/ SetFin /\ job' = job
GenStep ==
    \/ (\E i \in Plan(job) : Put(i)) /\ job' = job
    \/ EarlyFin /\ job' = job
    \/ made = Plan(job) /\ GenFin /\ job' = job
ConStep(c) ==
    /\ job' = job
    /\ \/ Check(c) \/ NoTask(c) \/ Inc(c)
       \/ \E i \in tasks : TakeTask(c, i, Todo(i))
       \/ \E x \in con[c].todo : PutFinding(c, x) \/ PutSize(c, x) \/ Count(c, x)
ColStep(k) ==
    /\ job' = job
    /\ \/ ColCheck(k) \/ Nothing(k)
       \/ k = "json" /\ \E x \in findings : Collect(x)
       \/ k = "stats" /\ \E x \in sizes : Measure(x)
Over == root.pc = "idle" /\ job = NJobs /\ UNCHANGED mvars

MNext == RootStep \/ GenStep \/ (\E c \in Consumers : ConStep(c)) \/ (\E k \in Collectors : ColStep(k)) \/ Over

MFair == /\ WF_mvars(RootStep) /\ WF_mvars(GenStep)
         /\ \A c \in Consumers : WF_mvars(ConStep(c))
         /\ \A k \in Collectors : WF_mvars(ColStep(k))
MSpec == MInit /\ [][MNext]_mvars /\ MFair

-----------------------------------------------------------------------------
(* At the end of a job nothing is left behind *)
NothingLost ==
    (root.pc = "idle" /\ job > 0) =>
        /\ tasks = {} /\ findings = {} /\ sizes = {}
        /\ made = Plan(job) /\ taken = made /\ counted = made
        /\ collected = UNION {Found(i) : i \in made}
        /\ measured = {<<"size", i>> : i \in made}
(* the sign for the collectors comes when nothing more can come *)
SignIsTrue == dn = N + 1 => /\ tasks = {} /\ ~Generating
                            /\ \A c \in Consumers : con[c].todo = {}
                            /\ taken = made /\ counted = made
AtMostOnce == dn <= N + 1 /\ counted \subseteq taken /\ taken \subseteq made /\ tasks \cap taken = {}

EveryJobEnds == <>(root.pc = "idle" /\ job = NJobs)

W == INSTANCE Work WITH Jobs <- NJobs, Yield <- Found, busy <- root.pc # "idle"
Implements == W!WInit /\ [][W!WNext]_(W!wvars)
\* every job of Work ends as well
ImplementsAll == W!WSpec

Sym == Permutations(Consumers)
=============================================================================
