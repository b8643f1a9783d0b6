--------------------------------- MODULE Work --------------------------------
(***************************************************************************)
(* What the parallel analysis of a job amounts to: pieces of work are      *)
(* generated, each one is taken up once, counted once and yields its       *)
(* findings, every finding is collected once, and a job is over when there *)
(* is nothing left.  Threads.tla implements this.                          *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

CONSTANTS Jobs,      \* number of jobs
          Plan(_),   \* the pieces of work of a job
          Yield(_)   \* the findings of a piece of work

VARIABLES job,       \* number of the current job
          busy,      \* it is under way
          made,      \* pieces of work generated so far
          taken,     \* those somebody has taken up
          counted,   \* those counted
          collected  \* findings collected
wvars == <<job, busy, made, taken, counted, collected>>

WInit == job = 0 /\ busy = FALSE /\ made = {} /\ taken = {} /\ counted = {} /\ collected = {}

Begin ==
    /\ ~busy /\ job < Jobs
    /\ job' = job + 1 /\ busy' = TRUE
    /\ made' = {} /\ taken' = {} /\ counted' = {} /\ collected' = {}

Make == /\ busy
        /\ \E i \in Plan(job) \ made : made' = made \cup {i}
        /\ UNCHANGED <<job, busy, taken, counted, collected>>

TakeUp == /\ busy
          /\ \E i \in made \ taken : taken' = taken \cup {i}
          /\ UNCHANGED <<job, busy, made, counted, collected>>

CountOne == /\ busy
            /\ \E i \in taken \ counted : counted' = counted \cup {i}
            /\ UNCHANGED <<job, busy, made, taken, collected>>

Findings(is) == UNION {Yield(i) : i \in is}

Collect == /\ busy
           /\ \E x \in Findings(taken) \ collected : collected' = collected \cup {x}
           /\ UNCHANGED <<job, busy, made, taken, counted>>

\* Nothing is lost
End == /\ busy
       /\ made = Plan(job) /\ taken = made /\ counted = made /\ collected = Findings(made)
       /\ busy' = FALSE
       /\ UNCHANGED <<job, made, taken, counted, collected>>

WNext == Begin \/ Make \/ TakeUp \/ CountOne \/ Collect \/ End

WSpec == WInit /\ [][WNext]_wvars /\ WF_wvars(WNext)
=============================================================================
