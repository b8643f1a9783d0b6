--------------------------------- MODULE Run --------------------------------
(***************************************************************************)
(* A run of the program: command line, metadata, jobs file, the work of    *)
(* Driver, the files it leaves behind and its exit status.                 *)
(* in.run says what the program finds:                                     *)
(*   usage     the command line is one the program knows                   *)
(*   metadata  "absent" | "garbage" (no JSON, or no JSON object) | "object"*)
(*   hastop, haszones   its fields are there                               *)
(*   tops      "names" | "other" (not all of them are strings)             *)
(*   entries   <<[object, hasfile, hasns, texts, exists, readable]>>, as   *)
(*             many as in.zones                                            *)
(*   jobs      "none" (no such option) | "absent" | "garbage" | "list"     *)
(*   badjob    the first job that can not be understood, 0: none           *)
(*   out       "ok" | "none" (can not be written) | "full" (no room but    *)
(*             for a report without violations)                            *)
(* How a run ends: status = "ok" or the reason of the failure.  A failing  *)
(* run has a non-zero exit status, any other one writes the whole report.  *)
(***************************************************************************)
EXTENDS Conf

VARIABLES phase,    \* "start" | "sanity" | "work" | "write" | "exit"
          status,
          sizes     \* of the executions of the classes of this job
runvars == <<allvars, phase, status, sizes>>

run == in.run

\* What is told about the executions of the classes of a job: how many nodes (v) and edges (e) the largest and the smallest
\* have, and all of them together; n: number of classes
NoSizes == [n |-> 0, vmax |-> 0, vmin |-> 0, vsum |-> 0, emax |-> 0, emin |-> 0, esum |-> 0]
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
AddSize(s, v, e) ==
    IF s.n = 0 THEN [n |-> 1, vmax |-> v, vmin |-> v, vsum |-> v, emax |-> e, emin |-> e, esum |-> e]
    ELSE [n |-> s.n + 1, vmax |-> Max(s.vmax, v), vmin |-> Min(s.vmin, v), vsum |-> s.vsum + v,
          emax |-> Max(s.emax, e), emin |-> Min(s.emin, e), esum |-> s.esum + e]

RunInit ==
    \E s \in 1..Len(Scenarios) :
        /\ sid = s /\ okl = {} /\ cyc = {} /\ heavy = FALSE
        /\ phase = "start" /\ status = "" /\ sizes = NoSizes
        /\ LET sc == Scenarios[s] IN
           InitWith(IF sc.run.jobs = "none" THEN [sc EXCEPT !.jobs = <<[d |-> ".", dflt |-> TRUE]>>] ELSE sc)

KeepDriver == UNCHANGED <<vars, sid, okl, cyc, heavy, sizes>>

\* A run that fails says so, at whatever moment it finds out
Fail(why) ==
    /\ phase' = "exit" /\ status' = why
    /\ Equal("exit", why, "non-zero exit status", IF obs.zero THEN "exit status zero" ELSE "non-zero exit status")
    /\ Ended("failed: " \o why)
    /\ KeepDriver

ReadMetadata ==
    /\ phase = "start"
    /\ IF ~run.usage THEN Fail("usage")
       ELSE IF run.metadata # "object" THEN Fail("metadata " \o run.metadata)
       ELSE phase' = "sanity" /\ status' = "" /\ KeepDriver

EntryBad(e) ==
    IF ~e.object \/ ~e.hasfile \/ ~e.hasns THEN "entry without a field"
    ELSE IF ~e.texts THEN "entry with other values"
    ELSE IF ~e.exists THEN "zone file missing"
    ELSE ""

Servers == {Lower(in.zones[i].ns) : i \in 1..Len(in.zones)}
Tops == {Lower(in.top[i]) : i \in 1..Len(in.top)}

Sanity ==
    /\ phase = "sanity"
    /\ IF ~run.hastop THEN Fail("no TopNameServers")
       ELSE IF run.tops # "names" THEN Fail("TopNameServers of another kind")
       ELSE IF ~run.haszones THEN Fail("no ZoneFiles")
       ELSE IF \E i \in 1..Len(run.entries) : EntryBad(run.entries[i]) # ""
            THEN Fail(LET i == CHOOSE i \in 1..Len(run.entries) : EntryBad(run.entries[i]) # "" IN EntryBad(run.entries[i]))
       ELSE IF Servers \cap Tops = {} THEN Fail("no top name server with a zone")
       ELSE phase' = "work" /\ status' = "" /\ KeepDriver

\* a loop of every class that has a cycle; what is reported is compared at the end
WorkClass ==
    /\ pc = "job" /\ ecs # {}
    /\ LET ec == CHOOSE e \in ecs : TRUE
           G == Executions(Context, ec)
           many == TooMany(G, ec)
       IN  /\ (IF obs.zero THEN CheckLoop(ec, G) ELSE TRUE) = TRUE
           /\ okl' = IF obs.zero THEN okl \cup MyLoops(G) ELSE okl
           /\ cyc' = IF Cyclic(G) THEN cyc \cup {QueryStr(ec)} ELSE cyc
           /\ Analyse(ec, G, Violations(G, ec, IF many THEN {pr \in job.props : pr.name \notin PathProps} ELSE job.props))
           /\ heavy' = (heavy \/ many)
           /\ sizes' = IF "info" \in Aspects THEN AddSize(sizes, Cardinality(DOMAIN G), Cardinality(Edges(G))) ELSE sizes
           /\ UNCHANGED <<sid, phase, status>>

Go(A) == A /\ UNCHANGED <<sid, okl, cyc, heavy, phase, status, sizes>>

------------------------------ (* statistics *) ----------------------------
\* obs.info: what the run told about itself, where it did so (option --stats: on the terminal, --log: in a file)
Told(what, where, want, got) == Equal("info", where \o ": " \o what, want, got)
ToldOf(info, where, x) ==
    /\ IF x.what = "parsed" THEN Told("records read", where, nread, x.n)
       ELSE IF x.what = "types" THEN Same("info", where \o ": records of each type", {<<k, ToString(totals[k])>> : k \in DOMAIN totals}, Range(x.list))
       ELSE IF x.what = "labels" THEN Told("names", where, Cardinality(lg.nodes), x.n)
       ELSE IF x.what = "total" THEN Told("classes of all jobs", where, x.sum, x.n)
       ELSE IF x.what = "violations" THEN Told("violations", where, x.elements, x.n)
       ELSE TRUE

CheckToldJob(info, where) ==
    LET o == info.jobs[ji] IN
    /\ IF o.count >= planned THEN TRUE ELSE Told("classes of job " \o ToString(ji), where, planned, o.count)
    /\ \A k \in 1..(ji - 1) :      \* the same job again
          IF in.jobs[k] = in.jobs[ji] THEN Told("classes of job " \o ToString(ji), where, info.jobs[k].count, o.count) ELSE TRUE
    /\ IF sizes.n = 0 THEN TRUE
       ELSE /\ Told("nodes in job " \o ToString(ji), where, <<sizes.vmax, sizes.vmin>>, <<o.vmax, o.vmin>>)
            /\ Told("edges in job " \o ToString(ji), where, <<sizes.emax, sizes.emin>>, <<o.emax, o.emin>>)
            /\ IF o.count = planned     \* no class was analysed twice
               THEN Told("nodes and edges of all classes in job " \o ToString(ji), where, <<sizes.vsum, sizes.esum>>, <<o.vsum, o.esum>>)
               ELSE TRUE

ToldJobs ==
    IF "info" \notin Aspects \/ ~obs.zero THEN TRUE
    ELSE \A i \in 1..Len(obs.info) :
            IF ji <= Len(obs.info[i].jobs) THEN CheckToldJob(obs.info[i], obs.info[i].where) ELSE TRUE
ToldRest ==
    IF "info" \notin Aspects THEN TRUE
    ELSE \A i \in 1..Len(obs.info) :
            LET info == obs.info[i] IN
            /\ \A k \in 1..Len(info.rest) : ToldOf(info, info.where, info.rest[k])
            /\ IF info.jobs = <<>> THEN TRUE ELSE Told("jobs", info.where, Len(in.jobs), Len(info.jobs))

Work ==
    /\ phase = "work"
    /\ \/ pc = "open" /\ fi <= Len(in.zones) /\ ~run.entries[fi].readable /\ Fail("zone file can not be read")
       \/ (pc = "open" /\ fi <= Len(in.zones) => run.entries[fi].readable) /\ Go(OpenFile)
       \/ Go(ReadNext)
       \/ Go(CloseFile)
       \/ Go(Loaded)
       \/ pc = "abort" /\ Fail("zone file without leading SOA record")
       \/ pc = "ready" /\ ji = 0 /\ run.jobs \in {"absent", "garbage"} /\ Fail("jobs " \o run.jobs)
       \/ pc = "ready" /\ run.jobs \in {"none", "list"} /\ run.badjob # 0 /\ ji + 1 = run.badjob /\ Fail("job that can not be understood")
       \/ pc = "ready" /\ run.jobs \in {"none", "list"} /\ (run.badjob # 0 => ji + 1 # run.badjob) /\ Go(StartJob)
       \/ WorkClass
       \/ pc = "job" /\ ecs = {} /\ strs # {} /\ Go(CheckStructure(CHOOSE s \in strs : TRUE))
       \/ FinishJob /\ (ToldJobs = TRUE) /\ sizes' = NoSizes /\ UNCHANGED <<sid, okl, cyc, heavy, phase, status>>
       \/ /\ run.jobs \in {"none", "list"} /\ (run.badjob # 0 => ji + 1 # run.badjob)
          /\ Finish /\ phase' = "write" /\ UNCHANGED <<sid, okl, cyc, heavy, status, sizes>>

Nothing == \A k \in Kinds : rep[k] = {}

\* The report, after the last job
Compared ==
    /\ \A k \in Kinds :
          IF heavy /\ k = "All Aliases" THEN TRUE
          ELSE Same("rep:" \o k, "report", rep[k], IF heavy /\ k \in PathKinds THEN Reported(k) \cap rep[k] ELSE Reported(k))
    /\ Same("loops", "report", {}, ReportedLoops \ okl)
    /\ Same("report", "report", {}, Range(oj.rep["?"]))
    /\ Same("report", "twice in the report", {}, Range(oj.twice))
    /\ CheckLint(issues)
    /\ ToldRest

Write ==
    /\ phase = "write"
    /\ IF run.out = "none" \/ (run.out = "full" /\ ~(Nothing /\ cyc = {})) THEN Fail("output " \o run.out)
       ELSE /\ phase' = "exit" /\ status' = "ok"
            /\ IF obs.end = "timeout" /\ heavy THEN TRUE
               ELSE /\ Equal("exit", "end", "exit status zero", IF obs.zero THEN "exit status zero" ELSE "non-zero: " \o obs.end)
                    /\ IF obs.zero THEN Equal("exit", "report", "written", IF obs.written THEN "written" ELSE "not written") ELSE TRUE
                    /\ IF obs.zero /\ obs.written THEN Compared ELSE TRUE
            /\ Ended("ok")
            /\ KeepDriver

RunNext == ReadMetadata \/ Sanity \/ Work \/ Write

RunSpec == RunInit /\ [][RunNext]_runvars
RunView == <<ConfView, phase>>

-----------------------------------------------------------------------------
\* The sanity of the specification itself
\* No run ends well with something wrong in what it was given
SoundExit ==
    status = "ok" => /\ run.usage /\ run.metadata = "object" /\ run.hastop /\ run.haszones
                     /\ run.jobs \in {"none", "list"} /\ run.badjob = 0 /\ run.out # "none"
                     /\ ji = Len(in.jobs)
\* Nothing is written before everything was analysed
WholeReport == phase \in {"write"} => ecs = {} /\ strs = {} /\ pc = "done"
=============================================================================
