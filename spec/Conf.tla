-------------------------------- MODULE Conf --------------------------------
(***************************************************************************)
(* Conformance: every scenario is an initial state of Driver; at each step *)
(* what groot did (the observation) has to be what the specification does. *)
(* A difference is printed as a line "@@ [id, aspect, where, missing,      *)
(* extra]" and the run goes on with the specification's state; a scenario  *)
(* that came to its end prints "## [id, ...]".                             *)
(* The aspects to be compared are given with the scenario (in.aspects).    *)
(***************************************************************************)
EXTENDS Driver, Json, IOUtils

Scenarios == ndJsonDeserialize(IOEnv.SCENARIOS)
Observed == ndJsonDeserialize(IOEnv.OBSERVED)

VARIABLES sid,   \* number of the scenario
          okl,   \* reported loops that have turned out to be cycles of some class
          cyc,   \* some class of the jobs so far has a cycle
          heavy  \* some class has more executions than are looked at
allvars == <<vars, sid, okl, cyc, heavy>>

obs == Observed[sid]
Aspects == Range(in.aspects)
Out(x) == PrintT("@@ " \o ToJson(x))
Same(aspect, where, want, got) ==      \* sets
    IF aspect \notin Aspects \/ want = got THEN TRUE
    ELSE Out(<<in.id, aspect, where, ToString(want \ got), ToString(got \ want)>>)
Equal(aspect, where, want, got) ==
    IF aspect \notin Aspects \/ want = got THEN TRUE
    ELSE Out(<<in.id, aspect, where, ToString(want), ToString(got)>>)

SeqOf(s) == [i \in 1..Len(s) |-> s[i]]

------------------------------- (* loading *) ------------------------------
ZoneView(z) == <<ToString(z.id), z.ns, NameStr(z.origin), {RecView(r) : r \in AllRecords(z)}>>
RECURSIVE Records(_)
Records(z) == Cardinality(AllRecords(z))
ObsZone(o) == <<o.id, o.ns, o.origin, Range(o.rrs)>>

CheckLint(wanted) ==
    IF in.lint
    THEN /\ Equal("lint", "well-formed", TRUE, obs.lintok)
         /\ Same("lint", "load", Range(wanted), Range(obs.lint))
         /\ Equal("lint", "number of entries", Len(wanted), Len(obs.lint))
    ELSE Equal("lint", "written", FALSE, obs.lintwritten)

CheckLoaded ==
    /\ Equal("parsed", "load", ToString(nread), obs.parsed)
    /\ IF obs.haszones THEN
          /\ Same("zones", "load", {ZoneView(zs[i]) : i \in 1..Len(zs)}, {ObsZone(obs.zones[i]) : i \in 1..Len(obs.zones)})
          /\ \A i \in 1..Len(obs.zones) :   \* no record twice
                Equal("zones", "records of zone " \o obs.zones[i].id, Len(obs.zones[i].rrs), Cardinality(Range(obs.zones[i].rrs)))
       ELSE TRUE
    /\ IF obs.hasstats THEN Same("stats", "load", {<<k, ToString(totals[k])>> : k \in DOMAIN totals}, Range(obs.stats)) ELSE TRUE
    /\ CheckLint(issues')

\* the types belong to the answer where they say which of the asked types it is about
AnswerView(a) ==
    <<a.tag, IF a.tag \in {"NX", "YX"} \/ (a.tag = "ANS" /\ ~(\E i \in 1..Len(a.rrs) : a.rrs[i].t = "CNAME")) THEN a.t ELSE {},
      RecViews(a.rrs)>>
AnswersView(as) == {AnswerView(as[i]) : i \in 1..Len(as)}
ObsAnswer(a) ==
    <<a[1], IF a[1] \in {"NX", "YX"} \/ (a[1] = "ANS" /\ ~(\E i \in 1..Len(a[3]) : a[3][i][2] = "CNAME")) THEN Range(a[2]) ELSE {},
      Range(a[3])>>
ObsAnswers(as) == {ObsAnswer(as[i]) : i \in 1..Len(as)}

ZoneWithId(i) == LET k == CHOOSE k \in 1..Len(zs) : zs[k].id = i IN zs[k]
HasZone(i) == \E k \in 1..Len(zs) : zs[k].id = i

CheckLookups ==
    IF "lookup" \notin Aspects \/ ~obs.haslookups THEN TRUE
    ELSE \A i \in 1..Len(in.queries) :
            LET c == in.queries[i] IN
            IF ~HasZone(c.z) THEN TRUE ELSE
            Same("lookup", ToString(<<c.z, c.n, c.t, c.x>>),
                 AnswersView(Lookup(ZoneWithId(c.z), Query(NameOf(c.n), Range(c.t), c.x))), ObsAnswers(obs.lookups[i]))

--------------------------------- (* jobs *) --------------------------------
oj == obs.jobs[IF obs.final THEN 1 ELSE ji]   \* final: only the report at the end is known
EcView(e) == <<NameStr(e.n), e.t, e.x, e.ne>>
ObsEc(e) == <<e.n, Range(e.t), e.x, e.ne>>

CheckPlan ==
    IF ~obs.hasecs THEN TRUE
    ELSE /\ Same("ecs", "job " \o ToString(ji'), {EcView(e) : e \in ecs'},
                 {ObsEc(obs.jobs[ji'].ecs[i]) : i \in 1..Len(obs.jobs[ji'].ecs)})
         /\ Equal("structure", "job " \o ToString(ji'), strs' # {}, obs.jobs[ji'].structural > 0)

NodeKey(v) == <<v.ns, NameStr(v.q.n), v.q.t, v.q.x>>
GraphNodes(G) == {<<NodeKey(v), AnswersView(G[v].a)>> : v \in DOMAIN G}
GraphEdges(G) == {<<NodeKey(e[1]), NodeKey(e[2]), IF e[3] = NoSide THEN <<>> ELSE <<NodeKey(e[3])>>>> : e \in Edges(G)}
ObsKey(n) == <<n.ns, n.q.n, Range(n.q.t), n.q.x>>
ObsGraphNodes(g) == {<<ObsKey(g.nodes[i]), ObsAnswers(g.nodes[i].a)>> : i \in 1..Len(g.nodes)}
ObsGraphEdges(g) == {<<ObsKey(g.nodes[e[1]]), ObsKey(g.nodes[e[2]]),
                       IF e[3] = 0 THEN <<>> ELSE <<ObsKey(g.nodes[e[3]])>>>> : e \in Range(g.edges)}

Where(ec) == "job " \o ToString(ji) \o " class " \o QueryStr(ec)

LoopView(G, v) == <<v.ns, QStr(v), Tag(G, v)>>
ReportedLoops == Range(oj.rep["Cyclic Zone Dependency"])
MyLoops(G) == {l \in ReportedLoops : IsCycle(G, LoopView, l)}

CheckGraph(ec, G) ==
    IF "graph" \notin Aspects \/ ~obs.hasecs THEN TRUE
    ELSE \A i \in 1..Len(oj.graphs) :
            LET g == oj.graphs[i] IN
            IF ObsEc(g.ec) # EcView(ec) THEN TRUE
            ELSE /\ Same("graph", Where(ec) \o " nodes", GraphNodes(G), ObsGraphNodes(g))
                 /\ Same("graph", Where(ec) \o " edges", GraphEdges(G), ObsGraphEdges(g))

CheckLoop(ec, G) ==
    IF "loops" \notin Aspects THEN TRUE
    ELSE IF ~Cyclic(G) \/ MyLoops(G) # {} THEN TRUE ELSE Out(<<in.id, "loops", Where(ec), "a loop of this class", "">>)

Decode(k, x) ==
    CASE k = "Response Value" -> <<x[1], Range(x[2])>>
      [] k = "All Aliases" -> {<<x[i][1], Range(x[i][2])>> : i \in 1..Len(x)}
      [] k = "Structural Delegation Consistency" ->
            <<x[1], {<<Range(p[1]), Range(p[2]), {<<s[1], s[2], Range(s[3]), Range(s[4])>> : s \in Range(p[3])}>> : p \in Range(x[2])}>>
      [] k = "Infinite DName Recursion" -> <<x[1], x[2], Range(x[3])>>
      [] OTHER -> x
Reported(k) == {Decode(k, oj.rep[k][i]) : i \in 1..Len(oj.rep[k])}

PathKinds == {KindOf[n] : n \in PathProps}

CheckReport ==
    /\ \A k \in Kinds :
          IF heavy /\ k = "All Aliases" THEN TRUE
          ELSE Same("rep:" \o k, "job " \o ToString(ji), rep'[k],
                    IF heavy /\ k \in PathKinds THEN Reported(k) \cap rep'[k] ELSE Reported(k))
    /\ Same("loops", "job " \o ToString(ji), {}, ReportedLoops \ okl)
    /\ Same("report", "job " \o ToString(ji), {}, Range(oj.rep["?"]))     \* anything else in it
    /\ Same("report", "twice in the report of job " \o ToString(ji), {}, Range(oj.twice))
    /\ IF "count" \notin Aspects \/ oj.count >= planned THEN TRUE
       ELSE Out(<<in.id, "count", "job " \o ToString(ji), ToString(planned), ToString(oj.count)>>)
    /\ IF obs.hasecs THEN Equal("count", "job " \o ToString(ji) \o " analysed", oj.tasks, oj.count) ELSE TRUE

MaxSteps == 400
RECURSIVE PathSteps(_, _, _, _)
RECURSIVE PathStepsOf(_, _, _, _)
\* n and the number of steps it takes to follow all paths from v, up to a little more than MaxSteps
PathSteps(G, p, v, n) ==
    IF n > MaxSteps \/ v \in p THEN n + 1 ELSE PathStepsOf(G, p \cup {v}, Targets(G, v), n + 1)
PathStepsOf(G, p, vs, n) ==
    IF vs = {} \/ n > MaxSteps THEN n
    ELSE LET w == CHOOSE w \in vs : TRUE IN PathStepsOf(G, p, vs \ {w}, PathSteps(G, p, w, n))
TooMany(G, ec) == PathSteps(G, {}, Root(ec), 0) > MaxSteps

-----------------------------------------------------------------------------
ConfInit == \E s \in 1..Len(Scenarios) : sid = s /\ okl = {} /\ cyc = {} /\ heavy = FALSE /\ InitWith(Scenarios[s])

Alive == obs.end = "ok"
Ended(want) == PrintT("## " \o ToJson(<<in.id, want, nread, ji, planned>>))

\* A run that takes too long because of the number of executions is not held against it
Justified ==
    /\ obs.end = "timeout" /\ pc = "ready" /\ ji < Len(in.jobs)
    /\ \E ec \in Plan(lg, Compile(IF in.jobs[ji + 1].dflt THEN DefaultJob(in.jobs[ji + 1].d) ELSE in.jobs[ji + 1])).ecs :
          TooMany(Executions(Context, ec), ec)

\* The run of the implementation stopped too early: nothing more to compare
StopHere == pc' = "stopped"
Dead(stage) ==
    /\ IF Justified THEN TRUE ELSE Out(<<in.id, "alive", stage, "goes on", obs.end>>)
    /\ Ended("dead") /\ StopHere
    /\ UNCHANGED <<in, fi, ps, zs, totals, issues, nread, lg, ji, job, ecs, strs, planned, als, rep, sid, okl, cyc, heavy>>

Stay == UNCHANGED <<sid, okl, cyc, heavy>>

ConfNext ==
    \/ OpenFile /\ Stay
    \/ ReadNext /\ Stay
    \/ CloseFile /\ Stay
    \/ obs.stage # "load" /\ Loaded /\ (CheckLoaded = TRUE) /\ (CheckLookups = TRUE) /\ Stay
    \/ pc = "open" /\ fi > Len(in.zones) /\ obs.stage = "load" /\ Dead("load")
    \/ ji < Len(obs.jobs) /\ StartJob /\ (CheckPlan = TRUE) /\ Stay
    \/ pc = "ready" /\ ji < Len(in.jobs) /\ ji >= Len(obs.jobs) /\ Dead("job " \o ToString(ji + 1))
    \/ /\ pc = "job" /\ ecs # {}
       /\ LET ec == CHOOSE e \in ecs : TRUE
              G == Executions(Context, ec)
          IN  /\ (CheckGraph(ec, G) = TRUE)
              /\ (CheckLoop(ec, G) = TRUE)
              /\ okl' = okl \cup MyLoops(G)
              /\ cyc' = IF Cyclic(G) THEN cyc \cup {QueryStr(ec)} ELSE cyc
              /\ LET many == TooMany(G, ec) IN
                 /\ Analyse(ec, G, Violations(G, ec, IF many THEN {pr \in job.props : pr.name \notin PathProps} ELSE job.props))
                 /\ heavy' = (heavy \/ many)
              /\ UNCHANGED sid
    \/ pc = "job" /\ ecs = {} /\ strs # {} /\ CheckStructure(CHOOSE s \in strs : TRUE) /\ Stay
    \/ FinishJob /\ (CheckReport = TRUE) /\ Stay
    \/ Finish /\ (IF Alive THEN TRUE ELSE Out(<<in.id, "alive", "end", "ok", obs.end>>)) /\ Ended("done") /\ Stay
    \/ /\ pc = "abort" /\ StopHere
       /\ Equal("abort", "refuses to load", <<"load", "exit">>, <<obs.stage, obs.end>>) /\ Ended("abort")
       /\ UNCHANGED <<in, fi, ps, zs, totals, issues, nread, lg, ji, job, ecs, strs, planned, als, rep, sid, okl, cyc, heavy>>

ConfSpec == ConfInit /\ [][ConfNext]_allvars
ConfView == <<sid, pc, fi, IF pc = "read" THEN <<ps.i, ps.status>> ELSE <<>>, ji, ecs, strs>>
=============================================================================
