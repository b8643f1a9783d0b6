------------------------------- MODULE Driver -------------------------------
(***************************************************************************)
(* A run of groot: the zone files are read entry by entry, then each job   *)
(* is planned and its query classes and delegations are checked one after  *)
(* the other in any order (Pipeline.tla refines this to the threads), and  *)
(* the violations are collected in one report.                             *)
(* The input: in.top, in.zones (file, text, ns, origin), in.jobs           *)
(* A job as the user writes it: [d, sub, props], a property is             *)
(* [name, hastypes, types, values, num].                                   *)
(***************************************************************************)
EXTENDS Props, Parser

VARIABLES
    in,      \* the input of this run, never changes
    pc,      \* "open" | "read" | "ready" | "job" | "done" | "abort"
    fi,      \* the file that is read
    ps,      \* the state of its reading
    zs,      \* the zones loaded: [id, ns, origin, soa, at]
    totals,  \* accepted and refused records
    issues,  \* lint issues, <<file, ...>>
    nread,   \* number of records read
    lg,      \* label graph
    ji, job, \* the current job
    ecs, strs, planned, \* what is left to be analysed, and how many classes there were
    als,     \* aliases found in this job
    rep      \* the report: kind -> set of violations

vars == <<in, pc, fi, ps, zs, totals, issues, nread, lg, ji, job, ecs, strs, planned, als, rep>>

KindOf == "Hops" :> "Hops" @@ "Rewrites" :> "Rewrites" @@ "QueryRewrite" :> "Query Rewrite"
       @@ "NameserverContact" :> "Name Server Contact" @@ "RewriteBlackholing" :> "Rewrite Blackholing"
       @@ "DNAMESubstitutionCheck" :> "DNAME Substitution exceeds length"
       @@ "InfiniteDNameRec" :> "Infinite DName Recursion"
       @@ "DelegationConsistency" :> "Delegation Consistency" @@ "LameDelegation" :> "Lame Delegation"
       @@ "ResponseReturned" :> "ResponseReturned" @@ "ResponseValue" :> "Response Value"
       @@ "ResponseConsistency" :> "Response Consistency" @@ "ZeroTTL" :> "Zero TTL"
       @@ "AllAliases" :> "All Aliases" @@ "StructuralDelegationConsistency" :> "Structural Delegation Consistency"
Kinds == {KindOf[n] : n \in DOMAIN KindOf}
NoViolations == [k \in Kinds |-> {}]

PathProps == {"Hops", "Rewrites", "QueryRewrite", "NameserverContact", "RewriteBlackholing", "DNAMESubstitutionCheck",
              "InfiniteDNameRec", "DelegationConsistency", "LameDelegation", "AllAliases"}
ListProps == {"QueryRewrite", "NameserverContact", "ResponseValue", "AllAliases"}   \* nothing to do with an empty list

Prop(name, types, values, num) ==
    [name |-> name, types |-> types, values |-> values, num |-> num, names |-> [i \in 1..Len(values) |-> NameOf(Lower(values[i]))]]

\* What a job asks for
Compile(j) ==
    LET P == {Prop(j.props[i].name, Range(j.props[i].types), j.props[i].values, j.props[i].num) : i \in 1..Len(j.props)}
        T == UNION {IF j.props[i].hastypes THEN Range(j.props[i].types) ELSE {"NS"} : i \in 1..Len(j.props)}
    IN  [d |-> NameOf(Lower(j.d)), sub |-> j.sub, types |-> T,
         props |-> {p \in P : p.name \in DOMAIN KindOf /\ (p.name \in ListProps => p.values # <<>>)},
         struct |-> \E p \in P : p.name = "StructuralDelegationConsistency"]

NoTypes(name, values, num) == [name |-> name, hastypes |-> FALSE, types |-> <<>>, values |-> values, num |-> num]
DefaultJob(d) ==
    [d |-> d, sub |-> TRUE,
     props |-> <<NoTypes("Hops", <<>>, 2), NoTypes("Rewrites", <<>>, 1), NoTypes("DelegationConsistency", <<>>, 0),
                 NoTypes("LameDelegation", <<>>, 0), NoTypes("QueryRewrite", <<d>>, 0), NoTypes("RewriteBlackholing", <<>>, 0)>>]

CheckPath(G, p, pr) ==
    CASE pr.name = "Hops" -> Hops(G, p, pr.num)
      [] pr.name = "Rewrites" -> Rewrites(G, p, pr.num)
      [] pr.name = "QueryRewrite" -> QueryRewrite(G, p, pr.names)
      [] pr.name = "NameserverContact" -> NameserverContact(G, p, pr.names)
      [] pr.name = "RewriteBlackholing" -> Blackholing(G, p)
      [] pr.name = "DNAMESubstitutionCheck" -> DnameLength(G, p)
      [] pr.name = "InfiniteDNameRec" -> InfiniteDname(G, p)
      [] pr.name = "DelegationConsistency" -> DelegationConsistency(G, p)
      [] pr.name = "LameDelegation" -> LameDelegation(G, p)
      [] pr.name = "AllAliases" -> Aliases(G, p, pr.names)
      [] OTHER -> {}

CheckEnds(G, root, ne, pr) ==
    CASE pr.name = "ResponseReturned" -> ResponseReturned(G, root, ne, pr.types)
      [] pr.name = "ResponseValue" -> ResponseValue(G, root, pr.types, {Lower(pr.values[i]) : i \in 1..Len(pr.values)})
      [] pr.name = "ResponseConsistency" -> ResponseConsistency(G, root, pr.types)
      [] pr.name = "ZeroTTL" -> ZeroTTL(G, root, pr.types)
      [] OTHER -> {}

\* kind -> violations of the class ec with executions G
Violations(G, ec, props) ==
    LET root == Root(ec)
        paths == IF \E pr \in props : pr.name \in PathProps THEN Paths(G, root) ELSE {}
        Of(pr) == IF pr.name \in PathProps THEN UNION {CheckPath(G, p, pr) : p \in paths} ELSE CheckEnds(G, root, ec.ne, pr)
    IN  [k \in Kinds |-> UNION {Of(pr) : pr \in {pr \in props : KindOf[pr.name] = k}}]

Merge(r, n) == [k \in Kinds |-> r[k] \cup n[k]]

Context == [zones |-> zs, tops |-> [i \in 1..Len(in.top) |-> Lower(in.top[i])]]

-----------------------------------------------------------------------------
InitWith(input) ==
    /\ in = input
    /\ pc = "open" /\ fi = 1 /\ ps = <<>> /\ zs = <<>> /\ totals = <<>> /\ issues = <<>> /\ nread = 0 /\ lg = <<>>
    /\ ji = 0 /\ job = <<>> /\ ecs = {} /\ strs = {} /\ planned = 0 /\ als = {} /\ rep = NoViolations

OpenFile ==
    /\ pc = "open" /\ fi <= Len(in.zones)
    /\ ps' = Start(Lower(in.zones[fi].ns), in.zones[fi].origin)
    /\ pc' = "read"
    /\ UNCHANGED <<in, fi, zs, totals, issues, nread, lg, ji, job, ecs, strs, planned, als, rep>>

ReadNext ==
    /\ pc = "read" /\ ps.status = "run"
    /\ ps' = ReadEntry(ps, Complete(in.zones[fi].text))
    /\ pc' = IF ps'.status = "abort" THEN "abort" ELSE "read"
    /\ UNCHANGED <<in, fi, zs, totals, issues, nread, lg, ji, job, ecs, strs, planned, als, rep>>

AddCounts(a, b) ==
    [k \in DOMAIN a \cup DOMAIN b |-> (IF k \in DOMAIN a THEN a[k] ELSE 0) + (IF k \in DOMAIN b THEN b[k] ELSE 0)]

\* A file without SOA record is ignored
CloseFile ==
    /\ pc = "read" /\ ps.status \in {"end", "stop"}
    /\ zs' = IF ps.soa THEN Append(zs, ("id" :> fi) @@ ps.zone) ELSE zs
    /\ totals' = AddCounts(totals, ps.counts)
    /\ issues' = issues \o [i \in 1..Len(ps.lint) |-> <<in.zones[fi].file>> \o ps.lint[i]]
    /\ nread' = nread + ps.parsed
    /\ fi' = fi + 1 /\ ps' = <<>> /\ pc' = "open"
    /\ UNCHANGED <<in, lg, ji, job, ecs, strs, planned, als, rep>>

SetToSeqAny(S) ==
    LET RECURSIVE F(_)
        F(X) == IF X = {} THEN <<>> ELSE LET e == CHOOSE e \in X : TRUE IN <<e>> \o F(X \ {e})
    IN  F(S)

GlueIssues(z) ==
    LET s == SetToSeqAny(MissingGlue(z))
    IN  [i \in 1..Len(s) |-> <<z.ns, "GLUE", NameStr(z.origin), RecStr(s[i]), "Missing Glue Record", "">>]

RECURSIVE AllGlueIssues(_)
AllGlueIssues(zz) == IF zz = <<>> THEN <<>> ELSE GlueIssues(Head(zz)) \o AllGlueIssues(Tail(zz))

Loaded ==
    /\ pc = "open" /\ fi > Len(in.zones)
    /\ lg' = LGraph(zs)
    /\ issues' = issues \o AllGlueIssues(zs)
    /\ pc' = "ready"
    /\ UNCHANGED <<in, fi, ps, zs, totals, nread, ji, job, ecs, strs, planned, als, rep>>

StartJob ==
    /\ pc = "ready" /\ ji < Len(in.jobs)
    /\ ji' = ji + 1
    /\ job' = Compile(IF in.jobs[ji'].dflt THEN DefaultJob(in.jobs[ji'].d) ELSE in.jobs[ji'])
    /\ LET p == Plan(lg, job') IN ecs' = p.ecs /\ strs' = p.struct /\ planned' = Cardinality(p.ecs)
    /\ als' = {}
    /\ pc' = "job"
    /\ UNCHANGED <<in, fi, ps, zs, totals, issues, nread, lg, rep>>

\* G: the executions of ec, V: its violations
Analyse(ec, G, V) ==
    /\ pc = "job"
    /\ ecs' = ecs \ {ec}
    /\ als' = als \cup V["All Aliases"]
    /\ rep' = Merge(rep, [V EXCEPT !["All Aliases"] = {}])
    /\ UNCHANGED <<in, pc, fi, ps, zs, totals, issues, nread, lg, ji, job, strs, planned>>

CheckStructure(s) ==
    /\ pc = "job"
    /\ strs' = strs \ {s}
    /\ rep' = [rep EXCEPT !["Structural Delegation Consistency"] = @ \cup Structural(zs, s[1], s[2])]
    /\ UNCHANGED <<in, pc, fi, ps, zs, totals, issues, nread, lg, ji, job, ecs, planned, als>>

FinishJob ==
    /\ pc = "job" /\ ecs = {} /\ strs = {}
    /\ rep' = IF als = {} THEN rep
              ELSE [rep EXCEPT !["All Aliases"] =
                        @ \cup {{<<c, {a[2] : a \in {a \in als : a[1] = c}}>> : c \in {a[1] : a \in als}}}]
    /\ pc' = "ready"
    /\ UNCHANGED <<in, fi, ps, zs, totals, issues, nread, lg, ji, job, ecs, strs, planned, als>>

Finish ==
    /\ pc = "ready" /\ ji = Len(in.jobs)
    /\ pc' = "done"
    /\ UNCHANGED <<in, fi, ps, zs, totals, issues, nread, lg, ji, job, ecs, strs, planned, als, rep>>
=============================================================================
