-------------------------------- MODULE Meta --------------------------------
(***************************************************************************)
(* The same configuration presented in several ways: records, zone files,  *)
(* properties and jobs in another order, names in other letter case.  A    *)
(* scenario is one presentation, those of one configuration follow each    *)
(* other (in.first .. in.last) and are run one after the other.  Whatever  *)
(* the presentation, the specification comes to the same verdict, and so   *)
(* does what groot reported.                                               *)
(***************************************************************************)
EXTENDS Conf

VARIABLE verdict       \* of the first presentation
metavars == <<allvars, verdict>>

ReportOf(o, k) ==      \* what is reported after the last job
    IF Len(o.jobs) = 0 THEN {}
    ELSE LET rs == o.jobs[Len(o.jobs)].rep[k] IN {Decode(k, rs[i]) : i \in 1..Len(rs)}
Finished(o) == o.end = "ok" /\ o.stage = "done"

First0 == Observed[in.first]

CheckPresentation ==
    /\ IF sid = in.first \/ verdict = <<rep, cyc>> THEN TRUE
       ELSE Out(<<in.id, "spec", "verdict", ToString(verdict), ToString(<<rep, cyc>>)>>)
    /\ IF ~(Finished(First0) /\ Finished(obs)) THEN TRUE
       ELSE \A k \in Kinds : Same("meta", "presentation " \o ToString(sid - in.first) \o ": " \o k, ReportOf(First0, k), ReportOf(obs, k))

MetaInit == ConfInit /\ sid = in.first /\ verdict = <<>>

Again ==
    /\ pc = "done"
    /\ sid < in.last
    /\ (CheckPresentation = TRUE)
    /\ verdict' = IF sid = in.first THEN <<rep, cyc>> ELSE verdict
    /\ sid' = sid + 1
    /\ in' = Scenarios[sid + 1]
    /\ pc' = "open" /\ fi' = 1 /\ ps' = <<>> /\ zs' = <<>> /\ totals' = <<>> /\ issues' = <<>> /\ nread' = 0 /\ lg' = <<>>
    /\ ji' = 0 /\ job' = <<>> /\ ecs' = {} /\ strs' = {} /\ planned' = 0 /\ als' = {} /\ rep' = NoViolations
    /\ okl' = {} /\ cyc' = {} /\ heavy' = FALSE

End ==
    /\ pc = "done" /\ sid = in.last
    /\ (CheckPresentation = TRUE)
    /\ pc' = "compared"
    /\ UNCHANGED <<in, fi, ps, zs, totals, issues, nread, lg, ji, job, ecs, strs, planned, als, rep, sid, okl, cyc, heavy, verdict>>

MetaNext == (ConfNext /\ UNCHANGED verdict) \/ Again \/ End
MetaSpec == MetaInit /\ [][MetaNext]_metavars
=============================================================================
