#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))

p("C01", "Zone files are read as RFC 1035 master files",
  "Every resource record of a supported type written in a zone file - with any legal mix of explicit, relative, '@' or inherited owner names, TTL/class order, $ORIGIN and $TTL directives, parentheses, comments, quoted text, backslash-quoted characters, letter case, CRLF line ends or a missing final newline - is loaded with exactly the owner, type, TTL and data that RFC 1035 gives it, and nothing else is loaded. Records of unsupported types and malformed entries (no data, a TTL that is no number up to 2147483647, an unknown class) are skipped without changing how any other record is read, except that the owner and TTL they state are the last stated ones (a closing parenthesis without an opening one and $INCLUDE end the file; the data itself is not checked).",
  ["inputs"], "all zone-file texts in the grammar above, any number of files and origins",
  "The tests load a handful of fixed files whose lines are nearly all in one canonical form and look at record counts only.",
  ["src/zone-file-parser.cpp", "src/resource-record.cpp", "src/utils.cpp"],
  [("token callback that assembles records at end of line", "src/zone-file-parser.cpp Parser::operator()")],
  [("current_record, paren_count, default_values, relative_domain_suffix", "the parser's state between tokens", "src/zone-file-parser.cpp ParseZoneFileAndExtendGraphs")],
  ["number of records reported by Driver::SetContext", "records held by the loaded zones", "verdicts that depend on a record"])
p("C02", "Only admissible records enter a zone",
  "A record enters its zone unless it is an exact duplicate (same owner, type, TTL and data), a second CNAME or second DNAME at its owner, an ordinary record sharing an owner with a CNAME (in either order), out of the zone's domain, or has an owner or name-valued target (NS, CNAME, DNAME) with a label over 63 octets or a total length over the limit (an escape sequence in a label is one octet); a refused record leaves everything loaded so far unchanged. The per-type totals count each accepted record once under its type and each refused one once under its reason.",
  ["inputs", "histories"], "all sequences of records in a zone file, in every order",
  "Unit tests add three or four chosen records; order, repetition and interplay of the rules with each other are not covered.",
  ["src/zone-graph.cpp", "src/zone-file-parser.cpp", "src/utils.cpp", "src/resource-record.cpp"],
  [("AddResourceRecord return codes", "src/zone-graph.cpp AddResourceRecord"), ("LengthCheck and CheckZoneMembership before insertion", "src/zone-file-parser.cpp, src/zone-graph.cpp")],
  [("rrs of the owner's node", "accepted records", "src/zone-graph.h Vertex")],
  ["loaded zone contents", "type_to_rr_count statistics"])
p("C03", "The lint report lists exactly the zone-file issues",
  "With linting on, the lint report contains one entry for every refused record (duplicate, multiple CNAME, multiple DNAME, CNAME with other data, out of zone, label or name too long) naming file, line, record and reason, and one for every NS record whose server lies inside the zone but has no address record there; it contains nothing else and the file is a well-formed JSON array. With linting off nothing is written.",
  ["inputs", "configurations"], "all sets of zone files, linting on or off",
  "No test turns linting on or reads lint.json.",
  ["src/utils.cpp", "src/zone-file-parser.cpp", "src/zone-graph.cpp", "bin/groot.cpp"],
  [("LintUtils::WriteRRIssueToFile / WriteIssueToFile", "src/utils.cpp"), ("CheckGlueRecordsPresence", "src/zone-graph.cpp")],
  [], ["lint.json"])
p("C04", "A zone answers every query as the DNS standards say",
  "For every zone and every query name and type set, the answer computed for the zone is the one the standards give: stop at the topmost DNAME or delegation, prefer an existing name over a wildcard, let empty non-terminals exist, synthesise from the wildcard only directly below the closest existing name, answer a CNAME with a rewrite unless exactly CNAME is asked for, and otherwise return precisely the records of the asked types, with the absent types reported as empty and NX only when no name matches. The answer does not depend on how many siblings a name has or on the order of the records in the file.",
  ["inputs"], "all zones (including ones with more than 500 names under one node), all query names incl. escaped, wildcard and maximal ones, all type sets",
  "Three unit tests ask a dozen queries; combinations of wildcard, DNAME, CNAME, delegation, empty non-terminals and big nodes are not reached.",
  ["src/zone-graph.cpp", "src/zone-graph.h"],
  [("closest-encloser walk", "src/zone-graph.cpp GetClosestEncloser"), ("QueryLookUpAtZone / WildcardMatch", "src/zone-graph.cpp")],
  [("vertex_to_child_map_", "index built when a node has more than 500 children", "src/zone-graph.h")],
  ["QueryLookUpAtZone result", "answers in the interpretation graph"])
p("C05", "Delegations yield referrals with the zone's glue",
  "For every zone, a query for a name at or below a delegation (a name below the apex owning NS but no SOA) is answered by a referral carrying all NS records of the topmost delegation on the way, each accompanied by exactly the A and AAAA records the zone holds for that server's name; NS records requested at the apex are likewise returned with their addresses, and no other query returns a referral.",
  ["inputs"], "all zones and queries",
  "Tests contain single delegations with one address per server and never check which addresses accompany which server.",
  ["src/zone-graph.cpp"],
  [("AddGlueRecords, GetClosestEncloser cut", "src/zone-graph.cpp")], [],
  ["QueryLookUpAtZone result", "referral edges of the interpretation graph"])
p("C06", "The generated query classes cover every query of a job",
  "For every set of zones and every job, the classes of queries that are analysed cover every possible query for the job's domain (and, with subdomains, every name below it, existing or not, including names reached by following DNAME records) with the job's types, up to the maximum name length; no class lies outside the job's domain, and every class behaves like each concrete query it stands for. A domain that does not exist is represented by the non-existent names below its closest existing ancestor.",
  ["inputs", "configurations"], "all zone sets (wildcards, DNAME chains and loops, several closest ancestors) and all job domains",
  "Tests fix two zone sets and compare only the number of classes.",
  ["src/label-graph.cpp", "src/label-graph.h", "src/equivalence-class.cpp"],
  [("SearchNode, SubDomainECGeneration, GenerateECs", "src/label-graph.cpp")],
  [("label graph", "all owner names and DNAME edges", "src/label-graph.h")],
  ["tasks put into the job's queue", "queries appearing in the output", "GetECCountForCurrentJob"])
p("C07", "Resolution explores every possible execution",
  "For every query class the analysis covers exactly the executions a resolver could see: it starts at every top name server, at each server uses the hosted zone with the longest matching origin, follows every NS record of a referral (looking up the server's address first when no glue is supplied and it is no top server), and ends with an answer, a denial, 'refused' when the server has no zone for the query, or 'server not found' when no zone file of that server is known. Nothing that cannot happen is explored.",
  ["inputs", "configurations"], "all zone sets, server assignments, top servers and queries",
  "Integration tests compare a few final reports for fixed zones; they do not see which executions were explored.",
  ["src/interpretation-graph.cpp", "src/interpretation-properties.h"],
  [("StartFromTopNameservers, NsSubRoutine, GetRelevantZone, SideQuery, InsertNode", "src/interpretation-graph.cpp")],
  [("interpretation graph", "(server, query) nodes with answers", "src/interpretation-properties.h")],
  ["interpretation graph nodes and edges", "reports of Nameserver Contact and Hops"])
p("C08", "Rewrites produce the right new query",
  "Whenever a CNAME answers a query, the query continues at the CNAME's target for the same types without CNAME; whenever a DNAME answers, the query continues with exactly the DNAME owner suffix replaced by its target, the remaining labels and the types unchanged. The new query stays at the same server if that server hosts a zone for it and restarts at the top servers otherwise, and a rewritten name over the legal length ends the execution as an overflow.",
  ["inputs"], "all CNAME/DNAME records, chains and queries (incl. root targets, wildcard CNAMEs, maximal names)",
  "Tests contain one or two rewrites in fixed zones and check only totals.",
  ["src/interpretation-graph.cpp", "src/utils.cpp"],
  [("ProcessCname, ProcessDname, CheckCnameDnameAtSameNameserver", "src/interpretation-graph.cpp")], [],
  ["interpretation graph", "Query Rewrite reports"])
p("C09", "A loop is reported exactly when resolution can cycle",
  "For every job and query class, a Cyclic Zone Dependency is reported if and only if some execution for that class, including the address look-ups for name servers, can come back to a server and query it already visited, and every reported loop is such a cycle, listed in order. Analysis terminates on every cyclic configuration.",
  ["inputs", "configurations"], "all zone sets, incl. CNAME, DNAME, referral and glueless cycles",
  "One test directory has an infinite rewrite; other kinds of cycles and the absence of false loops are untested.",
  ["src/interpretation-graph.cpp"],
  [("CheckForLoops / PrettyPrintLoop", "src/interpretation-graph.cpp")], [], ["output.json entries 'Cyclic Zone Dependency'"])

EXE = "all zone sets, jobs (incl. several properties and types per job) and executions"
p("C10", "Hops violations are exact",
  "A Hops violation is reported for a query class exactly when some loop-free execution of it contacts more name servers than allowed, counting consecutive contacts with one server once; the reported number and limit are those of such an execution.",
  ["inputs", "configurations"], EXE, "Tests use one threshold on two fixed zone sets.",
  ["src/properties.cpp", "src/interpretation-graph.cpp", "src/driver.cpp"],
  [("NumberOfHops over enumerated paths", "src/properties.cpp"), ("EnumeratePathsAndReturnEndNodes", "src/interpretation-graph.cpp")], [], ["output.json entries 'Hops'"])
p("C11", "Rewrites violations are exact",
  "A Rewrites violation is reported for a query class exactly when some loop-free execution of it is rewritten (by CNAME or DNAME) more often than allowed, with the number of rewrites of that execution and the limit.",
  ["inputs", "configurations"], EXE, "Tests use one threshold on two fixed zone sets.",
  ["src/properties.cpp", "src/interpretation-graph.cpp", "src/driver.cpp"],
  [("NumberOfRewrites", "src/properties.cpp")], [], ["output.json entries 'Rewrites'"])
p("C12", "Query Rewrite violations are exact",
  "A Query Rewrite violation is reported exactly for each rewrite step of some loop-free execution whose new query name is not at or below any allowed domain (compared label by label, ignoring case), naming the rewritten query, the new query, the server and the allowed domains.",
  ["inputs", "configurations"], EXE, "Fixed zones, one allowed list.",
  ["src/properties.cpp", "src/utils.cpp", "src/driver.cpp"],
  [("QueryRewrite, SubDomainCheck", "src/properties.cpp, src/utils.cpp")], [], ["output.json entries 'Query Rewrite'"])
p("C13", "Nameserver Contact violations are exact",
  "A Name Server Contact violation is reported exactly for each query and server such that some loop-free execution sends that query to a server that is not at or below any allowed domain (compared label by label, ignoring case).",
  ["inputs", "configurations"], EXE, "No test uses this property beyond one fixed list.",
  ["src/properties.cpp", "src/utils.cpp", "src/driver.cpp"],
  [("NameServerContact", "src/properties.cpp")], [], ["output.json entries 'Name Server Contact'"])
p("C14", "Rewrite Blackholing violations are exact",
  "A Rewrite Blackholing violation is reported exactly for each loop-free execution that is rewritten at least once and ends in a non-existent name, naming the first rewritten query of the execution, its final query and the server that denied it; an existing final name without records of the asked type is not a violation.",
  ["inputs", "configurations"], EXE, "Fixed zones with a single blackholed chain.",
  ["src/properties.cpp", "src/interpretation-graph.cpp"],
  [("RewriteBlackholing", "src/properties.cpp")], [], ["output.json entries 'Rewrite Blackholing'"])
p("C15", "DNAME length overflows are reported exactly",
  "With the DNAME Substitution Check requested, a violation is reported exactly for each loop-free execution in which a DNAME substitution produces a name over the legal length, naming the initial query, the overlong query and the server; executions that stay within the limit, even exactly at it, are never reported.",
  ["inputs", "configurations"], EXE, "No test reaches a name near the length limit.",
  ["src/properties.cpp", "src/interpretation-graph.cpp", "src/utils.cpp"],
  [("DNAMESubstitutionExceedesLength", "src/properties.cpp"), ("LengthCheck on the rewritten query", "src/interpretation-graph.cpp")], [], ["output.json entries 'DNAME Substitution exceeds length'"])
p("C16", "Delegation Consistency violations are exact",
  "For every loop-free execution in which a server refers the query and the next server answers it with the NS records of the same delegated name, a violation of kind NS is reported exactly when the two NS sets differ and one of kind Glue exactly when their server addresses differ, counting only addresses of servers below the delegated name and disregarding TTLs; records that merely happen to be asked for by other properties of the job play no part.",
  ["inputs", "configurations"], EXE, "One consistent and one inconsistent delegation are tested.",
  ["src/properties.cpp", "src/utils.cpp"],
  [("CheckDelegationConsistency, GetNSGlueRecords, CompareRRs", "src/properties.cpp, src/utils.cpp")], [], ["output.json entries 'Delegation Consistency'"])
p("C17", "Lame Delegation violations are exact",
  "A Lame Delegation is reported exactly for each pair of servers such that, in some loop-free execution of the original query name, the first refers the query to the second and the second is a known server that refuses it for lack of a zone.",
  ["inputs", "configurations"], EXE, "One lame delegation in a fixed zone set.",
  ["src/properties.cpp", "src/interpretation-graph.cpp"],
  [("CheckLameDelegation", "src/properties.cpp"), ("NsSubRoutine REFUSED/NSNOTFOUND", "src/interpretation-graph.cpp")], [], ["output.json entries 'Lame Delegation'"])
p("C18", "Structural Delegation Consistency violations are exact",
  "For every checked domain that owns NS records, each pair among the zones that hold its apex and the closest enclosing zones that hold records for it is compared, whether or not the servers can be reached, and is listed exactly when their NS sets or the required glue below the domain differ, with the common and exclusive records of each side; the verdict does not depend on the order of zone files.",
  ["inputs", "configurations"], "all zone sets, numbers of parents and children, jobs with and without subdomains",
  "One test job checks it on one domain.",
  ["src/label-graph.cpp", "src/structural-task.cpp", "src/zone-graph.cpp", "src/utils.cpp"],
  [("CheckStructuralDelegationConsistency, CompareParentChildDelegationRecords, ConstructOutputNS", "src/label-graph.cpp")], [], ["output.json entries 'Structural Delegation Consistency'"])
p("C19", "Response Returned violations are exact",
  "A Response Returned violation is reported exactly for each final server and query of an execution (for a name of the zones, not the class of non-existent names) that gives an empty answer for one or more of the property's types, naming those types; executions ending in 'refused' or 'server not found' are not counted.",
  ["inputs", "configurations"], EXE, "Fixed zones, few types.",
  ["src/properties.cpp", "src/interpretation-graph.cpp"],
  [("CheckResponseReturned", "src/properties.cpp")], [], ["output.json entries 'ResponseReturned'"])
p("C20", "Response Value violations are exact",
  "A Response Value violation is reported for a query class exactly when some execution ends (for the property's types) with a set of record data different from the expected set, an NX or overflow counting as the empty set and 'refused' and 'server not found' not counting; it lists exactly the deviating servers, queries and values found, and is not affected by types requested by other properties of the job.",
  ["inputs", "configurations"], EXE, "Fixed zones and one expected value.",
  ["src/properties.cpp", "src/driver.cpp"],
  [("CheckResponseValue, PrettyPrintResponseValue", "src/properties.cpp")], [], ["output.json entries 'Response Value'"])
p("C21", "Response Consistency violations are exact",
  "A Response Consistency violation is reported for a query class exactly when two loop-free executions that end with a query for one of the property's types end with different answers to the job's query (the whole answer, compared without TTL and order; a CNAME found for a query that asks for CNAME, when CNAME is one of the property's types, is compared only with the other answers to queries that ask for CNAME), 'refused' and 'server not found' not counting. Consistent servers are never reported, whatever other properties the job contains.",
  ["inputs", "configurations"], EXE, "Fixed zones, one or two servers.",
  ["src/properties.cpp", "src/utils.cpp"],
  [("CheckSameResponseReturned, CompareRRs", "src/properties.cpp, src/utils.cpp")], [], ["output.json entries 'Response Consistency'"])
p("C22", "Zero TTL violations are exact",
  "A Zero TTL violation is reported exactly for each record of one of the property's types with TTL zero that some execution's final answer returns, naming the class, server and record; records with a positive TTL or of other types are never reported.",
  ["inputs", "configurations"], EXE, "Not exercised by the tests' zones (no zero TTL).",
  ["src/properties.cpp", "src/zone-file-parser.cpp"],
  [("ZeroTTL", "src/properties.cpp")], [], ["output.json entries 'Zero TTL'"])
p("C23", "All Aliases lists exactly the aliases",
  "For each canonical name asked for, the report lists exactly the query names of the job that some loop-free execution rewrites, directly or through further rewrites, to that name, one merged entry per job with each canonical name once.",
  ["inputs", "configurations"], EXE, "One fixed canonical name.",
  ["src/properties.cpp", "src/driver.cpp"],
  [("AllAliases and its merge in the violation collector", "src/properties.cpp, src/driver.cpp")], [], ["output.json entry 'All Aliases'"])
p("C24", "Each job is checked for exactly what it asks",
  "For every sequence of jobs the report is the union of what each job would give on its own: a job's domain, subdomain flag, types (NS where a property names none), thresholds and properties are taken as written (names ignoring case), the default job checks the documented defaults on all names, and nothing of an earlier job - properties, types, structural checks, aliases or counts - carries over to a later one.",
  ["inputs", "histories", "configurations"], "all job lists: orders, repetitions, mixes of properties",
  "Tests run one job list per fresh driver and compare totals.",
  ["src/driver.cpp", "src/job.h", "bin/groot.cpp"],
  [("SetJob, GenerateECsAndCheckProperties", "src/driver.cpp")],
  [("current_job_", "state reused between jobs", "src/driver.h"), ("property_violations_", "accumulated report", "src/driver.h")],
  ["output.json for job lists versus single jobs"])
p("C25", "The parallel analysis loses nothing and terminates",
  "Under every interleaving of the generating, analysing and collecting threads, each generated query class is analysed exactly once, each violation found reaches the report, the number of analysed classes is the number generated, and every job terminates; hence the report is the same on every run.",
  ["schedules"], "all thread interleavings, any number of classes, jobs and violations",
  "A test run samples one schedule, and on an idle machine nearly always the same one.",
  ["src/driver.cpp", "src/label-graph.cpp", "src/ec-task.cpp", "src/job.h"],
  [("finished_ec_generation, done_consumers, queue draining", "src/driver.cpp GenerateECsAndCheckProperties"), ("class producers", "src/label-graph.cpp GenerateECs")],
  [("ec_queue, json_queue, attributes_queue", "hand-over between the stages", "src/job.h")],
  ["report and counts under controlled schedules"])
p("C26", "A run reports its result faithfully or fails loudly",
  "A run on valid inputs writes to the requested output file a well-formed JSON array holding every violation found exactly once, whatever characters the zone data contains, and exits with status 0. If the metadata lacks its required fields, names a missing zone file, or names no top name server that serves a zone, or a run cannot be completed, the program exits with a non-zero status instead of reporting a clean result.",
  ["inputs", "configurations", "fault_sequences"], "all metadata, job files, command lines and zone data",
  "Tests never run the program itself nor use invalid metadata.",
  ["src/driver.cpp", "bin/groot.cpp"],
  [("MetadataSanityCheck, WriteViolationsToFile", "src/driver.cpp"), ("main", "bin/groot.cpp")], [], ["exit status", "output.json"])
p("C27", "Verdicts do not depend on presentation order",
  "Permuting the records within zone files (SOA first), the zone files in the metadata, the properties in a job or the jobs in the list, and changing the letter case of any domain name in zone files, metadata or jobs, changes no verdict: the same violations are reported for the same queries (of a cyclic dependency: which classes have one, whatever cycle is shown; for zones none of whose records is refused, records that state owner and TTL, and servers that host one zone per origin).",
  ["inputs", "configurations"], "all permutations and case variations of valid inputs",
  "Each test has one fixed order and lower-case names throughout.",
  ["src/driver.cpp", "src/zone-graph.cpp", "src/label-graph.cpp", "src/interpretation-graph.cpp", "src/zone-file-parser.cpp"],
  [("order-independent graphs; lower-casing at every entry point", "src/driver.cpp SetContext/SetJob, src/zone-file-parser.cpp")], [], ["output.json of permuted inputs"])
p("C28", "Infinite DNAME Recursion violations are exact",
  "With the check for infinite DNAME recursion requested, a violation is reported exactly for each loop-free execution in which a rewrite record (CNAME or DNAME, same owner and data, whatever its TTL) is applied again to a query name with at least as many labels as at its previous use; it names the query of that previous use, the query now rewritten and the rewrite records used so far. Applying a record again to a shorter name is not a violation.",
  ["inputs", "configurations"], EXE, "No test asks for this property.",
  ["src/properties.cpp", "src/interpretation-graph.cpp", "src/driver.cpp"],
  [("InfiniteDName", "src/properties.cpp")], [], ["output.json entries 'Infinite DName Recursion'"])
p("C29", "The statistics of a run are those of its inputs and jobs",
  "What a run tells about itself with --stats (on the terminal) or --log (in log.txt) is true: the number of records parsed and of each type over all zone files, the number of names in the label graph; for each job the number of query classes analysed in it - at least those the job has, the same when it is asked again, nothing of earlier jobs - and the largest, the smallest and the mean number of vertices and edges of their interpretation graphs; the total of classes is the sum over the jobs, and the number of violations is the number of elements of the report.",
  ["inputs", "configurations", "histories"], "all zone data and job lists",
  "Tests never run the program itself, and no test looks at statistics of more than one job.",
  ["src/driver.cpp", "src/ec-task.cpp", "src/job.h", "bin/groot.cpp"],
  [("WriteStatsForAJob, GetECCountForCurrentJob, stats reset in SetJob", "src/driver.cpp"), ("total_ecs", "bin/groot.cpp")],
  [("current_job_.stats", "counters of the current job", "src/job.h")], ["terminal output, log.txt"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=True) + "\n")
