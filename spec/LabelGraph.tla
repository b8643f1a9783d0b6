----------------------------- MODULE LabelGraph -----------------------------
(***************************************************************************)
(* All names of all zones together and the DNAME edges between them; the   *)
(* query classes of a job.  zs: sequence of zones.                         *)
(* A class [n, t, x, ne] stands for the query n (x = FALSE) or for all     *)
(* names below n that have no node (x = TRUE); ne: no zone can know them.  *)
(***************************************************************************)
EXTENDS Zone

ZRecords(zs) == UNION {AllRecords(zs[i]) : i \in 1..Len(zs)}
Labelled(zs) == {r \in ZRecords(zs) : r.t # "DS"}
DEdges(rs) == {<<r.n, r.tn>> : r \in {r \in rs : r.t = "DNAME"}}
LNodes(rs) == {<<>>} \cup UNION {Prefixes(r.n) : r \in rs} \cup UNION {Prefixes(e[2]) : e \in DEdges(rs)}
LGraph(zs) == LET rs == Labelled(zs) IN [nodes |-> LNodes(rs), dname |-> DEdges(rs)]

Furthest(S) == LET m == CHOOSE i \in {e[2] : e \in S} : \A e \in S : e[2] <= i IN {e \in S : e[2] = m}

RECURSIVE Search(_, _, _, _)
Search(g, labels, todo, done) ==     \* all (node, number of labels matched) reached from the root
    IF todo = {} THEN done
    ELSE LET step == UNION {IF e[2] = Len(labels) THEN {}
                            ELSE (IF Append(e[1], labels[e[2] + 1]) \in g.nodes
                                  THEN {<<Append(e[1], labels[e[2] + 1]), e[2] + 1>>} ELSE {})
                                 \cup {<<d[2], e[2]>> : d \in {d \in g.dname : d[1] = e[1]}} : e \in todo}
         IN  Search(g, labels, step \ (done \cup todo), done \cup todo)

ClosestEnclosers(g, labels) == Furthest(Search(g, labels, {<<<<>>, 0>>}, {}))

\* A visit: the node, the name it has on this way, whether it was reached by DNAME (then the name itself is no query of
\* its own), and whether the structure of its delegation is to be checked
Children(g, n) == {m \in g.nodes : Len(m) = Len(n) + 1 /\ IsPrefix(n, m)}

RECURSIVE Visits(_, _, _, _)
Visits(g, kids, todo, done) ==
    IF todo = {} THEN done
    ELSE LET step == UNION {{[n |-> c, name |-> Append(v.name, c[Len(c)]), skip |-> FALSE, struct |-> v.struct] : c \in kids[v.n]}
                            \cup {[n |-> d[2], name |-> v.name, skip |-> TRUE, struct |-> FALSE] : d \in {d \in g.dname : d[1] = v.n}}
                            : v \in todo}
             ok == {v \in step : Octets(v.name) <= MaxName}
         IN  Visits(g, kids, ok \ (done \cup todo), done \cup todo)

JobVisits(g, labels, struct) ==
    Visits(g, [n \in g.nodes |-> Children(g, n)],
           {[n |-> e[1], name |-> labels, skip |-> FALSE, struct |-> struct] : e \in ClosestEnclosers(g, labels)}, {})

Class(n, t, x, ne) == [n |-> n, t |-> t, x |-> x, ne |-> ne]

VisitClasses(g, v, types) ==
    (IF v.skip THEN {} ELSE {Class(v.name, types, FALSE, FALSE)})
    \cup (IF Octets(v.name) + 2 > MaxName THEN {}
          ELSE IF Append(v.n, "*") \in g.nodes THEN {Class(v.name, types, TRUE, FALSE)}
          ELSE {Class(v.name, AllTypes, TRUE, TRUE)})

\* job: [d: name, sub: BOOLEAN, types: set of types, struct: BOOLEAN]
Plan(g, job) ==
    IF LengthStatus(job.d) # "ok" THEN [ecs |-> {}, struct |-> {}]
    ELSE LET enc == ClosestEnclosers(g, job.d)
             m == (CHOOSE e \in enc : TRUE)[2]
         IN  IF m # Len(job.d) THEN [ecs |-> {Class(SubSeq(job.d, 1, m), job.types, TRUE, FALSE)}, struct |-> {}]
             ELSE IF ~job.sub THEN [ecs |-> {Class(job.d, job.types, FALSE, FALSE)}, struct |-> {}]
             ELSE LET vs == JobVisits(g, job.d, job.struct)
                  IN  [ecs |-> UNION {VisitClasses(g, v, job.types) : v \in vs},
                       struct |-> {<<v.n, v.name>> : v \in {v \in vs : v.struct}}]
=============================================================================
