------------------------------- MODULE MCPlan -------------------------------
(***************************************************************************)
(* The query classes of a job stand for all its queries: every name in the *)
(* domain of the job belongs to a class, and the executions of the query   *)
(* are those of its class with the name put in.  Checked for all zone data *)
(* that can be made from a small universe of records.                      *)
(***************************************************************************)
EXTENDS Resolver

CONSTANTS MaxRecords, Deep

VARIABLES zs, got
vars == <<zs, got>>

T == <<"t">>
U == <<"u">>
A == <<"t", "a">>
B == <<"t", "b">>
R(n, t, tn) == [n |-> n, t |-> t, ttl |-> "300", d |-> IF t \in NamedTypes THEN NameStr(tn) ELSE "x", tn |-> tn]
SOA(o) == R(o, "SOA", <<>>)

\* zone t. and zone u. of the top servers, and a zone a.t. of a server that is asked only after a referral
Zones0 == <<Insert(EmptyZone("n1.t."), SOA(T)), Insert(EmptyZone("n2.u."), SOA(U)), Insert(EmptyZone("n3.u."), SOA(A))>>
Context == [zones |-> zs, tops |-> <<"n1.t.", "n2.u.">>]

Universe ==
    {<<1, r>> : r \in {R(B, "A", <<>>), R(B \o <<"c">>, "A", <<>>), R(T \o <<"*">>, "A", <<>>), R(B \o <<"*">>, "TXT", <<>>),
                       R(A, "CNAME", B), R(T \o <<"*">>, "CNAME", B \o <<"c">>), R(B, "CNAME", U \o <<"c">>),
                       R(A, "DNAME", B), R(A, "DNAME", U), R(B, "DNAME", A), R(B, "DNAME", U), R(A \o <<"c">>, "DNAME", B), R(T, "DNAME", U),
                       R(A, "NS", U \o <<"n3">>), R(A, "NS", T \o <<"n1">>), R(A \o <<"c">>, "A", <<>>)}}
    \cup {<<2, r>> : r \in {R(U \o <<"c">>, "A", <<>>), R(U \o <<"n3">>, "A", <<>>), R(U \o <<"*">>, "CNAME", A \o <<"c">>), R(U \o <<"c">>, "DNAME", A)}}
    \cup {<<3, r>> : r \in {R(A \o <<"c">>, "A", <<>>), R(A, "NS", U \o <<"n3">>), R(A \o <<"*">>, "A", <<>>), R(A, "DNAME", B), R(A \o <<"c">>, "CNAME", B \o <<"c">>)}}

Init == zs = Zones0 /\ got = {}
Next == \E u \in Universe :
    /\ Cardinality(got) < MaxRecords /\ u \notin got
    /\ Admission(zs[u[1]], u[2]) = "SUCCESS"
    /\ zs' = [zs EXCEPT ![u[1]] = Insert(@, u[2])] /\ got' = got \cup {u}
Spec == Init /\ [][Next]_vars
View == got

-----------------------------------------------------------------------------
Domains == {T, A, B, U, B \o <<"c">>, A \o <<"new">>, <<"v">>}
Labels == {"a", "b", "c", "new", "*"}
\* names that may turn out to be new: no pathologically long ones, all the others up to two (three) labels below
Below(d) == {d} \cup {d \o <<x>> : x \in Labels} \cup {d \o <<x, y>> : x, y \in Labels}
            \cup IF Deep THEN {d \o <<x, y, v>> : x, y, v \in {"a", "c", "new"}} ELSE {}
Job(d, sub) == [d |-> d, sub |-> sub, types |-> {"A", "TXT"}, struct |-> FALSE]

\* the class a query belongs to: its own, otherwise that of the new names below the longest ancestor that has one
Candidates(ecs, q) == {e \in ecs : IF e.x THEN Len(e.n) < Len(q) /\ IsPrefix(e.n, q) ELSE e.n = q}
Best(C) == CHOOSE e \in C : \A f \in C : Len(f.n) < Len(e.n) \/ (Len(f.n) = Len(e.n) /\ (f.x \/ ~e.x))

AnswerView(a) == <<a.tag, a.t, RecViews(a.rrs)>>
AnswersView(as) == {AnswerView(as[i]) : i \in 1..Len(as)}
\* the node v of the executions of a class once the rest of the name is put in
Filled(v, rest) == <<v.ns, IF v.q.x THEN v.q.n \o rest ELSE v.q.n, v.q.t>>
FilledNodes(G, rest) == {<<Filled(v, rest), AnswersView(G[v].a)>> : v \in DOMAIN G}
FilledEdges(G, rest) == {<<Filled(e[1], rest), Filled(e[2], rest), IF e[3] = NoSide THEN <<>> ELSE Filled(e[3], rest)>> : e \in Edges(G)}

\* Executions that go round a loop of DNAME records with ever longer names end where names get too long, which is elsewhere
\* for another name of the class
Grows(G) == \E v \in DOMAIN G : Len(v.q.n) > 12

Represents(ec, q) ==
    LET rest == IF ec.x THEN SubSeq(q, Len(ec.n) + 1, Len(q)) ELSE <<>>
        G == Executions(Context, ec)
        H == Executions(Context, Class(q, ec.t, FALSE, FALSE))
    IN  \/ Grows(G)
        \/ /\ FilledNodes(G, rest) = FilledNodes(H, <<>>)
           /\ FilledEdges(G, rest) = FilledEdges(H, <<>>)

Covered(d) ==
    LET ecs == Plan(LGraph(zs), Job(d, TRUE)).ecs
        m == (CHOOSE e \in ClosestEnclosers(LGraph(zs), d) : TRUE)[2]
        names == IF m = Len(d) THEN Below(d) ELSE {d, d \o <<"new">>, d \o <<"c">>}
    IN  \A q \in names :
            LET C == Candidates(ecs, q) IN
            IF C = {} THEN PrintT(<<"uncovered", got, d, q>>) /\ FALSE
            ELSE IF Represents(Best(C), q) THEN TRUE ELSE PrintT(<<"differs", got, d, q, Best(C)>>) /\ FALSE
ClassesCover == \A d \in Domains : Covered(d)

\* a job without its subdomains is about that one name
Alone(d) ==
    LET ecs == Plan(LGraph(zs), Job(d, FALSE)).ecs IN
    Cardinality(ecs) = 1 /\ \A e \in ecs : Candidates({e}, d) = {e} /\ Represents(e, d)
SingleNames == \A d \in Domains \cup {B \o <<"new", "c">>} : Alone(d)
-----------------------------------------------------------------------------
\* Mistakes that have to be found
RewrittenShort(r, q) ==
    IF r.t = "CNAME" THEN Query(r.tn, q.t \ {"CNAME"}, FALSE)
    ELSE Query(r.tn \o SubSeq(q.n, Len(r.n) + 1, Len(r.n) + (IF Len(q.n) > Len(r.n) THEN 1 ELSE 0)), q.t, q.x)
ClassesWithoutNew(g, v, types) ==
    (IF v.skip THEN {} ELSE {Class(v.name, types, FALSE, FALSE)})
    \cup (IF Append(v.n, "*") \in g.nodes THEN {Class(v.name, types, TRUE, FALSE)} ELSE {})
=============================================================================
