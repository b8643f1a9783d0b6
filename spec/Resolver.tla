------------------------------ MODULE Resolver ------------------------------
(***************************************************************************)
(* All executions of a query class.  A node [ns, q] is "server ns is asked *)
(* q"; ns = "" is the resolver that starts over at the top servers.        *)
(* An edge <<v, w, s>>: after v the execution goes on with w; s is the     *)
(* look-up of the address of w's server that has to come first, or NoSide. *)
(* cx: [zones: sequence of zones, tops: sequence of server names]          *)
(***************************************************************************)
EXTENDS LabelGraph

NoSide == [ns |-> "-", q |-> [n |-> <<>>, t |-> {}, x |-> FALSE]]
Query(n, t, x) == [n |-> n, t |-> t, x |-> x]
Node(ns, q) == [ns |-> ns, q |-> q]

Hosted(cx, ns) == {i \in 1..Len(cx.zones) : cx.zones[i].ns = ns}
Relevant(cx, ns, q) ==    \* the index of the zone of ns that answers q, 0 when there is none
    LET S == {i \in Hosted(cx, ns) : Under(cx.zones[i].origin, q.n)}
        L(i) == Len(cx.zones[i].origin)
    IN  IF S = {} THEN 0
        ELSE CHOOSE i \in S : \A j \in S : L(j) < L(i) \/ (L(j) = L(i) /\ i <= j)

Refused(q) == <<Ans("REFUSED", q.t, <<>>)>>
Unknown(q) == <<Ans("NSNOTFOUND", q.t, <<>>)>>
Overlong(q) == <<Ans("YX", q.t, <<>>)>>

IsTop(cx, ns) == \E i \in 1..Len(cx.tops) : cx.tops[i] = ns

Reply(cx, v) ==           \* <<>> for the resolver itself
    IF v.ns = "" THEN <<>>
    ELSE IF LengthStatus(v.q.n) # "ok" THEN Overlong(v.q)
    ELSE LET z == Relevant(cx, v.ns, v.q) IN
         IF z # 0 THEN Lookup(cx.zones[z], v.q)
         ELSE IF Hosted(cx, v.ns) # {} \/ IsTop(cx, v.ns) THEN Refused(v.q)
         ELSE Unknown(v.q)

Rewritten(r, q) ==
    IF r.t = "CNAME" THEN Query(r.tn, q.t \ {"CNAME"}, FALSE)
    ELSE Query(r.tn \o SubSeq(q.n, Len(r.n) + 1, Len(q.n)), q.t, q.x)

\* the servers of a referral with "has an address with it"
RECURSIVE Referred(_)
Referred(rrs) ==
    IF rrs = <<>> THEN {}
    ELSE (IF rrs[1].t = "NS" THEN {<<rrs[1], Len(rrs) > 1 /\ rrs[2].t \in AddressTypes>>} ELSE {}) \cup Referred(Tail(rrs))

Start0(cx, q) == {<<Node(cx.tops[i], q), NoSide>> : i \in 1..Len(cx.tops)}

Next1(cx, v, a) ==        \* the continuations after answer a
    IF a.tag = "REWRITE"
    THEN LET q == Rewritten(a.rrs[1], v.q)
         IN  IF LengthStatus(q.n) # "ok" \/ Relevant(cx, v.ns, q) # 0 THEN {<<Node(v.ns, q), NoSide>>}
             ELSE Start0(cx, q)
    ELSE IF a.tag = "REF"
    THEN {<<Node(p[1].d, v.q),
            IF p[2] \/ IsTop(cx, p[1].d) THEN NoSide ELSE Node("", Query(p[1].tn, AddressTypes, FALSE))>> : p \in Referred(a.rrs)}
    ELSE {}

Succ(cx, v, reply) ==
    IF v.ns = "" THEN Start0(cx, v.q)
    ELSE UNION {Next1(cx, v, reply[i]) : i \in 1..Len(reply)}

\* One round: every node of the frontier gets its reply and continuations
Expand(cx, frontier) == [v \in frontier |-> LET a == Reply(cx, v) IN [a |-> a, e |-> Succ(cx, v, a)]]
Heads(G) == UNION {{e[1] : e \in G[v].e} \cup {e[2] : e \in G[v].e} : v \in DOMAIN G} \ {NoSide}

RECURSIVE Explore(_, _, _)
Explore(cx, G, frontier) ==
    IF frontier = {} THEN G
    ELSE LET N == Expand(cx, frontier)
             G1 == G @@ N
         IN  Explore(cx, G1, Heads(N) \ DOMAIN G1)

Root(ec) == Node("", Query(ec.n, ec.t, ec.x))
Executions(cx, ec) == Explore(cx, [v \in {} |-> 0], {Root(ec)})

Edges(G) == UNION {{<<v, e[1], e[2]>> : e \in G[v].e} : v \in DOMAIN G}
Targets(G, v) == {e[1] : e \in G[v].e}
Steps(G, v) == Targets(G, v) \cup ({e[2] : e \in G[v].e} \ {NoSide})

RECURSIVE ReachFrom(_, _, _)
ReachFrom(G, todo, done) ==
    IF todo = {} THEN done
    ELSE ReachFrom(G, UNION {Targets(G, v) : v \in todo} \ (done \cup todo), done \cup todo)
MainNodes(G, root) == ReachFrom(G, {root}, {})

------------------------------- (* cycles *) -------------------------------
\* Nodes without continuations are removed over and over: what stays lies on or before a cycle
RECURSIVE Trim(_, _)
Trim(G, S) == LET T == {v \in S : Steps(G, v) \cap S # {}} IN IF T = S THEN S ELSE Trim(G, T)
Cyclic(G) == Trim(G, DOMAIN G) # {}

\* ls: sequence of views of nodes.  Is it a cycle of G?  View maps a node to its view
RECURSIVE Follow(_, _, _, _, _)
Follow(G, View(_, _), ls, i, at) ==
    IF i > Len(ls) THEN at
    ELSE Follow(G, View, ls, i + 1, {w \in UNION {Steps(G, v) : v \in at} : View(G, w) = ls[i]})
IsCycle(G, View(_, _), ls) ==
    /\ ls # <<>>
    /\ \E v \in DOMAIN G :
          /\ View(G, v) = ls[1]
          /\ \E w \in Follow(G, View, ls, 2, {v}) : v \in Steps(G, w)
=============================================================================
