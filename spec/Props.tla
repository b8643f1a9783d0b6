-------------------------------- MODULE Props -------------------------------
(***************************************************************************)
(* The properties of a job, on the executions of one query class.          *)
(* G: the executions, root: the node of the class, ne: the class is one of *)
(* names no zone knows.  Violations are tuples of strings (or of sets of   *)
(* tuples of strings) as they appear in the report.                        *)
(***************************************************************************)
EXTENDS Resolver

Tag(G, v) == IF v.ns = "" THEN "" ELSE G[v].a[1].tag
First(G, v) == G[v].a[1]
IsRewrite(G, v) == v.ns # "" /\ First(G, v).tag = "REWRITE"
QStr(v) == QueryStr(v.q)

\* An execution may also stop at a CNAME when CNAME is asked for
CnameEnd(G, v) == IsRewrite(G, v) /\ First(G, v).rrs[1].t = "CNAME" /\ "CNAME" \in v.q.t
IsEnd(G, v) == Targets(G, v) = {} \/ CnameEnd(G, v)
EndNodes(G, root) == {v \in MainNodes(G, root) : IsEnd(G, v)}

RECURSIVE PathsFrom(_, _, _)
PathsFrom(G, p, v) ==     \* p: the nodes before v
    IF \E i \in 1..Len(p) : p[i] = v THEN {}
    ELSE LET pv == Append(p, v) IN
         (IF IsEnd(G, v) THEN {pv} ELSE {}) \cup UNION {PathsFrom(G, pv, w) : w \in Targets(G, v)}
Paths(G, root) == PathsFrom(G, <<>>, root)

Last(p) == p[Len(p)]

------------------------- (* properties of paths *) ------------------------
RECURSIVE Contacts(_, _)
Contacts(p, prev) ==      \* servers contacted one after the other
    IF p = <<>> THEN 0
    ELSE IF Head(p).ns # "" /\ Head(p).ns # prev THEN 1 + Contacts(Tail(p), Head(p).ns)
    ELSE Contacts(Tail(p), prev)

Hops(G, p, max) ==
    LET n == Contacts(p, "") IN IF n > max THEN {<<QStr(p[1]), ToString(n), ToString(max)>>} ELSE {}

Rewrites(G, p, max) ==
    LET n == Cardinality({i \in 1..Len(p) : IsRewrite(G, p[i])})
    IN  IF n > max THEN {<<QStr(p[1]), ToString(n), ToString(max)>>} ELSE {}

DomainsStr(ds) == "[" \o JoinWith([i \in 1..Len(ds) |-> NameStr(ds[i])], ", ") \o "]"

QueryRewrite(G, p, ds) ==
    {<<QStr(p[i]), QStr(p[i + 1]), p[i].ns, DomainsStr(ds)>> :
        i \in {i \in 1..(Len(p) - 1) : IsRewrite(G, p[i]) /\ ~UnderAny(ds, p[i + 1].q.n)}}

NameserverContact(G, p, ds) ==
    {<<QStr(p[i]), p[i].ns, DomainsStr(ds)>> : i \in {i \in 1..Len(p) : p[i].ns # "" /\ ~UnderAny(ds, NameOf(p[i].ns))}}

Blackholing(G, p) ==
    LET R == {i \in 1..(Len(p) - 1) : IsRewrite(G, p[i])}
    IN  IF R = {} \/ Tag(G, Last(p)) # "NX" THEN {}
        ELSE LET i == CHOOSE i \in R : \A j \in R : i <= j IN {<<QStr(p[i]), QStr(Last(p)), Last(p).ns>>}

DnameLength(G, p) ==
    IF Tag(G, Last(p)) = "YX" THEN {<<QStr(p[1]), QStr(Last(p)), Last(p).ns>>} ELSE {}

LameDelegation(G, p) ==
    {<<QStr(p[1]), p[i].ns, p[i + 1].ns>> :
        i \in {i \in 1..(Len(p) - 1) : Tag(G, p[i]) = "REF" /\ Tag(G, p[i + 1]) = "REFUSED" /\ p[i + 1].q.n = p[1].q.n}}

NSOf(rs) == {r \in Range(rs) : r.t = "NS"}
\* the addresses of the servers among the records
AddrOf(rs) == {r \in Range(rs) : r.t \in AddressTypes /\ \E s \in NSOf(rs) : s.tn = r.n}
KeysOf(S) == {Key(r) : r \in S}

DelegationConsistency(G, p) ==
    LET Pair(i) == /\ Tag(G, p[i]) = "REF"
                   /\ Tag(G, p[i + 1]) = "ANS"
                   /\ LET a == First(G, p[i + 1]) IN "NS" \in a.t /\ a.rrs # <<>>
                   /\ p[i + 1].q.n = p[1].q.n
        I == {i \in 1..(Len(p) - 1) : Pair(i)}
    IN  IF Len(p) <= 2 \/ I = {} THEN {}
        ELSE LET i == CHOOSE i \in I : \A j \in I : j <= i
                 ps == First(G, p[i]).rrs
                 cs == First(G, p[i + 1]).rrs
                 pns == NSOf(ps)
                 cns == NSOf(cs)
                 owner(S) == (CHOOSE r \in S : TRUE).n
                 pglue == IF cns = {} THEN AddrOf(ps) ELSE {r \in AddrOf(ps) : Under(owner(cns), r.n)}
                 out(kind) == {<<QStr(p[1]), p[i].ns, p[i + 1].ns, kind>>}
             IN  IF pns # {} /\ cns # {} /\ owner(pns) # owner(cns) THEN {}
                 ELSE (IF KeysOf(pns) # KeysOf(cns) THEN out("NS") ELSE {})
                      \cup (IF KeysOf(pglue) # KeysOf(AddrOf(cs)) THEN out("Glue") ELSE {})

\* <<canonical name, alias>>
Aliases(G, p, names) ==
    UNION {{<<QStr(p[j]), QStr(p[i])>> : j \in {j \in (i + 1)..Len(p) : ~p[j].q.x /\ \E k \in 1..Len(names) : names[k] = p[j].q.n}}
           : i \in {i \in 1..Len(p) : IsRewrite(G, p[i])}}

\* The same rewrite is used again for a query that has not become shorter: {<<earlier query, query, rewrites so far>>}
\* used: record -> <<number of labels, query>> of its last use
RECURSIVE Recursion(_, _, _, _)
Recursion(G, p, i, used) ==
    IF i > Len(p) THEN {}
    ELSE IF ~IsRewrite(G, p[i]) THEN Recursion(G, p, i + 1, used)
    ELSE LET r == RecStr(First(G, p[i]).rrs[1])
             now == r :> <<Len(p[i].q.n), QStr(p[i])>>
         IN  IF r \in DOMAIN used /\ Len(p[i].q.n) >= used[r][1] THEN {<<used[r][2], QStr(p[i]), DOMAIN used>>}
             ELSE Recursion(G, p, i + 1, now @@ used)
InfiniteDname(G, p) == Recursion(G, p, 1, <<>>)

------------------------ (* properties of end nodes *) ---------------------
NoAnswer == {"REFUSED", "NSNOTFOUND"}
Relevants(G, root, ts) == {v \in EndNodes(G, root) : v.ns # "" /\ v.q.t \cap ts # {} /\ Tag(G, v) \notin NoAnswer}

ResponseReturned(G, root, ne, ts) ==
    UNION {{<<QStr(v), TypesStr(G[v].a[i].t \cap ts), v.ns>> :
              i \in {i \in 1..Len(G[v].a) : G[v].a[i].rrs = <<>> /\ G[v].a[i].t \cap ts # {}}}
           : v \in {v \in Relevants(G, root, ts) : ~(ne /\ v.q.x)}}

ValuesStr(S) == Concat(Sorted(S))
\* <<expected, {<<found, query, server>>}>>, at most one
ResponseValue(G, root, ts, values) ==
    LET Found(v) == IF Tag(G, v) \in {"ANS", "REWRITE"} THEN {r.d : r \in {r \in Range(First(G, v).rrs) : r.t \in ts}} ELSE {}
        V == {v \in Relevants(G, root, ts) : Tag(G, v) = "REWRITE" => "CNAME" \in ts}
        M == {<<ValuesStr(Found(v)), QStr(v), v.ns>> : v \in {v \in V : Tag(G, v) \in {"NX", "YX"} \/ Found(v) # values}}
    IN  IF M = {} THEN {} ELSE {<<ValuesStr(values), M>>}

ResponseConsistency(G, root, ts) ==
    LET V == Relevants(G, root, ts)
        C == {v \in V : "CNAME" \in ts /\ "CNAME" \in v.q.t}    \* may end with a CNAME
        M == {v \in V \ C : Tag(G, v) # "REWRITE"}
        K(v) == Keys(First(G, v).rrs)
    IN  IF (\E v, w \in C : Tag(G, v) # Tag(G, w) \/ K(v) # K(w)) \/ (\E v, w \in M : K(v) # K(w))
        THEN {<<QStr(root)>>} ELSE {}

ZeroTTL(G, root, ts) ==
    UNION {{<<QStr(root), v.ns, RecStr(r)>> : r \in {r \in Range(First(G, v).rrs) : r.ttl = "0" /\ r.t \in ts}}
           : v \in Relevants(G, root, ts)}

------------------------------ (* structure *) ------------------------------
\* Do the zones that hold the apex of n and the closest enclosing ones agree about its delegation?
\* A side is [z: index of the zone, ns: NS records, glue: address records]
GlueOf(z, nss) == UNION {{a \in Range(RRs(z, r.tn)) : a.t \in AddressTypes} : r \in nss}
NeedsGlue(z, nss) == \E r \in nss : Under(z.origin, r.tn)

Sides(zs, n) ==
    LET I == {i \in 1..Len(zs) : \E k \in 1..Len(RRs(zs[i], n)) : RRs(zs[i], n)[k].t # "DS"}
        NSat(i) == {r \in Range(RRs(zs[i], n)) : r.t = "NS"}
        child == {i \in I : "SOA" \in TypesAt(zs[i], n)}
        par == I \ child
        longest == {i \in par : \A j \in par : Len(zs[j].origin) <= Len(zs[i].origin)}
        apexed == child # {} /\ n # <<>>
    IN  [parents |-> {[z |-> i, ns |-> NSat(i),
                       glue |-> {a \in GlueOf(zs[i], NSat(i)) : ~apexed \/ Under(n, a.n)}] : i \in longest},
         children |-> {[z |-> i, ns |-> NSat(i),
                        glue |-> IF NeedsGlue(zs[i], NSat(i)) THEN GlueOf(zs[i], NSat(i)) ELSE {},
                        need |-> NeedsGlue(zs[i], NSat(i))] : i \in child}]

KeyStrs(S) == {RecStr(r) : r \in S}
\* <<NS in common, glue in common, {<<role, server, its other NS, its other glue>>, ...}>>; {} when the two agree
Compare(ra, rb, na, nb, a, b, glue) ==
    LET x == KeyStrs(a.ns)
        y == KeyStrs(b.ns)
        ga == IF glue THEN KeyStrs(a.glue) ELSE {}
        gb == IF glue THEN KeyStrs(b.glue) ELSE {}
    IN  IF x = y /\ ga = gb THEN {}
        ELSE {<<x \cap y, ga \cap gb, {<<ra, na, x \ y, ga \ gb>>, <<rb, nb, y \ x, gb \ ga>>}>>}

HasNS(zs, n) == \E i \in 1..Len(zs) : \E k \in 1..Len(RRs(zs[i], n)) : RRs(zs[i], n)[k].t = "NS"

\* n: the node; name: the name under which the job came to it
Structural(zs, n, name) ==
    IF ~HasNS(zs, n) THEN {}
    ELSE LET s == Sides(zs, n)
             pc == UNION {UNION {Compare("parent", "child", zs[p.z].ns, zs[c.z].ns, p, c, c.need) : c \in s.children} : p \in s.parents}
             pp == UNION {UNION {Compare("parent", "parent", zs[p.z].ns, zs[q.z].ns, p, q, TRUE)
                                 : q \in {q \in s.parents : p.z < q.z}} : p \in s.parents}
             cc == UNION {UNION {Compare("child", "child", zs[p.z].ns, zs[q.z].ns, p, q, TRUE)
                                 : q \in {q \in s.children : p.z < q.z}} : p \in s.children}
             all == pc \cup pp \cup cc
         IN  IF all = {} THEN {} ELSE {<<NameStr(name), all>>}
=============================================================================
