------------------------------- MODULE MCZone -------------------------------
(***************************************************************************)
(* The zones that can be made from a small universe of records, and what   *)
(* has to hold in each of them: what a zone may contain, and that Lookup   *)
(* gives the answers of the standards.  RFC 1034 4.3.2, RFC 4592 and RFC   *)
(* 6672 are formulated here a second time, for one type and without        *)
(* walking: by the sets of existing names, of cuts and of DNAME owners.    *)
(***************************************************************************)
EXTENDS Zone

CONSTANTS MaxRecords,   \* accepted records besides the SOA record
          Wide          \* the larger universe

VARIABLES z,            \* the zone
          got,          \* the set of accepted records
          code          \* what became of the last record
vars == <<z, got, code>>

T == <<"t">>
N(ls) == T \o ls
Name == IF Wide THEN {N(<<>>), N(<<"a">>), N(<<"*">>), N(<<"a", "b">>), N(<<"a", "*">>), N(<<"b">>)}
        ELSE {N(<<>>), N(<<"a">>), N(<<"*">>), N(<<"a", "b">>), N(<<"a", "*">>)}
R(n, t, tn) == [n |-> n, t |-> t, ttl |-> "300", d |-> IF t \in NamedTypes THEN NameStr(tn) ELSE "x", tn |-> tn]
Universe ==
    {R(n, t, <<>>) : n \in Name, t \in {"A", "TXT"}}
    \cup {R(n, "CNAME", N(<<"a", "b">>)) : n \in Name}
    \cup {R(n, "DNAME", N(<<"b">>)) : n \in Name}
    \cup {R(n, "NS", N(<<"a", "b">>)) : n \in Name}
    \cup {R(N(<<"a">>), "NS", <<"u">>), R(N(<<"a">>), "CNAME", <<"u">>), R(N(<<"a">>), "NSEC", <<>>), R(<<"u">>, "A", <<>>)}
    \cup {[R(N(<<"a">>), "A", <<>>) EXCEPT !.ttl = "0"]}

Start0 == Insert(EmptyZone("ns.t."), R(T, "SOA", <<>>))

Init == z = Start0 /\ got = {R(T, "SOA", <<>>)} /\ code = "SUCCESS"

Add(r) ==
    /\ Cardinality(got) <= MaxRecords
    /\ code' = Admission(z, r)
    /\ IF code' = "SUCCESS" THEN z' = Insert(z, r) /\ got' = got \cup {r}
       ELSE UNCHANGED <<z, got>>
Next == \E r \in Universe : Add(r)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* What a zone contains, RFC 1034 3.6.2, RFC 6672 2.4, RFC 2181 5.2
Contains == AllRecords(z) = got
InZone == \A r \in got : Under(z.origin, r.n)
NoTwice == \A n \in DOMAIN z.at : Len(z.at[n]) = Cardinality(Range(z.at[n]))
At(n, t) == {r \in got : r.n = n /\ r.t = t}
CnameAlone ==
    \A r \in got : r.t = "CNAME" => \A s \in got : s.n = r.n => s = r \/ s.t \in Signing
OneDname == \A r \in got : r.t = "DNAME" => At(r.n, "DNAME") = {r}
NamesExist == DOMAIN z.at = {<<>>} \cup UNION {Prefixes(r.n) : r \in got}
\* Nothing is refused without a reason: one that is not SUCCESS has an accepted record it does not go with, or is foreign
Reasonable ==
    \A r \in Universe :
        Admission(z, r) = "SUCCESS" <=>
            /\ r \notin got /\ Under(T, r.n)
            /\ r.t = "CNAME" => \A s \in got : s.n = r.n => s.t \in Signing
            /\ r.t \notin Signing => At(r.n, "CNAME") = {}
            /\ r.t = "DNAME" => At(r.n, "DNAME") = {}

-----------------------------------------------------------------------------
\* The standards once more.  Answer to the question "type t of name n": <<kind, records>>
Exists(n) == \E r \in got : IsPrefix(n, r.n)
IsCut(n) == At(n, "NS") # {} /\ At(n, "SOA") = {}
Above(n) == Prefixes(n)
Stops(n) == {p \in Above(n) : IsCut(p) \/ (p # n /\ At(p, "DNAME") # {})}
Shortest(S) == CHOOSE p \in S : \A s \in S : Len(p) <= Len(s)
Longest(S) == CHOOSE p \in S : \A s \in S : Len(s) <= Len(p)
Addresses(n) == At(n, "A") \cup At(n, "AAAA")
NsAndGlue(n) == At(n, "NS") \cup UNION {Addresses(r.tn) : r \in At(n, "NS")}

FromNode(n, t) ==
    IF At(n, "CNAME") # {} THEN (IF t = "CNAME" THEN <<"ANS", At(n, "CNAME")>> ELSE <<"REWRITE", At(n, "CNAME")>>)
    ELSE <<"ANS", At(n, t)>>
Standard(n, t) ==
    IF At(n, "CNAME") # {} /\ {p \in Stops(n) : p # n} = {} THEN FromNode(n, t)
    ELSE IF Stops(n) # {}
    THEN LET p == Shortest(Stops(n)) IN
         IF IsCut(p) THEN <<"REF", NsAndGlue(p)>> ELSE <<"REWRITE", At(p, "DNAME")>>
    ELSE IF Exists(n)
    THEN IF t = "NS" THEN <<"ANS", NsAndGlue(n)>> ELSE FromNode(n, t)
    ELSE LET w == Append(Longest({p \in Above(n) : Exists(p)}), "*") IN
         IF Exists(w) THEN FromNode(w, t) ELSE <<"NX", {}>>

QueryTypes == {"A", "TXT", "CNAME", "NS", "DNAME", "NSEC"}
QueryNames ==
    LET L == {"a", "b", "*", "new"} IN {T} \cup {N(<<x>>) : x \in L} \cup {N(<<x, y>>) : x, y \in L} \cup {N(<<x, y, v>>) : x, y \in {"a", "b", "new"}, v \in L}
Q(n, ts, x) == [n |-> n, t |-> ts, x |-> x]

Single(n, t) ==
    LET as == Lookup(z, Q(n, {t}, FALSE)) IN
    /\ Len(as) = 1
    /\ <<as[1].tag, Range(as[1].rrs)>> = Standard(n, t)
LookupIsStandard == \A n \in QueryNames : \A t \in QueryTypes : Single(n, t)

\* Several types at once: as one by one, but that nothing follows an alias when only CNAME was asked
Asked == {{"A", "TXT"}, {"A", "NS"}, {"A", "CNAME"}, {"NS", "TXT", "NSEC"}, AllTypes}
PartOf(a, t) == {r \in Range(a.rrs) : IF t = "NS" THEN TRUE ELSE r.t = t}
Together(n, ts) ==
    LET as == Lookup(z, Q(n, ts, FALSE)) IN
    /\ as # <<>>
    /\ (as[1].tag = "ANS") => UNION {as[i].t : i \in 1..Len(as)} = ts /\ \A i, j \in 1..Len(as) : i # j => as[i].t \cap as[j].t = {}
    /\ (as[1].tag # "ANS") => Len(as) = 1
    /\ \A t \in ts \ {"CNAME"} :
          LET s == Standard(n, t) IN
          \E i \in 1..Len(as) :
             /\ as[i].tag = s[1]
             /\ (s[1] = "ANS") => t \in as[i].t /\ (IF t = "NS" THEN s[2] \subseteq Range(as[i].rrs) ELSE s[2] = {r \in Range(as[i].rrs) : r.t = t /\ (\E q \in s[2] : q.n = r.n)})
             /\ (s[1] # "ANS") => s[2] = Range(as[i].rrs)
    /\ \A i \in 1..Len(as) : Range(as[i].rrs) \subseteq got
TogetherAsAlone == \A n \in QueryNames : \A ts \in Asked : Together(n, ts)

\* The class of all names below n that do not exist: answered as any of them is
View(as) == {<<as[i].tag, as[i].t, Range(as[i].rrs)>> : i \in 1..Len(as)}
ClassIsFresh ==
    \A n \in QueryNames : \A ts \in {{"A"}, {"A", "CNAME", "NS"}} :
        /\ View(Lookup(z, Q(n, ts, TRUE))) = View(Lookup(z, Q(Append(n, "fresh"), ts, FALSE)))
        /\ View(Lookup(z, Q(n, ts, TRUE))) = View(Lookup(z, Q(n \o <<"fresh", "a">>, ts, FALSE)))

\* The order in which records came makes no difference
Turned == [z EXCEPT !.at = [n \in DOMAIN z.at |-> Reverse(z.at[n])]]
OrderOfRecords ==
    \A n \in QueryNames : \A ts \in {{"A", "NS", "TXT"}} : View(Lookup(z, Q(n, ts, FALSE))) = View(Lookup(Turned, Q(n, ts, FALSE)))

Symmetric == <<got>>       \* view: zones that differ in the order of records are looked at once
-----------------------------------------------------------------------------
\* Mistakes that have to be found
RECURSIVE VerdictOneWay(_, _, _)
VerdictOneWay(rs, i, r) ==
    IF i > Len(rs) THEN "SUCCESS"
    ELSE LET p == rs[i] IN
         IF p.t = r.t /\ p.ttl = r.ttl /\ p.d = r.d THEN "DUPLICATE"
         ELSE IF p.t = r.t /\ r.t = "CNAME" THEN "CNAME_MULTIPLE"
         ELSE IF p.t = r.t /\ r.t = "DNAME" THEN "DNAME_MULTIPLE"
         ELSE IF p.t # r.t /\ p.t = "CNAME" /\ r.t \notin Signing THEN "CNAME_OTHER"
         ELSE VerdictOneWay(rs, i + 1, r)

WildFromAbove(zone, e, q) ==
    LET S == {p \in Prefixes(e) : Append(p, "*") \in DOMAIN zone.at} IN
    IF S = {} THEN <<Ans("NX", q.t, <<>>)>>
    ELSE LET w == Append(Longest(S), "*") IN
         IF "CNAME" \in TypesAt(zone, w) THEN <<CnameAns(q, FirstOf(zone.at[w], "CNAME"))>> ELSE Matching(q, zone.at[w])

RECURSIVE WalkPastCuts(_, _, _)
WalkPastCuts(zone, qn, i) ==
    IF i = Len(qn) THEN i
    ELSE LET m == SubSeq(qn, 1, i + 1) IN
         IF m \notin DOMAIN zone.at THEN i
         ELSE IF "DNAME" \in TypesAt(zone, m) /\ i + 1 # Len(qn) THEN i + 1
         ELSE WalkPastCuts(zone, qn, i + 1)
=============================================================================
