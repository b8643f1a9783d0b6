-------------------------------- MODULE Zone --------------------------------
(***************************************************************************)
(* A zone: which records it admits, and how it answers a query.            *)
(* z: [ns, origin, soa: BOOLEAN, at: name -> sequence of records]          *)
(* DOMAIN z.at is the set of existing names (owners and their ancestors).  *)
(***************************************************************************)
EXTENDS Names

EmptyZone(ns) == [ns |-> ns, origin |-> <<>>, soa |-> FALSE, at |-> (<<>> :> <<>>)]

------------------------------ (* admission *) ------------------------------
Signing == {"RRSIG", "NSEC"}     \* the types that may stand next to a CNAME

\* The first present record of the owner that decides about r decides: the code of the refusal and the record that is
\* shown with it.
RECURSIVE Verdict(_, _, _)
Verdict(rs, i, r) ==
    IF i > Len(rs) THEN "SUCCESS"
    ELSE LET p == rs[i] IN
         IF p.t = r.t /\ p.ttl = r.ttl /\ p.d = r.d THEN "DUPLICATE"
         ELSE IF p.t = r.t /\ r.t = "CNAME" THEN "CNAME_MULTIPLE"
         ELSE IF p.t = r.t /\ r.t = "DNAME" THEN "DNAME_MULTIPLE"
         ELSE IF p.t # r.t /\ p.t = "CNAME" /\ r.t \notin Signing THEN "CNAME_OTHER"
         ELSE IF p.t # r.t /\ r.t = "CNAME" /\ p.t \notin Signing THEN "CNAME_OTHER"
         ELSE Verdict(rs, i + 1, r)

RRs(z, n) == IF n \in DOMAIN z.at THEN z.at[n] ELSE <<>>

\* "LABEL" | "NAME" | "TLABEL" | "TNAME" | "NOSOA" | "OUT" | "DUPLICATE" | "CNAME_MULTIPLE" | "DNAME_MULTIPLE"
\* | "CNAME_OTHER" | "SUCCESS"
Admission(z, r) ==
    LET own == LengthStatus(r.n)
        tgt == IF r.t \in NamedTypes THEN LengthStatus(r.tn) ELSE "ok"
    IN  IF own = "label" THEN "LABEL"
        ELSE IF own = "name" THEN "NAME"
        ELSE IF tgt = "label" THEN "TLABEL"
        ELSE IF tgt = "name" THEN "TNAME"
        ELSE IF ~z.soa /\ r.t # "SOA" THEN "NOSOA"
        ELSE IF z.soa /\ ~Under(z.origin, r.n) THEN "OUT"
        ELSE Verdict(RRs(z, r.n), 1, r)

Insert(z, r) ==
    LET new == Prefixes(r.n) \ DOMAIN z.at
        at1 == IF new = {} THEN z.at ELSE z.at @@ [p \in new |-> <<>>]
        at2 == [at1 EXCEPT ![r.n] = Append(@, r)]
    IN  [z EXCEPT !.at = at2,
                  !.soa = z.soa \/ r.t = "SOA",
                  !.origin = IF r.t = "SOA" THEN r.n ELSE @]

AllRecords(z) == UNION {Range(z.at[n]) : n \in DOMAIN z.at}

-------------------------------- (* look-up *) ------------------------------
TypesAt(z, n) == {z.at[n][i].t : i \in 1..Len(z.at[n])} \ {"DS"}

OfTypes(rs, ts) == SelectSeq(rs, LAMBDA r : r.t \in ts)

RECURSIVE WithGlue(_, _)
WithGlue(z, nss) ==    \* every NS record followed by the addresses the zone has for its server
    IF nss = <<>> THEN <<>>
    ELSE <<Head(nss)>> \o OfTypes(RRs(z, Head(nss).tn), AddressTypes) \o WithGlue(z, Tail(nss))

RECURSIVE Walk(_, _, _)
Walk(z, qn, i) ==     \* number of labels down to the node where the search ends
    IF i = Len(qn) THEN i
    ELSE LET m == SubSeq(qn, 1, i + 1) IN
         IF m \notin DOMAIN z.at THEN i
         ELSE LET ts == TypesAt(z, m) IN
              IF "NS" \in ts /\ "SOA" \notin ts THEN i + 1
              ELSE IF "DNAME" \in ts /\ i + 1 # Len(qn) THEN i + 1
              ELSE Walk(z, qn, i + 1)

Ans(tag, ts, rs) == [tag |-> tag, t |-> ts, rrs |-> rs]

CnameAns(q, r) == IF q.t = {"CNAME"} THEN Ans("ANS", {"CNAME"}, <<r>>) ELSE Ans("REWRITE", {"CNAME"}, <<r>>)

\* The answer made from the records rs for the types asked, then the empty answer for the types that are missing
Matching(q, rs) ==
    LET found == {rs[i].t : i \in 1..Len(rs)} \cap q.t
        mine == OfTypes(rs, q.t)
    IN  (IF found # {} THEN <<Ans("ANS", found, mine)>> ELSE <<>>)
        \o (IF q.t \ found # {} THEN <<Ans("ANS", q.t \ found, <<>>)>> ELSE <<>>)

FirstOf(rs, t) == OfTypes(rs, {t})[1]

WildOrNX(z, e, q) ==
    LET w == Append(e, "*") IN
    IF w \notin DOMAIN z.at THEN <<Ans("NX", q.t, <<>>)>>
    ELSE IF "CNAME" \in TypesAt(z, w) THEN <<CnameAns(q, FirstOf(z.at[w], "CNAME"))>>
    ELSE Matching(q, z.at[w])

Lookup(z, q) ==
    LET i == Walk(z, q.n, 0)
        e == SubSeq(q.n, 1, i)
        ts == TypesAt(z, e)
        rs == z.at[e]
        nss == OfTypes(rs, {"NS"})
    IN  IF i # Len(q.n) \/ q.x
        THEN IF "NS" \in ts /\ "SOA" \notin ts THEN <<Ans("REF", ts, WithGlue(z, nss))>>
             ELSE IF "DNAME" \in ts THEN <<Ans("REWRITE", ts, <<FirstOf(rs, "DNAME")>>)>>
             ELSE WildOrNX(z, e, q)
        ELSE IF "CNAME" \in ts THEN <<CnameAns(q, FirstOf(rs, "CNAME"))>>
             ELSE IF "NS" \in ts /\ "SOA" \notin ts THEN <<Ans("REF", ts, WithGlue(z, nss))>>
             ELSE LET own == SelectSeq(rs, LAMBDA r : r.t \in q.t /\ r.t # "NS")
                      all == own \o (IF "NS" \in q.t THEN WithGlue(z, nss) ELSE <<>>)
                      found == q.t \cap ts
                  IN  (IF found # {} THEN <<Ans("ANS", found, all)>> ELSE <<>>)
                      \o (IF q.t \ found # {} THEN <<Ans("ANS", q.t \ found, <<>>)>> ELSE <<>>)

------------------------------- (* lint, glue *) ----------------------------
\* NS records whose server lies inside the zone but has no address there
MissingGlue(z) ==
    {r \in AllRecords(z) : r.t = "NS" /\ Under(z.origin, r.tn) /\ OfTypes(RRs(z, r.tn), AddressTypes) = <<>>}
=============================================================================
