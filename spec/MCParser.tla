------------------------------ MODULE MCParser ------------------------------
(***************************************************************************)
(* However records are written down (RFC 1035 section 5: relative and      *)
(* absolute names, "@", repeated owners, $ORIGIN, $TTL, inherited TTLs,    *)
(* class or none, parentheses, comments, blank lines, CRLF, upper case,    *)
(* tabs), reading gives the records that were written.  A writer makes the *)
(* text entry by entry in every style; the reader is that of Parser.tla.   *)
(***************************************************************************)
EXTENDS Parser, Json

CONSTANTS MaxEntries,     \* entries after the SOA record
          Full            \* all combinations of styles

VARIABLES text, written,              \* the text and the records in it
          origin, dflt, dollar, last, \* in force for the next entry: origin, TTL ("" for none), set by $TTL, owner
          left
vars == <<text, written, origin, dflt, dollar, last, left>>

T == <<"t">>
U == <<"u">>
A == <<"t", "a">>
AB == <<"t", "a", "b">>
W == <<"t", "a", "*">>

Soa == Rec(T, "SOA", "500", "ns.t. adm.t. 1 2 3 4 5")
Records == {Rec(T, "NS", "300", "a.t."), Rec(A, "A", "300", "1.2.3.4"), Rec(A, "A", "500", "1.2.3.5"), Rec(AB, "CNAME", "500", "t."),
            Rec(W, "MX", "300", "10 b.a.t."), Rec(<<"t", "c">>, "DNAME", "0", "x.u."), Rec(T, "TXT", "500", "\"a ; ( b\""), Rec(<<"t", "a", "\\.\\\\">>, "TXT", "300", "a\\;b \\( \\)\\\\"),
            Rec(W, "AAAA", "500", "1::a"), Rec(A, "PTR", "500", "x.t."), Rec(A, "SRV", "300", "0 5 80 b.a.t."), Rec(A, "DS", "300", "1 2 3 ab")}

\* n as it may be written when the origin is o (a name; "" is none)
RECURSIVE Relative(_)
Relative(ls) == IF Len(ls) = 1 THEN ls[1] ELSE ls[Len(ls)] \o "." \o Relative(SubSeq(ls, 1, Len(ls) - 1))
Names(n) ==
    {NameStr(n)}
    \cup (IF origin # "" /\ Len(n) > Len(NameOf(origin)) /\ IsPrefix(NameOf(origin), n)
          THEN {Relative(SubSeq(n, Len(NameOf(origin)) + 1, Len(n)))} ELSE {})
    \cup (IF origin # "" /\ NameOf(origin) = n THEN {"@"} ELSE {})
Owners(n) == Names(n) \cup (IF last = n THEN {""} ELSE {})

\* the data of a record with the name at its end in every form
Datas(r) ==
    IF r.t \in NamedTypes THEN Names(r.tn)
    ELSE IF r.t = "PTR" THEN Names(NameOf(r.d))
    ELSE IF r.t = "SRV" THEN {"0 5 80 " \o x : x \in Names(NameOf("b.a.t."))}
    ELSE IF r.t = "MX" THEN {"10 " \o x : x \in Names(NameOf("b.a.t."))}
    ELSE {r.d}

Ttls(r) == {<<r.ttl, "IN">>, <<r.ttl, "">>, <<"IN", r.ttl>>} \cup (IF dflt = r.ttl THEN {<<"", "">>, <<"", "IN">>} ELSE {})

Field(f, sep) == IF f = "" THEN "" ELSE sep \o f
LayoutsFew == {"plain", "tabs", "parens", "note"}
Layouts == LayoutsFew \cup {"crlf", "upper", "wide", "blanks"}
Line(o, tc, t, d, lay) ==
    LET s == IF lay = "tabs" THEN "\t" ELSE IF lay = "wide" THEN "  \t " ELSE " "
        head == o \o Field(tc[1], s) \o Field(tc[2], s) \o s \o t
    IN  CASE lay = "parens" -> head \o " ( ; here\n   " \o d \o "\n\n )\n"
          [] lay = "note" -> head \o s \o d \o " ; a \"note ( A 1.1.1.1\n"
          [] lay = "crlf" -> head \o s \o d \o "\r\n"
          [] lay = "upper" -> Upper(head) \o s \o (IF t = "TXT" THEN d ELSE Upper(d)) \o "\n"
          [] lay = "blanks" -> "\n ; nothing\n" \o head \o s \o d \o s \o "\n\n"
          [] OTHER -> head \o s \o d \o "\n"

Init ==
    /\ text = "" /\ written = <<>> /\ origin = "" /\ dflt = "" /\ dollar = FALSE /\ last = <<>> /\ left = MaxEntries

Write(r, o, tc, d, lay) ==
    /\ text' = text \o Line(o, tc, r.t, d, lay)
    /\ written' = Append(written, r)
    /\ dflt' = IF ~dollar /\ r.ttl \in Range(tc) THEN r.ttl ELSE dflt
    /\ last' = r.n
    /\ UNCHANGED dollar

First ==                       \* the SOA record gives the origin where none is stated
    /\ written = <<>>
    /\ \E o \in Owners(T), tc \in Ttls(Soa), lay \in {"plain", "parens"} :
          Write(Soa, o, tc, Soa.d, lay) /\ origin' = (IF origin = "" THEN "t." ELSE origin)
    /\ UNCHANGED left

Entry1 ==
    /\ written # <<>> /\ left > 0
    /\ \E r \in Records \ Range(written) :
       \E o \in Owners(r.n), tc \in Ttls(r), d \in Datas(r), lay \in (IF Full THEN Layouts ELSE LayoutsFew) :
          Write(r, o, tc, d, lay)
    /\ left' = left - 1
    /\ UNCHANGED origin

\* An entry that is no record of a supported type: its owner and the TTL before its type are stated ones nevertheless
NoRecords == {"CAA 0 issue \"a\"", "A", "HS A 1.2.3.4", "TYPE99 A", "-1 A 1.2.3.4", "2147483648 A 1.2.3.4", "5h A 1.2.3.4"}
Pass(o, n, tc, x) ==
    /\ text' = text \o o \o Field(tc[1], " ") \o Field(tc[2], " ") \o " " \o x \o "\n"
    /\ dflt' = IF ~dollar /\ "300" \in Range(tc) THEN "300" ELSE dflt
    /\ last' = n
    /\ UNCHANGED <<written, origin, dollar>>
SkipTtls == {<<"300", "IN">>, <<"IN", "300">>, <<"300", "">>, <<"IN", "">>}
Skipped == /\ written # <<>> /\ left > 0 /\ left' = left - 1
           /\ \E n \in {A, W} : \E o \in Owners(n), tc \in SkipTtls, x \in NoRecords : Pass(o, n, tc, x)

SetOriginTo(n) ==
    /\ \E x \in Names(n) \ {"@"}, c \in {"$ORIGIN ", "$Origin "} : text' = text \o c \o x \o "\n"
    /\ origin' = NameStr(n)
    /\ UNCHANGED <<written, dflt, dollar, last>>
SetOrigin == \E n \in {T, A, U} : origin # NameStr(n) /\ SetOriginTo(n)
SetTtlTo(t) ==
    /\ text' = text \o (IF dollar THEN "$ttl " ELSE "$TTL ") \o (IF t = "300" THEN "0300" ELSE t) \o "\n"
    /\ dflt' = t /\ dollar' = TRUE
    /\ UNCHANGED <<written, origin, last>>
SetTtl == \E t \in {"300", "500"} : (~dollar \/ dflt # t) /\ SetTtlTo(t)
Control == /\ left > 0 /\ (SetOrigin \/ SetTtl) /\ left' = left - 1

Next == First \/ Entry1 \/ Control \/ Skipped
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
RECURSIVE ReadAll(_, _)
ReadAll(p, s) == IF p.status # "run" THEN p ELSE ReadAll(ReadEntry(p, s), s)
Got(s) == ReadAll(Start("ns.t.", ""), s)

CountOf(p, key) == IF key \in DOMAIN p.counts THEN p.counts[key] ELSE 0
RoundTrip ==
    LET p == Got(text) IN
    /\ p.status = "end"
    /\ AllRecords(p.zone) = Range(written)
    /\ p.parsed = Len(written)
    /\ p.lint = <<>>
    /\ \A t \in ParsedTypes : CountOf(p, t) = Cardinality({r \in Range(written) : r.t = t})
    /\ (written # <<>>) => p.zone.origin = T /\ Lower(NameStr(p.owner)) = NameStr(last)
    /\ p.line = Cardinality({i \in 1..Len(text) : Char(text, i) = "\n"})

\* A record that comes again is refused and nothing else changes
Again ==
    written # <<>> =>
        LET r == written[Len(written)]
            p == Got(text)
            q == Got(text \o NameStr(r.n) \o " " \o r.ttl \o " IN " \o r.t \o " " \o r.d \o "\n")
        IN  q.zone = p.zone /\ Len(q.lint) = 1 /\ q.parsed = p.parsed + 1

\* What is left out of the last line is only the line end
NoLastLineEnd ==
    (text # "" /\ Len(text) > 1 /\ Char(text, Len(text) - 1) \notin {"\n", "\r"}) =>
        Got(Complete(SubSeq(text, 1, Len(text) - 1))) = Got(text)
-----------------------------------------------------------------------------
\* One way of going on at random
Some(S) == {RandomElement(S)}
RandomEntry ==
    \E r \in Some(IF written = <<>> THEN {Soa} ELSE Records \ Range(written)) :
    \E o \in Some(Owners(r.n)), tc \in Some(Ttls(r)), d \in Some(Datas(r)), lay \in Some(Layouts) :
       /\ Write(r, o, tc, d, lay)
       /\ origin' = (IF r = Soa /\ origin = "" THEN "t." ELSE origin)
RandomNext ==
    /\ left > 0 /\ left' = left - 1
    /\ \E c \in Some(1..8) :
          IF c = 1 THEN SetOriginTo(CHOOSE n \in Some({T, A, U}) : TRUE)
          ELSE IF c = 2 THEN SetTtlTo(CHOOSE t \in Some({"300", "500"}) : TRUE)
          ELSE IF c = 3 /\ written # <<>>
          THEN \E n \in Some({A, W}) : \E o \in Some(Owners(n)), tc \in Some(SkipTtls), x \in Some(NoRecords) : Pass(o, n, tc, x)
          ELSE RandomEntry
RandomSpec == Init /\ [][RandomNext]_vars

\* texts for groot: shown when nothing is left to write
ShowAtEnd == left = 0 => PrintT("## " \o ToJson(<<text>>))

\* Mistakes that have to be found
NothingStated(cur, ttl) == [ok |-> TRUE, ttl |-> ttl, stated |-> FALSE]
AbsoluteToRoot(name, o) == IF EndsWithDot(name) THEN name ELSE name \o "."
=============================================================================
