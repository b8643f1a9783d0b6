------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* Reading a zone file (RFC 1035 section 5): the text is cut into tokens,  *)
(* tokens are collected into entries, and each entry is a control entry,   *)
(* a record or nothing.  The state of the reading of one file is a record  *)
(*   i      position of the next character                                 *)
(*   line   number of line ends read                                       *)
(*   paren  open parentheses                                               *)
(*   cur    fields of the entry begun (the first is "" without an owner)   *)
(*   suffix the current origin, "" when there is none                      *)
(*   owner  the last stated owner                                          *)
(*   ttl    the TTL of records that state none;  dollar: set by $TTL       *)
(*   soa    the file has an SOA record;  parsed: number of records read    *)
(*   zone, counts, lint: what the records led to                           *)
(*   status "run" | "stop" (the rest is not read) | "abort" | "end"        *)
(***************************************************************************)
EXTENDS Zone

NotWord == {" ", ";", "\t", "\r", "\n", "(", ")", "\""}
Blanks == {" ", "\t"}

RECURSIVE WordEnd(_, _)
WordEnd(s, i) ==
    IF i > Len(s) THEN i
    ELSE LET c == Char(s, i) IN
         IF c = "\\" THEN IF i < Len(s) /\ Char(s, i + 1) \notin {"\r", "\n"} THEN WordEnd(s, i + 2) ELSE i
         ELSE IF c \in NotWord THEN i ELSE WordEnd(s, i + 1)

RECURSIVE QuoteEnd(_, _)
QuoteEnd(s, i) ==      \* position of the quote that ends the text, 0 when there is none
    IF i > Len(s) THEN 0
    ELSE LET c == Char(s, i) IN
         IF c = "\"" THEN i ELSE IF c = "\\" THEN QuoteEnd(s, i + 2) ELSE QuoteEnd(s, i + 1)

RECURSIVE BlankEnd(_, _)
BlankEnd(s, i) == IF i <= Len(s) /\ Char(s, i) \in Blanks THEN BlankEnd(s, i + 1) ELSE i

RECURSIVE LineEnd(_, _)
LineEnd(s, i) == IF i <= Len(s) /\ Char(s, i) # "\n" THEN LineEnd(s, i + 1) ELSE i

\* [k: kind, e: position after it, v: the text of words]
Token(s, i) ==
    LET c == Char(s, i) IN
    CASE c = "\n" -> [k |-> "eol", e |-> i + 1, v |-> ""]
      [] c \in Blanks -> [k |-> "blank", e |-> BlankEnd(s, i), v |-> ""]
      [] c = ";" -> [k |-> "none", e |-> LineEnd(s, i), v |-> ""]
      [] c = "(" -> [k |-> "open", e |-> i + 1, v |-> ""]
      [] c = ")" -> [k |-> "close", e |-> i + 1, v |-> ""]
      [] c = "\r" -> [k |-> "none", e |-> i + 1, v |-> ""]
      [] c = "\"" -> LET q == QuoteEnd(s, i + 1) IN
                     IF q = 0 THEN [k |-> "none", e |-> i + 1, v |-> ""]
                     ELSE [k |-> "word", e |-> q + 1, v |-> SubSeq(s, i, q)]
      [] c = "\\" /\ WordEnd(s, i) = i -> [k |-> "none", e |-> i + 1, v |-> ""]
      [] OTHER -> LET e == WordEnd(s, i) IN [k |-> "word", e |-> e, v |-> SubSeq(s, i, e - 1)]

-------------------------------- (* entries *) -----------------------------
Absolute(name, origin) ==
    IF EndsWithDot(name) THEN name
    ELSE IF origin \in {"", "."} THEN name \o "."
    ELSE (IF name = "@" THEN "" ELSE name \o ".") \o (IF EndsWithDot(origin) THEN origin ELSE origin \o ".")

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
RECURSIVE Number(_)      \* without leading zeros
Number(s) == IF Len(s) > 1 /\ Char(s, 1) = "0" THEN Number(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE NotAbove(_, _, _)     \* digit strings of the same length, from position i on
NotAbove(a, b, i) == \/ i > Len(a)
                     \/ Code[Char(a, i)] < Code[Char(b, i)]
                     \/ (Char(a, i) = Char(b, i) /\ NotAbove(a, b, i + 1))
MaxTTL == "2147483647"   \* RFC 2181 section 8
IsTTL(s) == /\ s # "" /\ \A i \in 1..Len(s) : Char(s, i) \in Digits
            /\ LET n == Number(s) IN Len(n) < Len(MaxTTL) \/ (Len(n) = Len(MaxTTL) /\ NotAbove(n, MaxTTL, 1))

TypeIndex(cur) ==        \* the first field after the owner that names a type, 0 when there is none
    LET S == {i \in 2..Len(cur) : Len(cur[i]) < 6 /\ Upper(cur[i]) \in ParsedTypes}
    IN  IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

RECURSIVE Between(_, _, _, _)
\* the fields between owner and type: class and TTL in any order; [ok, ttl, stated]
Between(cur, i, ti, acc) ==
    IF i = ti THEN acc
    ELSE IF Upper(cur[i]) \in {"IN", "CH"} THEN Between(cur, i + 1, ti, acc)
    ELSE IF IsTTL(cur[i]) THEN Between(cur, i + 1, ti, [acc EXCEPT !.ttl = Number(cur[i]), !.stated = TRUE])
    ELSE [acc EXCEPT !.ok = FALSE]

\* the TTL that an entry of whatever type states: before the first field that is neither class nor TTL
Stated(cur, ttl) == Between(cur, 2, Len(cur) + 1, [ok |-> TRUE, ttl |-> ttl, stated |-> FALSE])

LastBlank(s) == LET S == {i \in 1..Len(s) : Char(s, i) = " "} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i

\* the types whose data is, or ends with, a name that may be relative
EndsWithName == {"NS", "CNAME", "DNAME", "MX", "PTR", "SRV"}
Blank(s, from) == FirstIn(s, from, {" "})
AbsoluteData(t, d, suffix) ==
    IF t \in EndsWithName
    THEN LET b == LastBlank(d) IN SubSeq(d, 1, b) \o Absolute(SubSeq(d, b + 1, Len(d)), suffix)
    ELSE IF t = "SOA"         \* starts with two names
    THEN LET a == Blank(d, 1)
             b == IF a = 0 THEN 0 ELSE Blank(d, a + 1)
         IN  IF b = 0 THEN d
             ELSE Absolute(SubSeq(d, 1, a - 1), suffix) \o " " \o Absolute(SubSeq(d, a + 1, b - 1), suffix) \o SubSeq(d, b, Len(d))
    ELSE d

Count(counts, key) == IF key \in DOMAIN counts THEN [counts EXCEPT ![key] = @ + 1] ELSE counts @@ (key :> 1)

\* A record that has been read meets its zone.  prev: the record shown as the one in the way
Issue(p, r, text, prev) == <<"RR", ToString(p.line), RecStr(r), text, prev>>

Admit(p, r) ==
    LET verdict == Admission(p.zone, r)
        first == IF RRs(p.zone, r.n) = <<>> THEN "" ELSE RecStr(RRs(p.zone, r.n)[1])
        Refuse(key, text, prev) == [p EXCEPT !.counts = Count(@, key), !.lint = Append(@, Issue(p, r, text, prev))]
    IN  CASE verdict = "LABEL" -> Refuse("Label Length Exceeded", LongLabel(r.n) \o " - length exceedes max length (63)", "")
          [] verdict = "NAME" -> Refuse("Domain Length Exceeded", "Domain length exceedes max length (255)", "")
          [] verdict = "TLABEL" -> Refuse("Label Length Exceeded", LongLabel(r.tn) \o " - length exceedes 63", "")
          [] verdict = "TNAME" -> Refuse("Domain Length Exceeded", "Target domain length exceedes max length (255)", "")
          [] verdict = "NOSOA" -> [p EXCEPT !.status = "abort"]
          [] verdict = "OUT" -> Refuse("Out-of-Zone-Records", "OUT OF ZONE RECORD", "")
          [] verdict = "DUPLICATE" -> Refuse("Duplicate-Records", "Duplicate Record", "")
          [] verdict = "CNAME_MULTIPLE" -> Refuse("CNAME/DNAME Errors", "MULTIPLE CNAMEs", first)
          [] verdict = "DNAME_MULTIPLE" -> Refuse("CNAME/DNAME Errors", "MULTIPLE DNAMEs", first)
          [] verdict = "CNAME_OTHER" -> Refuse("CNAME/DNAME Errors", "CNAME AND OTHER TYPES", first)
          [] OTHER -> LET c == Count(p.counts, r.t)
                          wild == r.n # <<>> /\ r.n[Len(r.n)] = "*"
                      IN  [p EXCEPT !.zone = Insert(@, r), !.counts = IF wild THEN Count(c, "Wildcard") ELSE c]

\* the entry in p.cur is complete
Entry(p0) ==
    LET cur0 == p0.cur
        p == [p0 EXCEPT !.cur = <<>>]
    IN
    IF Upper(cur0[1]) \in {"$ORIGIN", "$TTL"} /\ Len(cur0) = 1 THEN p
    ELSE IF Upper(cur0[1]) = "$ORIGIN" THEN [p EXCEPT !.suffix = Lower(Absolute(cur0[2], p.suffix))]
    ELSE IF Upper(cur0[1]) = "$INCLUDE" THEN [p EXCEPT !.status = "stop"]
    ELSE IF Upper(cur0[1]) = "$TTL" THEN IF IsTTL(cur0[2]) THEN [p EXCEPT !.ttl = Number(cur0[2]), !.dollar = TRUE] ELSE p
    ELSE IF cur0[1] = "@" /\ p.suffix = "" THEN [p EXCEPT !.status = "stop"]
    ELSE
    LET cur == IF cur0[1] = "@" THEN [cur0 EXCEPT ![1] = p.suffix] ELSE cur0
        p1 == IF cur[1] # "" THEN [p EXCEPT !.owner = NameOf(Absolute(cur[1], p.suffix))] ELSE p
        p2 == IF p1.dollar THEN p1 ELSE [p1 EXCEPT !.ttl = Stated(cur, @).ttl]
        ti == TypeIndex(cur)
    IN
    IF ti = 0 \/ ti > 4 \/ ti = Len(cur) THEN p2
    ELSE
    LET type == Upper(cur[ti])
        bt == Between(cur, 2, ti, [ok |-> TRUE, ttl |-> p2.ttl, stated |-> FALSE])
    IN
    IF ~bt.ok THEN p2
    ELSE
    LET p3 == IF type = "SOA" /\ cur[1] # ""
              THEN [p2 EXCEPT !.soa = TRUE, !.suffix = IF @ = "" THEN cur[1] ELSE @]
              ELSE p2
        name == IF cur[1] = "" THEN NameStr(p3.owner) ELSE Absolute(cur[1], p3.suffix)
        data == AbsoluteData(type, JoinSp(SubSeq(cur, ti + 1, Len(cur))), p3.suffix)
        r == Rec(NameOf(Lower(name)), type, bt.ttl, Lower(data))
    IN  Admit([p3 EXCEPT !.parsed = @ + 1], r)

Start(ns, origin) ==
    [i |-> 1, line |-> 0, paren |-> 0, cur |-> <<>>,
     suffix |-> IF origin = "" THEN "" ELSE Absolute(Lower(origin), ""),
     owner |-> <<>>, ttl |-> "0", dollar |-> FALSE, soa |-> FALSE, parsed |-> 0,
     zone |-> EmptyZone(ns), counts |-> <<>>, lint |-> <<>>, status |-> "run"]

\* A last line without a line end counts like one with it
Complete(text) == IF text # "" /\ Char(text, Len(text)) # "\n" THEN text \o "\n" ELSE text

RECURSIVE ReadEntry(_, _)
ReadEntry(p, s) ==      \* reads up to and including the end of the next entry
    IF p.i > Len(s) THEN [p EXCEPT !.status = "end"]
    ELSE LET t == Token(s, p.i)
             q == [p EXCEPT !.i = t.e]
         IN  CASE t.k = "word" -> ReadEntry([q EXCEPT !.cur = Append(@, t.v)], s)
               [] t.k = "blank" -> ReadEntry(IF q.cur = <<>> THEN [q EXCEPT !.cur = <<"">>] ELSE q, s)
               [] t.k = "open" -> ReadEntry([q EXCEPT !.paren = @ + 1], s)
               [] t.k = "close" -> IF q.paren = 0 THEN [q EXCEPT !.status = "stop"]
                                   ELSE ReadEntry([q EXCEPT !.paren = @ - 1], s)
               [] t.k = "eol" -> LET e == [q EXCEPT !.line = @ + 1] IN
                                 IF e.paren = 0 /\ e.cur # <<>> THEN Entry(e) ELSE ReadEntry(e, s)
               [] OTHER -> ReadEntry(q, s)
=============================================================================
