------------------------------- MODULE Names -------------------------------
(***************************************************************************)
(* Domain names, record types and resource records as groot sees them.     *)
(* A name is the sequence of its labels from the root down, in lower case: *)
(* "www.example.com." is <<"com", "example", "www">>, the root is <<>>.    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

AllTypes == {"A", "NS", "CNAME", "DNAME", "SOA", "PTR", "MX", "TXT", "AAAA", "SRV", "RRSIG", "NSEC", "SPF"}
\* DS records are loaded but take no part in answers, label graph and queries
ParsedTypes == AllTypes \cup {"DS"}
AddressTypes == {"A", "AAAA"}

MaxLabel == 63
MaxName == 254      \* octets of all labels with their length octets, without the root label

------------------------------ (* strings *) ------------------------------
UpperLetters == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
LowerLetters == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
ToLower == [c \in {UpperLetters[i] : i \in 1..26} |-> LowerLetters[CHOOSE i \in 1..26 : UpperLetters[i] = c]]
ToUpper == [c \in {LowerLetters[i] : i \in 1..26} |-> UpperLetters[CHOOSE i \in 1..26 : LowerLetters[i] = c]]

Char(s, i) == SubSeq(s, i, i)

RECURSIVE FirstIn(_, _, _)
FirstIn(s, i, cs) == IF i > Len(s) THEN 0 ELSE IF Char(s, i) \in cs THEN i ELSE FirstIn(s, i + 1, cs)

RECURSIVE MapChars(_, _, _)
MapChars(s, i, m) ==    \* replaces the characters in DOMAIN m, from position i on
    LET j == FirstIn(s, i, DOMAIN m)
    IN  IF j = 0 THEN SubSeq(s, i, Len(s))
        ELSE SubSeq(s, i, j - 1) \o m[Char(s, j)] \o MapChars(s, j + 1, m)

Lower(s) == MapChars(s, 1, ToLower)
Upper(s) == MapChars(s, 1, ToUpper)

\* A backslash quotes the next character: whether the one at position i is quoted
RECURSIVE Quoted(_, _)
Quoted(s, i) == i > 1 /\ Char(s, i - 1) = "\\" /\ ~Quoted(s, i - 1)

EndsWithDot(s) == Len(s) > 0 /\ Char(s, Len(s)) = "." /\ ~Quoted(s, Len(s))

RECURSIVE JoinSp(_)
JoinSp(fs) == IF fs = <<>> THEN "" ELSE IF Len(fs) = 1 THEN fs[1] ELSE fs[1] \o " " \o JoinSp(Tail(fs))

Range(s) == {s[i] : i \in 1..Len(s)}

------------------------------- (* names *) -------------------------------
RECURSIVE SplitName(_, _, _)
SplitName(s, start, i) ==     \* labels of s (which ends in a dot) from position start on, leaf first
    IF i > Len(s) THEN <<>>
    ELSE IF Char(s, i) = "." /\ i > start /\ ~Quoted(s, i)
         THEN <<SubSeq(s, start, i - 1)>> \o SplitName(s, i + 1, i + 1)
         ELSE SplitName(s, start, i + 1)

Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

NameOf(s) ==
    IF s = "" THEN <<>>
    ELSE LET t == IF EndsWithDot(s) THEN s ELSE s \o "."
         IN  Reverse(SplitName(t, 1, 1))

RECURSIVE Dotted(_)
Dotted(n) == IF n = <<>> THEN "" ELSE n[Len(n)] \o "." \o Dotted(SubSeq(n, 1, Len(n) - 1))

NameStr(n) == IF n = <<>> THEN "." ELSE Dotted(n)

IsPrefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
\* b is at or below a
Under(a, b) == IsPrefix(a, b)
UnderAny(ds, b) == \E i \in 1..Len(ds) : Under(ds[i], b)
Prefixes(n) == {SubSeq(n, 1, i) : i \in 0..Len(n)}

\* \X and \DDD stand for one octet
Decimal == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
RECURSIVE LabelOctets(_, _)
LabelOctets(l, i) ==     \* from position i on
    LET j == FirstIn(l, i, {"\\"}) IN
    IF j = 0 THEN Len(l) - i + 1
    ELSE (j - i) + 1 + LabelOctets(l, IF j + 3 <= Len(l) /\ \A k \in 1..3 : Char(l, j + k) \in Decimal THEN j + 4 ELSE j + 2)

RECURSIVE Octets(_)
Octets(n) == IF n = <<>> THEN 0 ELSE LabelOctets(Head(n), 1) + 1 + Octets(Tail(n))

RECURSIVE LongLabel(_)
LongLabel(n) == IF n = <<>> THEN "" ELSE IF LabelOctets(Head(n), 1) > MaxLabel THEN Head(n) ELSE LongLabel(Tail(n))

\* "ok", "label" (some label too long) or "name" (all together too long)
LengthStatus(n) == IF LongLabel(n) # "" THEN "label" ELSE IF Octets(n) > MaxName THEN "name" ELSE "ok"

------------------------------ (* records *) ------------------------------
\* rr: [n: name, t: type, ttl: decimal digits, d: rdata, tn: the name in d (NS, CNAME, DNAME)]
NamedTypes == {"NS", "CNAME", "DNAME"}
Rec(n, t, ttl, d) == [n |-> n, t |-> t, ttl |-> ttl, d |-> d, tn |-> IF t \in NamedTypes THEN NameOf(d) ELSE <<>>]

\* Records are the same data whatever their TTLs
Key(r) == <<r.n, r.t, r.d>>
Keys(rs) == {Key(rs[i]) : i \in 1..Len(rs)}
RecStr(r) == NameStr(r.n) \o "   " \o r.t \o "   " \o r.d
KeyStr(k) == NameStr(k[1]) \o "   " \o k[2] \o "   " \o k[3]

\* The abstract record for comparisons with the implementation
RecView(r) == <<NameStr(r.n), r.t, r.ttl, r.d>>
RecViews(rs) == {RecView(rs[i]) : i \in 1..Len(rs)}

------------------------------ (* queries *) ------------------------------
\* q: [n: name, t: set of types, x: BOOLEAN]; x stands for the names below n that do not exist
QueryStr(q) == (IF q.x THEN "~{ }." ELSE "") \o NameStr(q.n)

------------------------------ (* order of strings *) ---------------------
\* As std::string orders them (ASCII)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Code == [c \in {Char(Ascii, i) : i \in 1..Len(Ascii)} |-> CHOOSE i \in 1..Len(Ascii) : Char(Ascii, i) = c]
CodeOf(c) == IF c \in DOMAIN Code THEN Code[c] ELSE 200      \* beyond ASCII
RECURSIVE Before(_, _, _)
Before(a, b, i) ==
    IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
    ELSE IF Char(a, i) = Char(b, i) THEN Before(a, b, i + 1)
    ELSE CodeOf(Char(a, i)) < CodeOf(Char(b, i))
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE x \in S : \A y \in S \ {x} : Before(x, y, 1) IN <<m>> \o Sorted(S \ {m})
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Concat(Tail(ss))
RECURSIVE JoinWith(_, _)
JoinWith(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o JoinWith(Tail(ss), sep)
TypesStr(ts) == JoinWith(SelectSeq(<<"A", "AAAA", "CNAME", "DNAME", "MX", "NS", "NSEC", "PTR", "RRSIG", "SOA", "SPF", "SRV", "TXT">>,
                                   LAMBDA t : t \in ts), " ")
=============================================================================
