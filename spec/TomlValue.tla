------------------------------ MODULE TomlValue -----------------------------
(***************************************************************************)
(* Values.  A *written* value keeps all of the formatting of the document: *)
(*   [t, v]            int, flt, bool and the four kinds of string         *)
(*   [t = "dt", d]     a date or date-time                                 *)
(*   [t = "arr", open, items]  items: sequence of [v, post]                *)
(*   [t = "it",  open, items]  items: sequence of [k, eq, v, post]         *)
(* open is what's written after the opening bracket, eq what's between a   *)
(* key and its value, post what follows an item up to the next one or the  *)
(* closing bracket.                                                        *)
(* A *plain* value is what the API hands out: scalars are the same, arrays *)
(* are [t = "arr", a: sequence of values], inline tables                   *)
(* [t = "it", m: sequence of <<key, value>>].                              *)
(***************************************************************************)
EXTENDS TomlCalendar

Q3 == DQ \o DQ \o DQ
A3 == SQ \o SQ \o SQ

StrTypes    == {"bs", "mbs", "ls", "mls"}
ScalarTypes == {"int", "flt", "bool"} \cup StrTypes
IsNested(v) == v.t \in {"arr", "it"}
NoValue     == [t |-> "none"]

-----------------------------------------------------------------------------
\* Reading.  The result is [e, v]: the position after the value (0: there is
\* none) and the written value.

NoMatch == [e |-> 0, v |-> NoValue]
Scalar(s, i, e, t) == [e |-> e, v |-> [t |-> t, v |-> Piece(s, i, e)]]
Quoted(s, i, close, q, t) == [e |-> close + q, v |-> [t |-> t, v |-> Piece(s, i + q, close)]]

NumberOrDate(s, i) ==
  LET dt == DateTimeAt(s, i) IN
  IF dt.e > 0 THEN [e |-> dt.e, v |-> [t |-> "dt", d |-> dt.d]]
  ELSE LET f == Float(s, i) IN
       IF f > 0 THEN Scalar(s, i, f, "flt")
       ELSE LET n == Integer(s, i) IN IF n > 0 THEN Scalar(s, i, n, "int") ELSE NoMatch

BasicAt(s, i)   == LET c == BasicClose(s, i + 1) IN IF c = 0 THEN NoMatch ELSE Quoted(s, i, c, 1, "bs")
LiteralAt(s, i) == LET c == LiteralClose(s, i + 1) IN IF c = 0 THEN NoMatch ELSE Quoted(s, i, c, 1, "ls")
StringAt(s, i) ==
  IF At(s, i) = DQ
  THEN LET c == IF Starts3(s, i, DQ) THEN MLBasicClose(s, i + 3) ELSE 0
       IN IF c > 0 THEN Quoted(s, i, c, 3, "mbs") ELSE BasicAt(s, i)
  ELSE LET c == IF Starts3(s, i, SQ) THEN MLLiteralClose(s, i + 3) ELSE 0
       IN IF c > 0 THEN Quoted(s, i, c, 3, "mls") ELSE LiteralAt(s, i)

RECURSIVE ValueAt(_, _), ArrayItems(_, _, _), InlineItems(_, _, _)

ValueAt(s, i) ==
  LET c == At(s, i) IN
  CASE c = "[" ->
         LET o == Gap(s, i + 1)
             r == ArrayItems(s, o, <<>>)
         IN IF At(s, r.e) = "]"
            THEN [e |-> r.e + 1, v |-> [t |-> "arr", open |-> Piece(s, i + 1, o), items |-> r.items]]
            ELSE NoMatch
    [] c = "{" ->
         LET o == Ws(s, i + 1)
             r == InlineItems(s, o, <<>>)
         IN IF At(s, r.e) = "}"
            THEN [e |-> r.e + 1, v |-> [t |-> "it", open |-> Piece(s, i + 1, o), items |-> r.items]]
            ELSE NoMatch
    [] c \in DigitChars \cup Signs -> NumberOrDate(s, i)
    [] c \in {"t", "f"} -> LET e == Boolean(s, i) IN IF e = 0 THEN NoMatch ELSE Scalar(s, i, e, "bool")
    [] c \in {DQ, SQ} -> StringAt(s, i)
    [] OTHER -> NoMatch

\* Items are separated by commas; the last may be followed by one as well.
\* In arrays newlines may come before the comma, in inline tables they mayn't.
ArrayItems(s, i, acc) ==
  LET r == ValueAt(s, i) IN
  IF r.e = 0 THEN [e |-> i, items |-> acc]
  ELSE LET c == WsNl(s, r.e)
           comma == At(s, c) = ","
           g == IF comma THEN Gap(s, c + 1) ELSE Gap(s, r.e)
           acc2 == Append(acc, [v |-> r.v, post |-> Piece(s, r.e, g)])
       IN IF comma THEN ArrayItems(s, g, acc2) ELSE [e |-> g, items |-> acc2]

InlineItems(s, i, acc) ==
  LET k == Key(s, i)
      q == Ws(s, k)
      b == Ws(s, q + 1)
      r == IF k > 0 /\ At(s, q) = "=" THEN ValueAt(s, b) ELSE NoMatch
  IN IF r.e = 0 THEN [e |-> i, items |-> acc]
     ELSE LET c == Ws(s, r.e)
              comma == At(s, c) = ","
              g == IF comma THEN Gap(s, c + 1) ELSE Gap(s, r.e)
              acc2 == Append(acc, [k |-> Piece(s, i, k), eq |-> Piece(s, k, b), v |-> r.v, post |-> Piece(s, r.e, g)])
          IN IF comma THEN InlineItems(s, g, acc2) ELSE [e |-> g, items |-> acc2]

-----------------------------------------------------------------------------
\* Writing

ShowScalar(v) ==
  CASE v.t = "bs"  -> DQ \o v.v \o DQ
    [] v.t = "mbs" -> Q3 \o v.v \o Q3
    [] v.t = "ls"  -> SQ \o v.v \o SQ
    [] v.t = "mls" -> A3 \o v.v \o A3
    [] v.t = "dt"  -> ShowDateTime(v.d)
    [] OTHER       -> v.v

RECURSIVE Written(_), WrittenItems(_, _)
WrittenItems(items, n) ==
  IF n > Len(items) THEN ""
  ELSE LET x == items[n] IN
       (IF "k" \in DOMAIN x THEN x.k \o x.eq ELSE "") \o Written(x.v) \o x.post \o WrittenItems(items, n + 1)
Written(w) ==
  CASE w.t = "arr" -> "[" \o w.open \o WrittenItems(w.items, 1) \o "]"
    [] w.t = "it"  -> "{" \o w.open \o WrittenItems(w.items, 1) \o "}"
    [] OTHER       -> ShowScalar(w)

\* How a plain value displays by itself
RECURSIVE Show(_), ShowArr(_, _), ShowIt(_, _)
ShowArr(a, n) == IF n > Len(a) THEN "" ELSE (IF n > 1 THEN ", " ELSE "") \o Show(a[n]) \o ShowArr(a, n + 1)
ShowIt(m, n) == IF n > Len(m) THEN ""
                ELSE (IF n > 1 THEN ", " ELSE "") \o m[n][1] \o " = " \o Show(m[n][2]) \o ShowIt(m, n + 1)
Show(p) == CASE p.t = "arr" -> "[" \o ShowArr(p.a, 1) \o "]"
             [] p.t = "it"  -> "{" \o ShowIt(p.m, 1) \o "}"
             [] OTHER       -> ShowScalar(p)

-----------------------------------------------------------------------------
\* Between written and plain

RECURSIVE Plain(_)
Plain(w) == CASE w.t = "arr" -> [t |-> "arr", a |-> [n \in 1..Len(w.items) |-> Plain(w.items[n].v)]]
              [] w.t = "it"  -> [t |-> "it", m |-> [n \in 1..Len(w.items) |-> <<w.items[n].k, Plain(w.items[n].v)>>]]
              [] OTHER       -> w

\* A plain value written in the default formatting
RECURSIVE Default(_)
Default(p) ==
  CASE p.t = "arr" -> [t |-> "arr", open |-> "",
                       items |-> [n \in 1..Len(p.a) |-> [v |-> Default(p.a[n]), post |-> IF n < Len(p.a) THEN ", " ELSE ""]]]
    [] p.t = "it"  -> [t |-> "it", open |-> IF Len(p.m) = 0 THEN "  " ELSE " ",
                       items |-> [n \in 1..Len(p.m) |-> [k |-> p.m[n][1], eq |-> " = ", v |-> Default(p.m[n][2]),
                                                         post |-> IF n < Len(p.m) THEN ", " ELSE " "]]]
    [] OTHER       -> p

\* Same shape: only scalars differ
RECURSIVE SameShape(_, _)
SameShape(w, p) ==
  IF IsNested(w) \/ IsNested(p)
  THEN /\ w.t = p.t
       /\ IF w.t = "arr"
          THEN Len(w.items) = Len(p.a) /\ \A n \in 1..Len(p.a) : SameShape(w.items[n].v, p.a[n])
          ELSE Len(w.items) = Len(p.m) /\ \A n \in 1..Len(p.m) : w.items[n].k = p.m[n][1] /\ SameShape(w.items[n].v, p.m[n][2])
  ELSE TRUE

\* The formatting of w with the scalars of p
RECURSIVE Overwrite(_, _)
Overwrite(w, p) ==
  CASE w.t = "arr" -> [w EXCEPT !.items = [n \in 1..Len(p.a) |-> [w.items[n] EXCEPT !.v = Overwrite(w.items[n].v, p.a[n])]]]
    [] w.t = "it"  -> [w EXCEPT !.items = [n \in 1..Len(p.m) |-> [w.items[n] EXCEPT !.v = Overwrite(w.items[n].v, p.m[n][2])]]]
    [] OTHER       -> p

Assigned(w, p) == IF SameShape(w, p) THEN Overwrite(w, p) ELSE Default(p)

-----------------------------------------------------------------------------
\* Which plain values may be put into a document

Whole(s, e) == e = Size(s) + 1
ValidKey(k) == LET s == Txt(k) IN Whole(s, Key(s, 1))
\* (a string is valid if it can stand between its delimiters)
RECURSIVE Valid(_)
Valid(p) ==
  CASE p.t = "int"  -> LET s == Txt(p.v) IN Whole(s, Integer(s, 1))
    [] p.t = "flt"  -> LET s == Txt(p.v) IN Whole(s, Float(s, 1))
    [] p.t = "bool" -> p.v \in {"true", "false"}
    [] p.t = "dt"   -> ValidDateTime(p.d)
    [] p.t = "bs"   -> BasicClose(Txt(p.v \o DQ), 1) = Len(p.v) + 1
    [] p.t = "mbs"  -> MLBasicClose(Txt(p.v \o Q3), 1) = Len(p.v) + 1
    [] p.t = "ls"   -> LiteralClose(Txt(p.v \o SQ), 1) = Len(p.v) + 1
    [] p.t = "mls"  -> MLLiteralClose(Txt(p.v \o A3), 1) = Len(p.v) + 1
    [] p.t = "arr"  -> \A n \in 1..Len(p.a) : Valid(p.a[n])
    [] p.t = "it"   -> /\ \A n \in 1..Len(p.m) : ValidKey(p.m[n][1]) /\ Valid(p.m[n][2])
                       /\ \A m, n \in 1..Len(p.m) : p.m[m][1] = p.m[n][1] => m = n

-----------------------------------------------------------------------------
\* Addressing what's inside of a value.  The value at path p contains, if
\* it's an array, p[0], p[1], ...; if it's an inline table, p.key for each
\* of its keys (the first of equal ones).

Elem(p, n) == p \o "[" \o ToString(n) \o "]"
Sub(p, k)  == IF p = "" THEN k ELSE p \o "." \o k
SeqSum(f(_), n) == LET RECURSIVE go(_)
                       go(k) == IF k = 0 THEN <<>> ELSE go(k - 1) \o f(k)
                   IN go(n)
FirstKey(items, n) == \A j \in 1..(n - 1) : items[j].k # items[n].k

\* The sequence of <<path, written value, index path>> of a value and all it contains
RECURSIVE Places(_, _, _)
Places(p, w, ix) ==
  <<[p |-> p, w |-> w, ix |-> ix]>> \o
  (CASE w.t = "arr" -> LET f(n) == Places(Elem(p, n - 1), w.items[n].v, Append(ix, n)) IN SeqSum(f, Len(w.items))
     [] w.t = "it"  -> LET f(n) == IF FirstKey(w.items, n) THEN Places(Sub(p, w.items[n].k), w.items[n].v, Append(ix, n)) ELSE <<>>
                       IN SeqSum(f, Len(w.items))
     [] OTHER -> <<>>)

RECURSIVE PutAt(_, _, _)
PutAt(w, ix, new) == IF ix = <<>> THEN new
                     ELSE [w EXCEPT !.items = [w.items EXCEPT ![ix[1]] = [w.items[ix[1]] EXCEPT !.v = PutAt(w.items[ix[1]].v, Tail(ix), new)]]]

-----------------------------------------------------------------------------
\* What's reported about a value at path p

Class(w) == IF w.t \in StrTypes THEN "string" ELSE w.t
\* every value in it, the duplicate keys of inline tables as well
RECURSIVE Everywhere(_, _)
Everywhere(p, w) ==
  <<[p |-> p, w |-> w]>> \o
  (CASE w.t = "arr" -> LET f(n) == Everywhere(Elem(p, n - 1), w.items[n].v) IN SeqSum(f, Len(w.items))
     [] w.t = "it"  -> LET f(n) == Everywhere(Sub(p, w.items[n].k), w.items[n].v) IN SeqSum(f, Len(w.items))
     [] OTHER -> <<>>)
IsMixed(w) == w.t = "arr" /\ \E m, n \in 1..Len(w.items) : Class(w.items[m].v) # Class(w.items[n].v)
IsBadDate(w) == w.t = "dt" /\ ~ValidDateTime(w.d)
\* an array per mixed array, a date-time per impossible one
ContentErrors(p, w) ==
  LET all == Everywhere(p, w)
      f(n) == IF IsMixed(all[n].w) THEN <<[e |-> "mixed", k |-> all[n].p]>>
              ELSE IF IsBadDate(all[n].w) THEN <<[e |-> "dt", k |-> all[n].p, s |-> ShowDateTime(all[n].w.d)]>> ELSE <<>>
  IN SeqSum(f, Len(all))
\* a duplicate key per key of an inline table that came before
KeyErrors(p, w) ==
  LET all == Places(p, w, <<>>)
      f(n) == LET x == all[n].w
                  g(j) == IF FirstKey(x.items, j) THEN <<>>
                          ELSE <<[e |-> "dup", k |-> Sub(all[n].p, x.items[j].k), val |-> Plain(x.items[j].v)]>>
              IN IF x.t = "it" THEN SeqSum(g, Len(x.items)) ELSE <<>>
  IN SeqSum(f, Len(all))
=============================================================================
