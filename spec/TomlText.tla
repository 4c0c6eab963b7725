------------------------------ MODULE TomlText ------------------------------
(***************************************************************************)
(* Characters and the lexical grammar of a TOML document as tomllib reads  *)
(* it.  Positions in a text count from 1.  Every recognizer      *)
(* takes a text and a position and yields the position after what it       *)
(* recognized, or 0 if there is no such thing there.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Json, SequencesExt, TLC

Tab == "\t"
LF  == "\n"
CR  == "\r"
DQ  == "\""
SQ  == "'"
BS  == "\\"

\* U+0000 .. U+001F; kept in a data file since TLA+ has no escapes for them
Controls == ToSet(JsonDeserialize("controls.json"))

DigitChars == {"0","1","2","3","4","5","6","7","8","9"}
NonZero    == DigitChars \ {"0"}
HexChars   == DigitChars \cup {"a","b","c","d","e","f","A","B","C","D","E","F"}
LowerChars == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
UpperChars == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
BareChars  == DigitChars \cup LowerChars \cup UpperChars \cup {"-", "_"}
Signs      == {"+", "-"}

\* A text is kept with its characters, [str, ch]: a string, and the sequence of its characters
Txt(str) == [str |-> str, ch |-> TLCEval([n \in 1..Len(str) |-> SubSeq(str, n, n)])]
Size(s)        == Len(s.ch)
At(s, i)       == IF i >= 1 /\ i <= Size(s) THEN s.ch[i] ELSE ""          \* "" past the end
Piece(s, i, j) == IF i >= j THEN "" ELSE SubSeq(s.str, i, j - 1)          \* s[i..j)
Rest(s, i)     == Piece(s, i, Size(s) + 1)
Starts2(s, i, c1, c2) == At(s, i) = c1 /\ At(s, i + 1) = c2
Starts3(s, i, c) == At(s, i) = c /\ At(s, i + 1) = c /\ At(s, i + 2) = c
StartsWith(s, i, p) == i + Len(p) <= Size(s) + 1 /\ Piece(s, i, i + Len(p)) = p
HasPrefix(str, p) == Len(p) <= Len(str) /\ SubSeq(str, 1, Len(p)) = p
AtEnd(s, i)    == i > Size(s)
IsDigit(s, i)  == At(s, i) \in DigitChars
\* The first position from i on whose character isn't in set (or is: Until)
Span(s, i, set)  == IF AtEnd(s, i) THEN i ELSE CHOOSE j \in i..(Size(s) + 1) : At(s, j) \notin set /\ \A k \in i..(j - 1) : At(s, k) \in set
Until(s, i, set) == IF AtEnd(s, i) THEN i ELSE CHOOSE j \in i..(Size(s) + 1) : (AtEnd(s, j) \/ At(s, j) \in set) /\ \A k \in i..(j - 1) : At(s, k) \notin set

CountLF(s, i, j) == Cardinality({k \in i..(j - 1) : At(s, k) = LF})

Blanks == {" ", Tab}
Odd    == Controls \ {Tab}        \* what only occurs in newlines, if at all

\* A newline is LF or CR LF; a CR by itself is nothing
Newline(s, i) == IF At(s, i) = LF THEN i + 1
                 ELSE IF Starts2(s, i, CR, LF) THEN i + 2 ELSE 0

Ws(s, i) == Span(s, i, Blanks)              \* blanks and tabs, possibly none

CommentBody(s, i) == Until(s, i, Odd)
Comment(s, i) == IF At(s, i) = "#" THEN CommentBody(s, i + 1) ELSE 0
WsComment(s, i) == LET w == Ws(s, i)
                       c == Comment(s, w)
                   IN  IF c = 0 THEN w ELSE c

\* What may stand between the items of an array: blanks, newlines, comments
RECURSIVE Gap(_, _)
Gap(s, i) == LET w == Span(s, i, {" ", Tab, LF})
             IN IF Newline(s, w) > 0 THEN Gap(s, Newline(s, w))
                ELSE IF At(s, w) = "#" THEN Gap(s, Comment(s, w))
                ELSE w
\* ... and before the comma: blanks and newlines
RECURSIVE WsNl(_, _)
WsNl(s, i) == LET w == Span(s, i, {" ", Tab, LF})
              IN IF Newline(s, w) > 0 THEN WsNl(s, Newline(s, w)) ELSE w

-----------------------------------------------------------------------------
\* Strings and keys.  i is where the contents begin; the result is the
\* position of the closing quote, or 0.

Escape(s, i) ==        \* position after the escape that begins at i, or 0
  LET c == At(s, i + 1)
      hex(n) == \A k \in 1..n : At(s, i + 1 + k) \in HexChars
  IN  CASE c \in {"b", "t", "n", "f", "r", "/", DQ, BS} -> i + 2
        [] c = "u" /\ hex(4) -> i + 6
        [] c = "U" /\ hex(8) -> i + 10
        [] OTHER -> 0

RECURSIVE BasicClose(_, _)
BasicClose(s, i) ==
  LET j == Until(s, i, {DQ, BS} \cup Controls)
      c == At(s, j)
  IN CASE c = DQ -> j
       [] c = BS -> IF Escape(s, j) = 0 THEN 0 ELSE BasicClose(s, Escape(s, j))
       [] OTHER -> 0

LiteralClose(s, i) ==
  LET j == Until(s, i, {SQ} \cup Odd) IN IF At(s, j) = SQ THEN j ELSE 0

RECURSIVE MLBasicClose(_, _)
MLBasicClose(s, i) ==
  LET j == Until(s, i, {DQ, BS} \cup Odd)
      c == At(s, j)
  IN CASE c = DQ -> IF Starts3(s, j, DQ) THEN j ELSE MLBasicClose(s, j + 1)
       [] c = BS -> IF Newline(s, j + 1) > 0 THEN MLBasicClose(s, Newline(s, j + 1))
                    ELSE IF Escape(s, j) = 0 THEN 0 ELSE MLBasicClose(s, Escape(s, j))
       [] OTHER -> IF Newline(s, j) > 0 THEN MLBasicClose(s, Newline(s, j)) ELSE 0

RECURSIVE MLLiteralClose(_, _)
MLLiteralClose(s, i) ==
  LET j == Until(s, i, {SQ} \cup Odd)
      c == At(s, j)
  IN CASE c = SQ -> IF Starts3(s, j, SQ) THEN j ELSE MLLiteralClose(s, j + 1)
       [] OTHER -> IF Newline(s, j) > 0 THEN MLLiteralClose(s, Newline(s, j)) ELSE 0

BareRun(s, i) == Span(s, i, BareChars)

\* A key is a run of bare characters or a quoted basic string that isn't empty
Key(s, i) == IF At(s, i) = DQ
             THEN LET c == BasicClose(s, i + 1) IN IF c = 0 \/ c = i + 1 THEN 0 ELSE c + 1
             ELSE LET e == BareRun(s, i) IN IF e = i THEN 0 ELSE e

\* key (ws . ws key)* : the keys as written, and the position after the last
RECURSIVE KeyPath(_, _, _)
KeyPath(s, i, ks) ==
  LET e == Key(s, i) IN
  IF e = 0 THEN [e |-> 0, ks |-> ks]
  ELSE LET ks2 == Append(ks, Piece(s, i, e))
           d == Ws(s, e)
           nx == IF At(s, d) = "." THEN KeyPath(s, Ws(s, d + 1), ks2) ELSE [e |-> 0, ks |-> ks2]
       IN  IF nx.e = 0 THEN [e |-> e, ks |-> ks2] ELSE nx

-----------------------------------------------------------------------------
\* Numbers, booleans, dates

RECURSIVE DigitRun(_, _)            \* (digit | _digit)*
DigitRun(s, i) == LET j == Span(s, i, DigitChars)
                  IN IF At(s, j) = "_" /\ IsDigit(s, j + 1) THEN DigitRun(s, j + 2) ELSE j
PlainDigits(s, i) == Span(s, i, DigitChars)          \* digit*

Sign(s, i) == IF At(s, i) \in Signs THEN i + 1 ELSE i
Integer(s, i) == LET b == Sign(s, i) IN
                 IF At(s, b) \in NonZero THEN DigitRun(s, b + 1)
                 ELSE IF At(s, b) = "0" THEN b + 1 ELSE 0
Frac(s, i) == IF At(s, i) = "." /\ IsDigit(s, i + 1) THEN DigitRun(s, i + 2) ELSE 0
Exponent(s, i) == IF At(s, i) \in {"e", "E"} THEN Integer(s, i + 1) ELSE 0
Float(s, i) ==
  LET n == Integer(s, i) IN
  IF n = 0 THEN 0
  ELSE LET f == Frac(s, n) IN
       IF f = 0 THEN Exponent(s, n)
       ELSE LET x == Exponent(s, f) IN IF x = 0 THEN f ELSE x

Boolean(s, i) == IF StartsWith(s, i, "true") THEN i + 4
                 ELSE IF StartsWith(s, i, "false") THEN i + 5 ELSE 0

DigitsAt(s, i, n) == \A k \in 0..(n - 1) : IsDigit(s, i + k)
\* dddd-dd-dd
DateEnd(s, i) == IF DigitsAt(s, i, 4) /\ At(s, i + 4) = "-" /\ DigitsAt(s, i + 5, 2)
                    /\ At(s, i + 7) = "-" /\ DigitsAt(s, i + 8, 2) THEN i + 10 ELSE 0
\* Tdd:dd:dd
ClockEnd(s, i) == IF At(s, i) = "T" /\ DigitsAt(s, i + 1, 2) /\ At(s, i + 3) = ":" /\ DigitsAt(s, i + 4, 2)
                     /\ At(s, i + 6) = ":" /\ DigitsAt(s, i + 7, 2) THEN i + 9 ELSE 0
\* .d+
FractionEnd(s, i) == IF At(s, i) = "." /\ IsDigit(s, i + 1) THEN PlainDigits(s, i + 1) ELSE 0
\* +dd:dd
OffsetEnd(s, i) == IF At(s, i) \in Signs /\ DigitsAt(s, i + 1, 2) /\ At(s, i + 3) = ":" /\ DigitsAt(s, i + 4, 2)
                   THEN i + 6 ELSE 0

NoDate == [y |-> "", mo |-> "", d |-> "", h |-> "", mi |-> "", s |-> "", f |-> "", o |-> "", oh |-> "", om |-> ""]
\* The date-time at i: its end (0 if none) and its fields as written, "" where absent
DateTimeAt(s, i) ==
  LET de == DateEnd(s, i) IN
  IF de = 0 THEN [e |-> 0, d |-> NoDate]
  ELSE LET date == [NoDate EXCEPT !.y = Piece(s, i, i + 4), !.mo = Piece(s, i + 5, i + 7), !.d = Piece(s, i + 8, i + 10)]
           te == ClockEnd(s, de)
       IN IF te = 0 THEN [e |-> de, d |-> date]
          ELSE LET fe == FractionEnd(s, te)
                   ofs == IF fe = 0 THEN te ELSE fe
                   time == [date EXCEPT !.h = Piece(s, de + 1, de + 3), !.mi = Piece(s, de + 4, de + 6),
                                        !.s = Piece(s, de + 7, de + 9), !.f = IF fe = 0 THEN "" ELSE Piece(s, te + 1, fe)]
                   oe == OffsetEnd(s, ofs)
               IN IF At(s, ofs) = "Z" THEN [e |-> ofs + 1, d |-> [time EXCEPT !.o = "Z"]]
                  ELSE IF oe > 0 THEN [e |-> oe, d |-> [time EXCEPT !.o = At(s, ofs), !.oh = Piece(s, ofs + 1, ofs + 3),
                                                                    !.om = Piece(s, ofs + 4, ofs + 6)]]
                  ELSE [e |-> ofs, d |-> time]
=============================================================================
