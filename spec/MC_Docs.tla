------------------------------- MODULE MC_Docs ------------------------------
(***************************************************************************)
(* All documents of a family up to a bound, read by the specification,     *)
(* whose invariants are checked in every state.  Every document is printed *)
(* with what is to be compared, so that it's replayed on the real parser.  *)
(***************************************************************************)
EXTENDS TomlDocument, IOUtils

\* which families, up to which bound; of all of a family's documents, the ones that are part modulo parts
Jobs == ndJsonDeserialize(IOEnv.JOBS)

\* Pieces documents are made of, by family; what comes before and after them
TableLines == << "[a]", "[b]", "[a.b]", "[a.b.c]", "[[a]]", "[[a.b]]", "[[b]]", "[[a.b.c]]", "b=1", "a=1", "c={b=1}", "x=2" >>
DeepLines  == << "[a.a]", "[a.a.a]", "[[a.a]]", "[[a.a.a]]", "[a]", "[[a]]", "a=1", "[b.a]" >>
InlineLines == << "[a]", "[a.b]", "[[a]]", "[a.b.c]", "a={b={c=1}}", "a=[{b=1},{b=2}]", "b={a=1,a=2}", "b={a=[1,\"x\"],a=[{c=1,c=2}]}", "a=1999-02-30" >>
RawChars   == << "a", "1", "=", "\"", "'", "[", "]", "{", "}", ",", ".", "#", "\n", "\r", " ", "\t", "\\", "-" >>
ValueChars == << "1", "0", "_", ".", "e", "+", "-", "\"", "'", "[", "]", "{", "}", ",", " ", "a", "=", "\n", "#", "\\" >>
NumberChars == << "1", "0", "_", ".", "e", "+", "-" >>
NumberChars2 == << "7", "0", "_", ".", "E", "-" >>
StringChars == << "a", "\"", "'", "\\", "\n", "u", "n" >>
StringChars2 == << "\"", "\\", "\n", "\t", "\r", " ", "0041", "u" >>
QuoteChars == << "\"", "'", "\\", "\n", "a" >>
ArrayTokens == << "[", "]", ",", "1", "\"s\"", " ", "\n", "#c\n", "{", "}", "a=" >>
InlineTokens == << "{", "}", ",", "a", "=", "1", "b=2", " ", "\n", "a={", "c=[" >>
KeyChars   == << "a", "\"", ".", " ", "-", "1", "]", "[", "'" >>
KeyLines   == << "a=1", "\"a\"=2", "A=3", "a-b=4", "[\"a\"]", "[ a ]", "[a]", "[a.\"b\"]", "[\"a.b\"]", "[a . b]", "b=5", "\"b\"=6", "1=7" >>
LineEnds   == << "a=1", "[t]", "#c", "", " ", "\n", "\r\n", "\r", "b=[1,\n2]", "x" >>
Gaps       == << " ", "\t", "\n", "#c\n", "\r\n", "" >>
ErrorLines_ == << "a=1", "a=[1,\"x\"]", "[t]", "[[a]]", "d=1999-13-01", "a=[\n[1,2.0],\n[1,true]]", "\n", "e={x=1,x=2}", "a=2000-01-01" >>
MixedTokens == << "1", "2.0", "\"x\"", "'y'", "true", "1979-05-27", "[1]", "{a=1}", "[1,\"x\"]", "1999-02-30" >>

Alphabet(f) == CASE f = "tables" -> TableLines [] f = "deep" -> DeepLines [] f = "inlinelines" -> InlineLines
              [] f = "raw" -> RawChars [] f = "value" -> ValueChars
              [] f = "number" -> NumberChars [] f = "number2" -> NumberChars2
              [] f \in {"bs", "mbs", "ls", "mls"} -> StringChars
              [] f \in {"bs2", "mbs2"} -> StringChars2 [] f = "quotes" -> QuoteChars
              [] f = "array" -> ArrayTokens [] f = "inline" -> InlineTokens
              [] f \in {"key", "header"} -> KeyChars [] f = "keys" -> KeyLines
              [] f = "ends" -> LineEnds [] f = "errors" -> ErrorLines_
              [] f = "mixed" -> MixedTokens
Before(f) == CASE f \in {"value", "number", "number2", "quotes", "array", "inline"} -> "k = "
            [] f \in {"bs", "bs2"} -> "k = \"" [] f = "ls" -> "k = '"
            [] f \in {"mbs", "mbs2"} -> "k = \"\"\"" [] f = "mls" -> "k = '''"
            [] f = "header" -> "[" [] f = "mixed" -> "k = [" [] OTHER -> ""
Between(f) == CASE f \in {"tables", "deep", "inlinelines", "keys", "errors"} -> "\n" [] f = "mixed" -> ", " [] OTHER -> ""
Behind(f) == CASE f \in {"bs", "bs2"} -> "\"\nz = 1" [] f = "ls" -> "'\nz = 1"
            [] f \in {"mbs", "mbs2"} -> "\"\"\"\nz = 1" [] f = "mls" -> "'''\nz = 1"
            [] f \in {"number", "number2", "array", "inline", "quotes"} -> "\nz = 1\n"
            [] f = "key" -> " = 1\nz = 1" [] f = "header" -> "]\nz = 1"
            [] f = "mixed" -> "]\nz = 1\n" [] OTHER -> ""

RECURSIVE Power(_, _)
Power(k, n) == IF n = 0 THEN 1 ELSE k * Power(k, n - 1)
RECURSIVE Word(_, _, _, _)
Word(al, sep, n, x) == IF n = 0 THEN "" ELSE (IF n > 1 THEN Word(al, sep, n - 1, x \div Len(al)) \o sep ELSE "") \o al[(x % Len(al)) + 1]
Words(j) == LET f == j.f IN
  UNION {{Before(f) \o Word(Alphabet(f), Between(f), n, x) \o Behind(f) :
            x \in {x \in 0..(Power(Len(Alphabet(f)), n) - 1) : x % j.parts = j.part}} : n \in 0..j.n}

\* families that aren't words over an alphabet
Two(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Years(n) == IF n = 1 THEN {"1900", "2000", "2023", "2024"} ELSE {"0000", "0001", "0004", "0100", "0400", "1600", "1700", "1900", "1999", "2000", "2004", "2100", "9996", "9999"}
Dates(n) == {"k = " \o y \o "-" \o Two(m) \o "-" \o Two(d) : y \in Years(n), m \in 0..13, d \in 0..32}
Clocks == {"k = 2000-02-29T" \o t \o r : t \in
              {Two(h) \o ":00:00" : h \in 0..30} \cup {"12:" \o Two(m) \o ":00" : m \in 0..70} \cup {"12:59:" \o Two(s) : s \in 0..70},
            r \in {"", "Z", ".5", "+00:00"}}
Offsets == {"k = 2000-02-29T12:34:56" \o f \o s \o Two(h) \o ":" \o Two(m) \o e : f \in {"", ".123"}, s \in {"+", "-"}, h \in {0, 1, 12, 22, 23, 24, 29, 60, 99}, m \in {0, 1, 30, 58, 59, 60, 61, 99}, e \in {"", "Z", " "}}
DateChars == {"k = " \o x : x \in {SubSeq(f, 1, n - 1) \o c \o SubSeq(f, n + 1, Len(f)) : n \in 1..27, c \in {"", "0", "a", "-", "T", " "}, f \in {"1979-05-27T07:32:00.5+01:30"}}}
           \cup {"k = " \o SubSeq("1979-05-27T07:32:00.999-07:00", 1, n) : n \in 0..29} \cup {"k = " \o SubSeq("1979-05-27T07:32:00Z", 1, n) : n \in 0..20}
GapPlaces == {"k =" \o "[" \o a \o "1" \o b \o "," \o c \o "2" \o d \o "]" : a, b, c, d \in ToSet(Gaps)}
             \cup {"k={" \o a \o "x=1" \o b \o "," \o c \o "y=2" \o d \o "}" : a, b, c, d \in ToSet(Gaps)}
             \cup {a \o "k" \o b \o "=" \o c \o "1" \o d \o "\nz=1" : a, b, c, d \in ToSet(Gaps)}
             \cup {a \o "[" \o b \o "k" \o c \o "]" \o d \o "\nz=1" : a, b, c, d \in ToSet(Gaps)}
             \cup {"[[" \o a \o "k" \o b \o "." \o c \o "l" \o d \o "]]\nz=1" : a, b, c, d \in ToSet(Gaps)}
Escapes == {q \o "\\" \o e \o q2 : <<q, q2>> \in {<<"k = \"", "\"">>, <<"k = \"\"\"", "\"\"\"">>, <<"\"", "\" = 1">>},
                             e \in {"b", "t", "n", "f", "r", "/", "\"", "\\", "a", "0", "x41", "'", " ", "\n", "u0041", "u004", "u004g", "U00000041", "U0000004", "U0000004G",
                                    "uD800", "uFFFF", "U00110000", "U0010FFFF", "N", "T", "u", "U", "u 041", "u+041", "\t"}}

\* every single-character edit of some documents: a character put in, or in the place of another
EditData == JsonDeserialize("edits.json")
Edits(j) == LET cs == EditData.chars  ds == EditData.docs
                put(d, n, c, r) == SubSeq(d, 1, n) \o c \o SubSeq(d, n + 1 + r, Len(d))
            IN {put(ds[x[1]], x[2], IF x[3] = 0 THEN "" ELSE cs[x[3]], x[4]) :
                  x \in {x \in UNION {{a} \X (0..Len(ds[a])) \X (0..Len(cs)) \X {0, 1} : a \in 1..Len(ds)} :
                            (x[1] + 3 * x[2] + x[3]) % j.parts = j.part}}

Docs(j) == LET f == j.f IN CASE f = "dates" -> Dates(j.n) [] f = "clocks" -> Clocks [] f = "offsets" -> Offsets [] f = "datechars" -> DateChars
          [] f = "gaps" -> GapPlaces [] f = "escapes" -> Escapes [] f = "edits" -> Edits(j) [] OTHER -> Words(j)

Init == \E n \in 1..Len(Jobs) : \E d \in Docs(Jobs[n]) : Fresh(d) /\ PrintT("DOC " \o ToJson([f |-> Jobs[n].f, doc |-> d]))
Next == Read

InvNavigable == phase = "done" => Navigable
Grows == [][OnlyGrows]_docvars
=============================================================================
