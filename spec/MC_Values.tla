------------------------------ MODULE MC_Values -----------------------------
(***************************************************************************)
(* Constructor calls and plain values up to a bound: what a constructor    *)
(* yields is valid, and a valid value is read back from the way it         *)
(* displays.  All are printed to be replayed on the real constructors.     *)
(***************************************************************************)
EXTENDS TomlCtor, IOUtils

Jobs == ndJsonDeserialize(IOEnv.JOBS)    \* [f, n]: which family, up to which bound

RECURSIVE Words(_, _)
Words(al, n) == IF n = 0 THEN {""} ELSE {w \o c : w \in Words(al, n - 1), c \in al} \cup Words(al, n - 1)
Calls(fs, args) == {[f |-> f, a |-> a] : f \in fs, a \in args}
One(ws) == {<<w>> : w \in ws}

Two(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Y == {"0", "1", "999", "1900", "2000", "2004", "2100", "9999", "10000"}
YS == {"", "0000", "0001", "1900", "2000", "2023", "2024", "10000", "200", "20x0", "+200", " 200", "2_00"}
TwoS(bad) == {"01", "02", "12", "13", "00", "28", "29", "30", "31", "32", "59", "60", "23", "24"} \cup bad
Odd2 == {"", "1", "1x", "+1", "001", " 1", "1 ", "-1"}
Base  == <<"2023", "11", "30", "23", "59", "58">>
BaseI == <<"2023", "1", "3", "4", "5", "6">>
Extra(k) == CASE k = "datetime_frac" -> <<"25">> [] k = "datetime_offset" -> <<"+", "09", "30">> [] k = "datetime_full" -> <<"25", "-", "09", "30">>
              [] k = "datetime_full_zulu" -> <<"25">> [] OTHER -> <<>>
\* a call with one argument changed, for every argument
Varied(k, base, xs) == LET full == IF k = "date" THEN SubSeq(base, 1, 3) ELSE base \o Extra(k)
                       IN {[full EXCEPT ![n] = x] : n \in 1..Len(full), x \in xs} \cup {full}
IntArgs == {"10", "250", "1000", "123000", "1000000", "250000", "101010", "999999999", "1000000000", "4294967295", "0", "1", "2", "9", "12", "13", "23", "24", "28", "29", "30", "31", "32", "59", "60", "99", "100", "1900", "2000", "2024", "9999", "10000"}
StrArgs == {"0000", "0001", "1900", "2024", "02", "13", "00", "24", "29", "31", "32", "60", "99", "+", "-", "x", "Z", "+-"} \cup Odd2
\* (the sign of an offset is a character in the constructors from numbers)
SignPlace(k) == CASE k = "datetime_offset" -> 7 [] k = "datetime_full" -> 8 [] OTHER -> 0
FromInt(k) == {a \in Varied(k, BaseI, IntArgs) : SignPlace(k) = 0 \/ a[SignPlace(k)] \in Signs}
              \cup (IF SignPlace(k) = 0 THEN {} ELSE {[(BaseI \o Extra(k)) EXCEPT ![SignPlace(k)] = c] : c \in {"+", "-", "x", "Z", "0", " "}})
Dates_ == {<<y, m, d>> : y \in YS, m \in {Two(n) : n \in 0..13} \cup {"1", ""}, d \in {"00", "01", "28", "29", "30", "31", "32", "1", ""}}
DatesI == {<<y, ToString(m), ToString(d)>> : y \in Y, m \in 0..13, d \in {0, 1, 28, 29, 30, 31, 32}}

Full == "1979-05-27T07:32:00.5+01:30"
Parses == {SubSeq(Full, 1, n - 1) \o c \o SubSeq(Full, n + 1, Len(Full)) : n \in 1..27, c \in {"", "0", "9", "a", "-", ":", "T", " ", "Z"}}
          \cup {SubSeq(Full, 1, n) : n \in 0..27} \cup {SubSeq(Full, 1, n) \o "Z" : n \in 9..27} \cup {SubSeq(Full, 1, n) \o "-23:59" : n \in 9..27}

\* something around a text that's accepted as it is
Around(s) == UNION {{w \o s, s \o w, w \o s \o w} : w \in {" ", Tab, LF, CR, CR \o LF, "\"", "'", "#", ",", " ", "﻿", "_", "0", "+"}}
Padded(k, base) == LET full == IF k = "date" THEN SubSeq(base, 1, 3) ELSE base \o Extra(k)
                   IN UNION {{[full EXCEPT ![n] = x] : x \in Around(full[n])} : n \in 1..Len(full)}
Numbers_ == {"1", "-0", "+1_0", "1.5", "-1e5", "1.5E-3"}

BaseKeys  == {"", "a", "a.b", "a[0]", "a[0][12]", "\"a b\"", "\"a.b\"", "\"\"", "a.", ".", " ", "a ", "[0]", "\"[0]\"", "é", "$", "\""}
ChildKeys == {"b", "\"c d\"", "1", "[0]", "", ".", ".x", "x.", "a", "a.b", "\"a\"", " ", "\"\"", "é", "[", "]", "\"[0]\"", "x y"}

CallsOf(j) ==
  CASE j.f = "strings" -> Calls({"basic_string", "ml_basic_string", "literal_string", "ml_literal_string"},
                                One(Words({"a", DQ, SQ, BS, LF, CR, "n", Tab}, j.n) \cup {x \o y : x \in {DQ, SQ, BS, "", DQ \o DQ, SQ \o SQ}, y \in {"", DQ \o DQ \o DQ, SQ \o SQ \o SQ, BS \o "u0041", BS \o "u004", BS \o "U0001F600", BS \o "U0001F60"}}))
    [] j.f = "numbers" -> Calls({"int_from_str", "float_from_str"}, One(Words({"1", "0", "_", ".", "e", "+", "-"}, j.n) \cup {" 1", "1 ", "1.0 ", "inf", "nan", "0x1", "1E5", "1_000.5e-1_0", "x"} \cup UNION {Around(x) : x \in Numbers_}))
    [] j.f = "bools" -> Calls({"bool_from_str"}, One({"true", "false", "True", "FALSE", "tRuE", "fAlSe", "", "t", "1", "0", "yes", " true", "true ", "truefalse", "TRU"} \cup Around("true") \cup Around("False")))
                        \cup Calls({"bool"}, One({"true", "false"}))
                        \cup Calls({"int"}, One({"0", "1", "-1", "42", "-9223372036854775808", "9223372036854775807", "1000000"}))
                        \cup Calls({"float"}, One({"0.5", "-0.25", "3.14", "1234567.125", "-0.001"}))
    [] j.f = "parses" -> Calls({"datetime_parse"}, One(Parses \cup Around(Full) \cup Around("1979-05-27")))
    [] j.f = "dates" -> Calls({"date_from_str"}, Dates_) \cup Calls({"date_from_int"}, DatesI)
    [] j.f = "datetimes" -> UNION {Calls({k \o "_from_int"}, FromInt(k)) \cup Calls({k \o "_from_str"}, Varied(k, Base, StrArgs) \cup Padded(k, Base)) : k \in DateKinds}
    [] j.f = "keys" -> Calls({"combine_keys"}, {<<x, y>> : x \in BaseKeys, y \in ChildKeys})
                       \cup Calls({"combine_keys_index"}, {<<x, y>> : x \in BaseKeys, y \in {"0", "1", "12", "100", "4294967296", "18446744073709551615"}})

Scalars == {[t |-> "int", v |-> "-1_0"], [t |-> "flt", v |-> "1.5e-3"], [t |-> "bool", v |-> "true"], [t |-> "dt", d |-> [NoDate EXCEPT !.y = "2000", !.mo = "02", !.d = "29"]],
            [t |-> "dt", d |-> [NoDate EXCEPT !.y = "2000", !.mo = "02", !.d = "29", !.h = "23", !.mi = "59", !.s = "58", !.f = "007", !.o = "-", !.oh = "08", !.om = "30"]],
            [t |-> "dt", d |-> [NoDate EXCEPT !.y = "2000", !.mo = "12", !.d = "31", !.h = "00", !.mi = "00", !.s = "00", !.o = "Z"]],
            [t |-> "dt", d |-> [NoDate EXCEPT !.y = "2000", !.mo = "12", !.d = "31", !.h = "00", !.mi = "00", !.s = "00", !.f = "0", !.o = "+", !.oh = "00", !.om = "00"]],
            [t |-> "bs", v |-> "a\\\"]"], [t |-> "mbs", v |-> "x\n\"y"], [t |-> "ls", v |-> "C:\\"], [t |-> "mls", v |-> "\n'\""], [t |-> "bs", v |-> ""], [t |-> "int", v |-> "1x"]}
Ks == {"a", "\"b c\"", "d.e"}
RECURSIVE Plains(_)
Plains(n) == IF n = 0 THEN Scalars
             ELSE LET sub == Plains(n - 1) IN
               sub \cup {[t |-> "arr", a |-> <<>>], [t |-> "it", m |-> <<>>]}
                   \cup {[t |-> "arr", a |-> <<x>>] : x \in sub} \cup {[t |-> "it", m |-> << <<k, x>> >>] : k \in Ks, x \in sub}
                   \cup {[t |-> "arr", a |-> <<x, y>>] : x \in sub, y \in Scalars} \cup {[t |-> "it", m |-> << <<"k", x>>, <<k, y>> >>] : k \in {"l", "k"}, x \in sub, y \in Scalars}

-----------------------------------------------------------------------------
\* Parts of date-times: one or two fields out of the ordinary
OddFields == Odd2 \cup {"00", "02", "12", "13", "23", "24", "29", "30", "31", "32", "59", "60", "99", "0x", "x0", "2 ", "٣٣", "123"}
DateParts == {[y |-> y, mo |-> mo, d |-> d] : y \in YS \cup {"1900", "2004", "٢٠٠٠", "+999", "9999"}, mo \in {"02", "04", "12", "00", "13", "2", "", "+2"}, d \in {"28", "29", "30", "31", "32", "00", "1", "", "+1", "2x"}}
TimeBase == [h |-> "23", mi |-> "59", s |-> "58", f |-> <<>>, o |-> <<>>]
Fractions == {<<>>, <<"">>, <<"0">>, <<"123456789012">>, <<"x">>, <<"1 ">>, <<"+1">>, <<"1_0">>, <<"٣">>}
OffsetParts == {<<"Z">>} \cup {<<pm, h, "30">> : pm \in Signs, h \in OddFields} \cup {<<pm, "08", m>> : pm \in Signs, m \in OddFields}
TimeParts == {[TimeBase EXCEPT ![k] = x] : k \in {"h", "mi", "s"}, x \in OddFields}
             \cup {[TimeBase EXCEPT !.f = f, !.o = o] : f \in Fractions, o \in {<<>>, <<"Z">>, <<"+", "24", "00">>, <<"-", "23", "59">>, <<"+", "0", "00">>}}
             \cup {[TimeBase EXCEPT !.o = o] : o \in OffsetParts}
PartCases == {[f |-> "date", a |-> a] : a \in DateParts} \cup {[f |-> "time", a |-> a] : a \in TimeParts}
             \cup {[f |-> "offset", a |-> [o |-> o]] : o \in OffsetParts}
             \cup {[f |-> "amount", a |-> [o |-> <<pm, h, "30">>]] : pm \in {"+", "-", "", "Z", "++", " +", "x"}, h \in {"08", "24", "8"}}
             \cup {[f |-> "datetime", a |-> d @@ t] : d \in {[y |-> y, mo |-> "02", d |-> "29", t |-> b] : y \in {"2000", "1900", "2001"}, b \in BOOLEAN},
                                                     t \in {[TimeBase EXCEPT ![k] = x] : k \in {"h", "s"}, x \in {"00", "60", "1"}} \cup {[TimeBase EXCEPT !.f = f, !.o = <<"Z">>] : f \in Fractions}}

\* Pairs of values: equal ones, and ones that nearly are
\* The last digit of a field moved to the field after it; two fields exchanged
Moved(d) == {[d EXCEPT ![p[1]] = SubSeq(d[p[1]], 1, Len(d[p[1]]) - 1), ![p[2]] = SubSeq(d[p[1]], Len(d[p[1]]), Len(d[p[1]])) \o d[p[2]]] :
               p \in {p \in {<<"y", "mo">>, <<"mo", "d">>, <<"d", "h">>, <<"h", "mi">>, <<"mi", "s">>, <<"s", "f">>, <<"f", "oh">>, <<"oh", "om">>} : d[p[1]] # "" /\ d[p[2]] # ""}}
            \cup {[d EXCEPT ![p[1]] = d[p[2]], ![p[2]] = d[p[1]]] : p \in {<<"mo", "d">>, <<"h", "mi">>, <<"mi", "s">>, <<"h", "s">>, <<"oh", "om">>, <<"h", "oh">>, <<"d", "h">>}}
ScalarText(v) == IF v.t = "dt" THEN ShowDateTime(v.d) ELSE v.v
DateFields == {"y", "mo", "d", "h", "mi", "s", "f", "o", "oh", "om"}
RECURSIVE Alike(_)
Alike(v) ==
  CASE v.t = "dt"  -> {[v EXCEPT !.d[k] = x] : k \in {k \in DateFields : v.d[k] # "" /\ k # "o"}, x \in {"01", "7"}}
                      \cup (IF v.d.o \in Signs THEN {[v EXCEPT !.d.o = IF v.d.o = "+" THEN "-" ELSE "+"], [v EXCEPT !.d.o = "Z", !.d.oh = "", !.d.om = ""], [v EXCEPT !.d.o = "", !.d.oh = "", !.d.om = ""]} ELSE {})
                      \cup (IF v.d.o = "Z" THEN {[v EXCEPT !.d.o = ""]} ELSE {})
                      \cup (IF HasTime(v.d) THEN {[v EXCEPT !.d.o = z[1], !.d.oh = z[2], !.d.om = z[2]] : z \in {<<"+", "00">>, <<"-", "00">>, <<"Z", "">>, <<"", "">>}}
                                                  \cup {[v EXCEPT !.d.f = x] : x \in {"0", "00", "5", "50", v.d.f \o "0"}} ELSE {})
                      \cup {[v EXCEPT !.d = x] : x \in {x \in Moved(v.d) : (x.h = "") = (v.d.h = "") /\ (v.d.o \in Signs \/ x.oh = "")}}
                      \cup (IF HasTime(v.d) THEN {[v EXCEPT !.d.f = ""], [v EXCEPT !.d = [NoDate EXCEPT !.y = v.d.y, !.mo = v.d.mo, !.d = v.d.d]]} ELSE {})
                      \cup {[t |-> "bs", v |-> ShowDateTime(v.d)]}
    [] v.t = "arr" -> {[v EXCEPT !.a = Append(v.a, x)] : x \in {[t |-> "int", v |-> "1"], [t |-> "arr", a |-> <<>>]}}
                      \cup (IF v.a = <<>> THEN {[t |-> "it", m |-> <<>>]} ELSE {[v EXCEPT !.a = Tail(v.a)], [v EXCEPT !.a = Reverse(v.a)], [t |-> "arr", a |-> <<v>>], v.a[1]})
                      \cup UNION {{[v EXCEPT !.a[n] = x] : x \in Alike(v.a[n])} : n \in 1..Len(v.a)}
    [] v.t = "it"  -> {[v EXCEPT !.m = Append(v.m, <<"zz", [t |-> "int", v |-> "1"]>>)]}
                      \cup (IF v.m = <<>> THEN {[t |-> "arr", a |-> <<>>]} ELSE {[v EXCEPT !.m = Tail(v.m)], [v EXCEPT !.m = Reverse(v.m)], [v EXCEPT !.m[1][1] = "zz"], v.m[1][2]})
                      \cup UNION {{[v EXCEPT !.m[n] = <<v.m[n][1], x>>] : x \in Alike(v.m[n][2])} : n \in 1..Len(v.m)}
    [] v.t = "bool" -> {[v EXCEPT !.v = "false"], [t |-> "bs", v |-> v.v]}
    [] OTHER -> {[t |-> ty, v |-> v.v] : ty \in {"int", "flt"} \cup StrTypes} \cup {[v EXCEPT !.v = @ \o "0"], [v EXCEPT !.v = ""], [v EXCEPT !.v = " " \o @]}
PairCases(n) == UNION {{[v |-> v, w |-> w] : w \in Alike(v) \cup {v}} : v \in Plains(n) \cup {[t |-> "bool", v |-> "false"]}}
                \cup {[v |-> v, w |-> w] : v, w \in Scalars}

Cases == UNION {LET j == Jobs[n] IN
                CASE j.f = "plain"  -> {[k |-> "show", v |-> p] : p \in Plains(j.n)}
                  [] j.f = "parts"  -> {[k |-> "part", f |-> x.f, a |-> x.a] : x \in PartCases}
                  [] j.f = "equals" -> {[k |-> "eq", v |-> x.v, w |-> x.w] : x \in PairCases(j.n)}
                  [] OTHER -> {[k |-> "ctor", f |-> x.f, a |-> x.a] : x \in CallsOf(j)} : n \in 1..Len(Jobs)}

VARIABLES c
Init == \E x \in Cases : c = <<x>> /\ PrintT("CASE " \o ToJson(x))
Next == FALSE /\ UNCHANGED c
\* the parts of a valid date-time make a valid date-time, that's read back
PartOK(f, a) == LET p == PartBy(f, a) IN
  /\ p.ok => p.made # ""
  /\ f = "datetime" /\ p.valid => LET s == Txt(p.s)  r == DateTimeAt(s, 1) IN Whole(s, r.e) /\ ValidDateTime(r.d) /\ ShowDateTime(r.d) = p.s
  /\ f = "date" /\ p.valid => Whole(Txt(p.s), DateEnd(Txt(p.s), 1))
  /\ f = "offset" /\ p.valid /\ p.s # "Z" => Whole(Txt(p.s), OffsetEnd(Txt(p.s), 1))
\* values that are equal display the same; of valid ones of the same kind, only those do
EqualOK(v, w) == /\ Equal(v, w).eq = Equal(w, v).eq
                 /\ v = w => Show(v) = Show(w)
                 /\ Valid(v) /\ Valid(w) /\ Show(v) = Show(w) => v = w
InvCtor == LET x == c[1] IN
           CASE x.k = "show" -> Valid(x.v) => ReadBack(x.v)
             [] x.k = "part" -> PartOK(x.f, x.a)
             [] x.k = "eq"   -> EqualOK(x.v, x.w)
             [] x.k = "ctor" -> x.f \in {"combine_keys", "combine_keys_index"} \/ CtorOK(x.f, x.a)
=============================================================================
