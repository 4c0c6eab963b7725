------------------------------ MODULE TomlCtor ------------------------------
(***************************************************************************)
(* The constructors of values: a constructor yields a valid value that     *)
(* says what its arguments say, or an error.  Arguments are strings,       *)
(* numbers being decimal ones.                                             *)
(***************************************************************************)
EXTENDS TomlValue

Refused_ == [ok |-> FALSE, v |-> NoValue, valid |-> FALSE, s |-> ""]
Given(v) == [ok |-> TRUE, v |-> v, valid |-> Valid(v), s |-> Show(v)]
Made(v)  == IF Valid(v) THEN Given(v) ELSE Refused_

RECURSIVE Pad(_, _)
Pad(s, n) == IF Len(s) >= n THEN s ELSE Pad("0" \o s, n)

UpperOf == ("T" :> "t") @@ ("R" :> "r") @@ ("U" :> "u") @@ ("E" :> "e") @@ ("F" :> "f") @@ ("A" :> "a") @@ ("L" :> "l") @@ ("S" :> "s")
RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN "" ELSE LET c == SubSeq(s, 1, 1) IN (IF c \in DOMAIN UpperOf THEN UpperOf[c] ELSE c) \o Lower(SubSeq(s, 2, Len(s)))

OfDate(y, mo, d) == [NoDate EXCEPT !.y = y, !.mo = mo, !.d = d]
OfClock(a, y) == [OfDate(Pad(a[1], y), Pad(a[2], IF y = 0 THEN 0 ELSE 2), Pad(a[3], IF y = 0 THEN 0 ELSE 2))
                   EXCEPT !.h = Pad(a[4], IF y = 0 THEN 0 ELSE 2), !.mi = Pad(a[5], IF y = 0 THEN 0 ELSE 2), !.s = Pad(a[6], IF y = 0 THEN 0 ELSE 2)]
DT(d) == [t |-> "dt", d |-> d]

\* what each kind of date-time constructor makes of its arguments; from numbers (padded) or strings (as they are)
Dated(kind, a, num) ==
  LET w == IF num THEN 4 ELSE 0
      two(x) == IF num THEN Pad(x, 2) ELSE x
      base == OfClock(a, w)
      frac(d) == [d EXCEPT !.f = a[7]]
      off(d, k) == [d EXCEPT !.o = a[k], !.oh = two(a[k + 1]), !.om = two(a[k + 2])]
      when(c, d) == IF c /\ d.h # "" THEN Made(DT(d)) ELSE Refused_
  IN CASE kind = "date" -> Made(DT(OfDate(Pad(a[1], w), two(a[2]), two(a[3]))))
       [] kind = "datetime" -> when(TRUE, base)
       [] kind = "datetime_frac" -> when(a[7] # "", frac(base))
       [] kind = "datetime_offset" -> when(a[7] \in Signs, off(base, 7))
       [] kind = "datetime_full" -> when(a[7] # "" /\ a[8] \in Signs, off(frac(base), 8))
       [] kind = "datetime_zulu" -> when(TRUE, [base EXCEPT !.o = "Z"])
       [] kind = "datetime_full_zulu" -> when(a[7] # "", [frac(base) EXCEPT !.o = "Z"])

DateKinds == {"date", "datetime", "datetime_frac", "datetime_offset", "datetime_full", "datetime_zulu", "datetime_full_zulu"}

Construct(f, a) ==
  CASE f = "int"   -> Given([t |-> "int", v |-> a[1]])
    [] f = "float" -> Given([t |-> "flt", v |-> a[1]])
    [] f = "bool"  -> Given([t |-> "bool", v |-> a[1]])
    [] f = "int_from_str"   -> Made([t |-> "int", v |-> a[1]])
    [] f = "float_from_str" -> Made([t |-> "flt", v |-> a[1]])
    [] f = "bool_from_str"  -> Made([t |-> "bool", v |-> Lower(a[1])])
    [] f = "basic_string"      -> Made([t |-> "bs", v |-> a[1]])
    [] f = "ml_basic_string"   -> Made([t |-> "mbs", v |-> a[1]])
    [] f = "literal_string"    -> Made([t |-> "ls", v |-> a[1]])
    [] f = "ml_literal_string" -> Made([t |-> "mls", v |-> a[1]])
    [] f = "datetime_parse" -> LET s == Txt(a[1])
                                   r == DateTimeAt(s, 1)
                               IN IF Whole(s, r.e) THEN Made(DT(r.d)) ELSE Refused_
    [] f = "combine_keys"       -> Sub(a[1], a[2])
    [] f = "combine_keys_index" -> a[1] \o "[" \o a[2] \o "]"
    [] OTHER -> LET k == CHOOSE k \in DateKinds : f \in {k \o "_from_int", k \o "_from_str"}
                IN Dated(k, a, f = k \o "_from_int")

-----------------------------------------------------------------------------
\* Parts of date-times, by themselves: whatever the fields are, a part
\* displays as they say and is valid or not; from strings only valid ones are
\* made.  A part is [s, valid, ok, made]; ok: from_str makes it (of offsets: of
\* their amount), made: how that displays.  Fields that may be absent are
\* sequences of at most one.

PartIs(s, valid) == [s |-> s, valid |-> valid, ok |-> valid, made |-> IF valid THEN s ELSE ""]
DateOf(a)   == [NoDate EXCEPT !.y = a.y, !.mo = a.mo, !.d = a.d]
OffsetOf(o) == IF o = <<>> THEN NoDate ELSE IF o = <<"Z">> THEN [NoDate EXCEPT !.o = "Z"]
               ELSE [NoDate EXCEPT !.o = o[1], !.oh = o[2], !.om = o[3]]
ClockOf(a)  == [OffsetOf(a.o) EXCEPT !.h = a.h, !.mi = a.mi, !.s = a.s]
ValidFraction(f) == f = <<>> \/ AllDigits(f[1])
ValidTime(a) == ValidClock(ClockOf(a)) /\ ValidOffset(ClockOf(a)) /\ ValidFraction(a.f)
ShowDate(a) == a.y \o "-" \o a.mo \o "-" \o a.d
ShowOffset(o) == IF o = <<>> THEN "" ELSE IF o = <<"Z">> THEN "Z" ELSE o[1] \o o[2] \o ":" \o o[3]
ShowTime(a) == "T" \o a.h \o ":" \o a.mi \o ":" \o a.s \o (IF a.f = <<>> THEN "" ELSE "." \o a.f[1]) \o ShowOffset(a.o)

PartBy(f, a) ==
  CASE f = "date"   -> PartIs(ShowDate(a), ValidDate(DateOf(a)))
    [] f = "time"   -> PartIs(ShowTime(a), ValidTime(a))
    [] f = "offset" -> PartIs(ShowOffset(a.o), ValidOffset(OffsetOf(a.o)))
    [] f = "amount" -> [PartIs(ShowOffset(a.o), a.o[1] \in Signs /\ ValidOffset(OffsetOf(a.o))) EXCEPT !.s = "", !.valid = FALSE]     \* from strings only: any sign
    [] f = "datetime" -> PartIs(ShowDate(a) \o (IF a.t THEN ShowTime(a) ELSE ""), ValidDate(DateOf(a)) /\ (a.t => ValidTime(a)))

\* Values are equal if they are the same; a copy is equal to the original
Equal(v, w) == [eq |-> v = w, rev |-> v = w, copy |-> TRUE]

-----------------------------------------------------------------------------
\* What must hold of every constructor: what it yields is valid, and is read
\* back as the same value from the way it displays
ReadBack(v) == LET s == Txt(Show(v))
                   r == ValueAt(s, 1)
               IN Whole(s, r.e) /\ Plain(r.v) = v
CtorOK(f, a) == LET r == Construct(f, a) IN r.ok => r.valid /\ r.s = Show(r.v) /\ ReadBack(r.v)
=============================================================================
