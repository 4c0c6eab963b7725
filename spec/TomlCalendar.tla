---------------------------- MODULE TomlCalendar ----------------------------
(***************************************************************************)
(* Which dates, times and offsets exist.                                   *)
(***************************************************************************)
EXTENDS TomlText

DigitVal == [c \in DigitChars |-> CHOOSE n \in 0..9 : ToString(n) = c]
NumVal(str) == LET f(n, k) == 10 * n + DigitVal[SubSeq(str, k, k)] IN FoldLeft(f, 0, [k \in 1..Len(str) |-> k])

AllDigits(str) == str # "" /\ \A k \in 1..Len(str) : SubSeq(str, k, k) \in DigitChars
TwoDigits(str) == Len(str) = 2 /\ AllDigits(str)

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31
                  [] m \in {4, 6, 9, 11} -> 30
                  [] m = 2 -> IF Leap(y) THEN 29 ELSE 28
                  [] OTHER -> 0

ValidDate(d) == /\ Len(d.y) = 4 /\ AllDigits(d.y) /\ TwoDigits(d.mo) /\ TwoDigits(d.d)
                /\ NumVal(d.y) >= 1
                /\ NumVal(d.d) \in 1..DaysIn(NumVal(d.y), NumVal(d.mo))
ValidClock(d) == /\ TwoDigits(d.h) /\ TwoDigits(d.mi) /\ TwoDigits(d.s)
                 /\ NumVal(d.h) <= 23 /\ NumVal(d.mi) <= 59 /\ NumVal(d.s) <= 59
ValidOffset(d) == \/ d.o \in {"", "Z"}
                  \/ d.o \in Signs /\ TwoDigits(d.oh) /\ TwoDigits(d.om) /\ NumVal(d.oh) <= 23 /\ NumVal(d.om) <= 59
HasTime(d) == d.h # ""

\* A fraction of "" means there is none
ValidDateTime(d) == /\ ValidDate(d)
                    /\ HasTime(d) => ValidClock(d) /\ ValidOffset(d) /\ (d.f = "" \/ AllDigits(d.f))

ShowDateTime(d) ==
  d.y \o "-" \o d.mo \o "-" \o d.d
  \o (IF ~HasTime(d) THEN ""
      ELSE "T" \o d.h \o ":" \o d.mi \o ":" \o d.s
           \o (IF d.f = "" THEN "" ELSE "." \o d.f)
           \o (IF d.o = "" THEN "" ELSE IF d.o = "Z" THEN "Z" ELSE d.o \o d.oh \o ":" \o d.om))
=============================================================================
