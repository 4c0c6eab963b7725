------------------------------- MODULE TomlKit ------------------------------
(***************************************************************************)
(* tomlkit, the command line tool: reads documents one after the other,    *)
(* performs the commands it was given on each, and writes a document back  *)
(* once everything was set.  A job is                                      *)
(*   [files  names of the documents, in order                              *)
(*    cmd    command ("get", "has", "ch", "hasch", "set") -> its list      *)
(*    opt    option -> its text ("" if it has none)                        *)
(*    nowrite  names of files that can't be written                        *)
(*    wrong  "" or what's wrong with how it was called: "help" if help is  *)
(*           asked for, "call" if an option isn't there or lacks its text] *)
(* Files that can't be read as text are none of the disk's.                *)
(* Lists are comma separated.                                              *)
(***************************************************************************)
EXTENDS TomlApi, TomlCtor

VARIABLES
  job,
  fi,       \* which file
  step,     \* what's next: "usage", "open", "read", a command, "write", "print", "end"
  disk,     \* file name -> contents
  tn,       \* the triple to be set next
  sofar,    \* what setting has printed so far
  results,  \* of the commands on this file: sequence of [ok, s]
  hasn,     \* how many keys there were for "has"
  out,      \* what was printed: sequence of [k = "txt", s], [k = "any"], some text within the line, and [k = "rest"], any lines to the end
  code      \* exit code

kitvars == <<job, fi, step, disk, tn, sofar, results, hasn, out, code>>

-----------------------------------------------------------------------------
RECURSIVE Fields(_)
\* "a,b" -> <<"a", "b">>; of nothing there's nothing
Fields(str) ==
  LET at == {n \in 1..Len(str) : SubSeq(str, n, n) = ","}
  IN IF str = "" THEN <<>>
     ELSE IF at = {} THEN <<str>>
     ELSE LET n == CHOOSE n \in at : \A m \in at : n <= m
          IN <<SubSeq(str, 1, n - 1)>> \o (IF n = Len(str) THEN <<"">> ELSE Fields(SubSeq(str, n + 1, Len(str))))
RECURSIVE Join(_, _)
Join(strs, sep) == IF strs = <<>> THEN ""
                   ELSE IF Len(strs) = 1 THEN strs[1] ELSE strs[1] \o sep \o Join(Tail(strs), sep)

Opt(o, default) == IF o \in DOMAIN job.opt THEN job.opt[o] ELSE default
Flag(o) == o \in DOMAIN job.opt
Sep == Opt("separator", ", ")
File == job.files[fi]

Ok(s) == [ok |-> TRUE, s |-> s]
Err   == [ok |-> FALSE, s |-> ""]
\* one result per key, or an error if there's one with any of them
Each(keys, f(_)) == IF keys = <<>> \/ \E n \in 1..Len(keys) : ~f(n).ok THEN Err
                    ELSE Ok(Join([n \in 1..Len(keys) |-> f(n).s], Sep))

Quotes == {DQ, SQ}
RECURSIVE Strip(_)
Strip(s) == IF s = "" THEN "" ELSE IF SubSeq(s, 1, 1) \in Quotes THEN Strip(SubSeq(s, 2, Len(s)))
            ELSE IF SubSeq(s, Len(s), Len(s)) \in Quotes THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s

Get(keys) == LET f(n) == LET v == GetValue(keys[n])
                         IN IF v = NoValue THEN Err ELSE Ok(IF Flag("strip-quotes") THEN Strip(Show(v)) ELSE Show(v))
             IN Each(keys, f)
\* The n-th of the words for true or false; a single one serves for all
Word(list, n) == LET ws == Fields(list)
                     k == IF Len(ws) > 1 THEN n ELSE 1
                 IN IF k <= Len(ws) THEN Ok(ws[k]) ELSE Err
YesNo(b, n) == LET y == Word(Opt("set-true", "true"), n)
                   m == Word(Opt("set-false", "false"), n)
               IN IF ~y.ok \/ ~m.ok THEN Err ELSE IF b THEN y ELSE m
Has(keys) == LET f(n) == YesNo(GetValue(keys[n]) # NoValue, n) IN Each(keys, f)
HasChildren(keys) ==
  LET f(n) == LET c == GetChildren(keys[n])
              IN YesNo(CASE c.c = "none" -> FALSE [] c.c = "count" -> c.n > 0 [] c.c = "keys" -> c.ks # <<>>, n + hasn)
  IN Each(keys, f)
Children(keys) ==
  LET asep == Opt("array-separator", ", ")
      f(n) == LET c == GetChildren(keys[n])
              IN CASE c.c = "none"  -> Err
                   [] c.c = "count" -> IF c.n = 0 THEN Err ELSE Ok(ToString(c.n))
                   [] c.c = "keys"  -> Ok((IF Flag("array-length") THEN ToString(Len(c.ks)) \o asep ELSE Opt("array-begin", "["))
                                          \o Join(c.ks, asep)
                                          \o (IF Flag("array-length") THEN "" ELSE Opt("array-end", "]")))
  IN Each(keys, f)

Ctors == ("basic-string" :> "basic_string") @@ ("bs" :> "basic_string")
      @@ ("ml-basic-string" :> "ml_basic_string") @@ ("mbs" :> "ml_basic_string")
      @@ ("literal-string" :> "literal_string") @@ ("ls" :> "literal_string")
      @@ ("ml-literal-string" :> "ml_literal_string") @@ ("mls" :> "ml_literal_string")
      @@ ("integer" :> "int_from_str") @@ ("int" :> "int_from_str")
      @@ ("float" :> "float_from_str") @@ ("flt" :> "float_from_str")
      @@ ("boolean" :> "bool_from_str") @@ ("bool" :> "bool_from_str")
      @@ ("datetime" :> "datetime_parse") @@ ("dt" :> "datetime_parse")
Typed(val, typ) == IF typ \in DOMAIN Ctors THEN Construct(Ctors[typ], <<val>>) ELSE Refused_

-----------------------------------------------------------------------------
Start(j, d) == /\ job = j /\ fi = 1 /\ step = (IF j.wrong # "" THEN "usage" ELSE IF j.files = <<>> THEN "end" ELSE "open") /\ disk = d
               /\ tn = 1 /\ sofar = <<>> /\ results = <<>> /\ hasn = 0 /\ out = <<>> /\ code = 0
               /\ Fresh("")

Text_(s) == [k |-> "txt", s |-> s]
AnyText      == [k |-> "any", s |-> ""]
Complain == <<Text_("Error " \o DQ \o File \o DQ \o ": "), AnyText>>
Usage == << Text_("Usage: tomlkit"), [k |-> "rest", s |-> ""] >>
Abort == /\ out' = out \o Complain \o <<Text_(LF)>> /\ code' = 255 /\ step' = "end"

\* Asked for help, or called in a way it doesn't understand: it explains itself and does nothing else
Explain == /\ step = "usage" /\ step' = "end"
           /\ out' = (IF job.wrong = "help" THEN <<>> ELSE << Text_("Error: "), AnyText, Text_(LF) >>) \o Usage
           /\ code' = (IF job.wrong = "help" THEN 0 ELSE 255)
           /\ UNCHANGED <<docvars, job, fi, disk, tn, sofar, results, hasn>>
Open == /\ step = "open"
        /\ IF File \in DOMAIN disk
           THEN FreshNext(disk[File]) /\ step' = "read" /\ UNCHANGED <<out, code>>
           ELSE Abort /\ UNCHANGED docvars
        /\ UNCHANGED <<job, fi, disk, tn, sofar, results, hasn>>
ReadOn == step = "read" /\ Read /\ UNCHANGED kitvars
\* Only what could be read completely, and without an error, is worked on
Check == /\ step = "read" /\ phase = "done"
         /\ IF Kind # "full" THEN Abort
            ELSE IF DOMAIN job.cmd # {} THEN step' = "get" /\ UNCHANGED <<out, code>>
            ELSE out' = out \o Complain \o <<Text_(LF)>> \o Usage /\ code' = 255 /\ step' = "end"      \* nothing to do
         /\ UNCHANGED <<docvars, job, fi, disk, tn, sofar, results, hasn>>

After == ("get" :> "has") @@ ("has" :> "ch") @@ ("ch" :> "hasch") @@ ("hasch" :> "set")
Failed == \E n \in 1..Len(results) : ~results[n].ok
Wanted(c) == c \in DOMAIN job.cmd /\ ~Failed
Command(c, r(_)) ==
  /\ step = c
  /\ results' = IF Wanted(c) THEN Append(results, r(Fields(job.cmd[c]))) ELSE results
  /\ hasn' = IF c = "has" /\ Wanted(c) THEN Len(Fields(job.cmd[c])) ELSE hasn
  /\ step' = After[c]
  /\ UNCHANGED <<docvars, job, fi, disk, tn, sofar, out, code>>
Commands == Command("get", Get) \/ Command("has", Has) \/ Command("ch", Children) \/ Command("hasch", HasChildren)

\* Setting, one triple of key, value and type after the other
Triples == Fields(job.cmd["set"])
SetDone(r) == /\ results' = Append(results, r) /\ step' = IF r.ok THEN "write" ELSE "print"
              /\ UNCHANGED <<job, fi, disk, tn, sofar, hasn, out, code>>
NoSet == step = "set" /\ ~Wanted("set") /\ step' = "print" /\ UNCHANGED <<docvars, job, fi, disk, tn, sofar, results, hasn, out, code>>
SetWrong == /\ step = "set" /\ Wanted("set") /\ (Triples = <<>> \/ Len(Triples) % 3 # 0)
            /\ SetDone(Err) /\ UNCHANGED docvars
SetNext ==
  /\ step = "set" /\ Wanted("set") /\ Triples # <<>> /\ Len(Triples) % 3 = 0 /\ 3 * tn <= Len(Triples)
  /\ LET key == Triples[3 * tn - 2]
         made == Typed(Triples[3 * tn - 1], Triples[3 * tn])
     IN IF made.ok /\ SetOk(key, made.v)
        THEN /\ (SetInPlace(key, made.v) \/ SetReshape(key, made.v))
             /\ tn' = tn + 1 /\ sofar' = Append(sofar, "Success")
             /\ UNCHANGED <<job, fi, step, disk, results, hasn, out, code>>
        ELSE SetDone(Err) /\ UNCHANGED docvars
SetAll == /\ step = "set" /\ Wanted("set") /\ Triples # <<>> /\ Len(Triples) % 3 = 0 /\ 3 * tn > Len(Triples)
          /\ SetDone(Ok(IF Flag("quiet") THEN "" ELSE Join(sofar, Sep))) /\ UNCHANGED docvars
CannotWrite == /\ step = "write" /\ Opt("output-file", File) \in job.nowrite
               /\ Abort
               /\ UNCHANGED <<docvars, job, fi, disk, tn, sofar, results, hasn>>
Write == /\ step = "write" /\ Opt("output-file", File) \notin job.nowrite
         /\ disk' = (Opt("output-file", File) :> Display) @@ disk
         /\ step' = "print"
         /\ UNCHANGED <<docvars, job, fi, tn, sofar, results, hasn, out, code>>
PrintAll ==
  LET shown(n) == IF results[n].ok THEN <<Text_(results[n].s)>> ELSE Complain
      f(n) == (IF n > 1 THEN <<Text_(Sep)>> ELSE <<>>) \o shown(n)
  IN /\ step = "print"
     /\ out' = out \o SeqSum(f, Len(results)) \o <<Text_(LF)>>
                   \o (IF Flag("print-doc") THEN <<Text_(Display), Text_(LF)>> ELSE <<>>)
     /\ IF fi < Len(job.files) THEN fi' = fi + 1 /\ step' = "open" ELSE fi' = fi /\ step' = "end"
     /\ results' = <<>> /\ tn' = 1 /\ sofar' = <<>> /\ hasn' = 0
     /\ UNCHANGED <<docvars, job, disk, code>>

KitNext == Explain \/ Open \/ ReadOn \/ Check \/ Commands \/ NoSet \/ SetWrong \/ SetNext \/ SetAll \/ CannotWrite \/ Write \/ PrintAll

-----------------------------------------------------------------------------
\* What's promised

\* A file only ever changes by Write: after everything was set, to what is
\* then displayed; and the input only if there's no other file for output.
WritesOnly == disk' # disk =>
   /\ step = "write" /\ ~Failed /\ tn = Len(Triples) \div 3 + 1
   /\ \E n \in {Opt("output-file", File)} : n \in DOMAIN disk' /\ disk'[n] = Display
                                            /\ \A m \in DOMAIN disk \ {n} : m \in DOMAIN disk' /\ disk'[m] = disk[m]
\* What is written has the values that were set, if nothing around them was set later
WritesWhatWasSet == step = "write" =>
   \A n \in 1..(Len(Triples) \div 3) :
      \/ GetValue(Triples[3 * n - 2]) = Typed(Triples[3 * n - 1], Triples[3 * n]).v
      \/ \E m \in (n + 1)..(Len(Triples) \div 3) : Within(Triples[3 * m - 2], Triples[3 * n - 2])
\* A document that isn't right is never touched
RejectsBad == (step \in {"get", "has", "ch", "hasch", "set", "write", "print"}) => errs = <<>> /\ Left = ""
ExitCodes == code \in {0, 255} /\ (code = 255 => step = "end")
\* Reading commands leave the document alone
ReadsOnly == (step \in {"get", "has", "ch", "hasch"} /\ step' # step) => UNCHANGED docvars /\ disk' = disk
=============================================================================
