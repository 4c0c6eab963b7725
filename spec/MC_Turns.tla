------------------------------ MODULE MC_Turns ------------------------------
(***************************************************************************)
(* All histories of Depth operations on two parsers taking turns: parsing  *)
(* one of a few documents, setting, keeping what's handed out, dropping    *)
(* the parser for a new one, reparsing what's displayed, going on with the *)
(* other one.  They are printed to be replayed on real parsers.            *)
(***************************************************************************)
EXTENDS TomlPair, IOUtils

Depth == atoi(IOEnv.DEPTH)
Part  == atoi(IOEnv.PART)       \* of the histories' second and later operations, those that are Part modulo Parts
Parts == atoi(IOEnv.PARTS)

VARIABLES ops,    \* the operations so far
          n,      \* their number, in a numbering of all of them
          other,  \* the other parser
          mem,    \* what was handed out, and kept
          first   \* what each text was read as the first time, by text

vars == <<docvars, ops, n, other, mem, first>>

Documents ==
  << "a = 1\nb = [1, 2]\n",
     "a = 2 # c\n[t]\nb = {c = 3}\n[[u]]\n[[u]]\n",
     "a = 1\na = [1, true]\n[t]\n[t]\nb = 2000-02-30\n\nx",
     "x",
     "" >>
Num(x) == [t |-> "int", v |-> x]
Values == << Num("7"), Num("7x"), [t |-> "arr", a |-> <<Num("8"), Num("9")>>], [t |-> "it", m |-> << <<"c", Num("5")>> >>] >>
SetKeys == <<"a", "b", "b[0]", "t.b", "t.b.c">>
Handable == << [k |-> "res", key |-> ""], [k |-> "get", key |-> "a"], [k |-> "get", key |-> "b"], [k |-> "ch", key |-> ""], [k |-> "ch", key |-> "b"], [k |-> "ch", key |-> "u"] >>
Handed(o) == CASE o.k = "get" -> GetValue(o.key) [] o.k = "ch" -> GetChildren(o.key) [] o.k = "res" -> Result

Init == /\ text = Txt("") /\ pos = 1 /\ line = 1 /\ pieces = <<>> /\ nodes = EmptyNodes /\ cur = "" /\ bad = 0 /\ errs = <<>> /\ phase = "done"
        /\ ops = <<>> /\ n = 0 /\ other = Unused /\ mem = <<>> /\ first = <<>>

Content == <<Result, Walk, Display>>
Reading_ == /\ Read
            /\ first' = IF phase' = "done" /\ text.str \notin DOMAIN first THEN (text.str :> Content') @@ first ELSE first
            /\ UNCHANGED <<ops, n, other, mem>>

\* the next operation, the x-th of those there may be; a document is parsed first
Next_(x, o) == /\ phase = "done" /\ Len(ops) < Depth
               /\ ops # <<>> \/ o.op = "parse"
               /\ n' = (n * 13 + x * 7 + 5) % 10007
               /\ ops = <<>> \/ n' % Parts = Part
               /\ ops' = Append(ops, o)
               /\ Len(ops') < Depth \/ PrintT("OPS " \o ToJson(ops'))
Quiet == UNCHANGED <<other, mem, first>>
ParseOne == \E d \in 1..Len(Documents) : Next_(d, [op |-> "parse", doc |-> Documents[d]]) /\ Parse(Documents[d]) /\ Quiet
ReparseIt == text.str # "" /\ Next_(6, [op |-> "reparse"]) /\ Reparse /\ Quiet
NewOne == Next_(7, [op |-> "new"]) /\ Become(Unused) /\ Quiet
Switch == Next_(8, [op |-> "switch"]) /\ Become(other) /\ other' = This /\ UNCHANGED <<mem, first>>
KeepOne == \E h \in 1..Len(Handable) :
             /\ Handable[h].k = "res" => text.str # ""
             /\ Next_(8 + h, [op |-> "keep"] @@ Handable[h])
             /\ mem' = Append(mem, Handed(Handable[h]))
             /\ UNCHANGED <<docvars, other, first>>
SetOne == \E k \in 1..Len(SetKeys), v \in 1..Len(Values) :
            /\ v = 1 \/ Lookup(SetKeys[k]) # {}
            /\ phase = "done" /\ Next_(20 + 4 * k + v, [op |-> "set", key |-> SetKeys[k], val |-> Values[v]])
            /\ Set(SetKeys[k], Values[v]) /\ Quiet
\* a key is set to a value that was kept
PutOne == \E k \in 1..Len(SetKeys), m \in 1..Len(mem) :
            /\ "t" \in DOMAIN mem[m] /\ mem[m] # NoValue
            /\ Next_(50 + 3 * k + m, [op |-> "put", key |-> SetKeys[k], n |-> m])
            /\ Set(SetKeys[k], mem[m]) /\ Quiet
Next == Reading_ \/ ParseOne \/ ReparseIt \/ NewOne \/ Switch \/ KeepOne \/ SetOne \/ PutOne

InvDoc == TypeOK /\ Tree /\ ValuesWritten /\ (phase = "done" => Navigable)
\* the other parser stays as it was, until they take turns
Apart == [][other' = other \/ (other' = This /\ This' = other)]_vars
\* what was handed out stays as it was
Kept == [][Len(mem') >= Len(mem) /\ \A m \in 1..Len(mem) : mem'[m] = mem[m]]_vars
\* a text is read as it was the first time, whatever happened before
AsTheFirst == [][phase = "read" /\ phase' = "done" /\ text.str \in DOMAIN first => first[text.str] = Content']_vars
=============================================================================
