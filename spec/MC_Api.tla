------------------------------- MODULE MC_Api -------------------------------
(***************************************************************************)
(* All histories of up to Depth set operations on a few documents, and a   *)
(* reparse of what is then displayed.  What setting promises is checked as *)
(* action properties; the histories are printed to be replayed on the real *)
(* parser.                                                                 *)
(***************************************************************************)
EXTENDS TomlApi, IOUtils

Depth == atoi(IOEnv.DEPTH)
Part  == atoi(IOEnv.PART)       \* of the histories' second and later operations, those that are Part modulo Parts
Parts == atoi(IOEnv.PARTS)

VARIABLES ops,     \* the operations so far: sequence of [key, val]
          n,       \* their number, in a numbering of all of them
          pick,    \* the key to be set next, or no key
  was      \* what there was before the reparse

Documents ==
  << "a = 1 # c\n\tb = [ 1, 2 ]\n",
     "[t]\nx = { y = 'q' , z = [1,\n 2] } # e\n[[u]]\nv = \"s\"\n",
     "a = [ [1], [ 2,3 ] , ]\nb = {c={d=1}}",
     "x = {a=1,a=[2]}\nx=3\n[t]\ny=1\n[t]\nz=2",
     "a = 1979-05-27\r\n# c\r\nb = [] \r\n c = {} \r\nd = \n",
     "a = [{b=1}, {b = [2 , 3], c='x'}]\n[[p]]\nq=1\n[[p]]\nq=[true]\n[p.r]\ns=1.5" >>
Num(x) == [t |-> "int", v |-> x]
Arr(s) == [t |-> "arr", a |-> s]
It(s)  == [t |-> "it", m |-> s]
Values ==
  << Num("7"), Num("7x"), [t |-> "bs", v |-> "n\\\""], [t |-> "bs", v |-> "\""], [t |-> "mls", v |-> "1\n'2"], [t |-> "bool", v |-> "false"],
     [t |-> "dt", d |-> [NoDate EXCEPT !.y = "2000", !.mo = "02", !.d = "29"]],
     [t |-> "dt", d |-> [NoDate EXCEPT !.y = "2001", !.mo = "02", !.d = "29"]],
     Arr(<<>>), Arr(<<Num("8"), Num("9")>>), Arr(<<Arr(<<Num("8")>>), Arr(<<Num("9"), Num("10")>>)>>), Arr(<<Num("1_")>>), Arr(<<Num("8"), [t |-> "bool", v |-> "true"]>>),
     It(<<>>), It(<< <<"a", Num("5")>> >>), It(<< <<"y", Num("5")>>, <<"z", Arr(<<Num("6"), Num("7")>>)>> >>), It(<< <<"c", It(<< <<"d", Arr(<<>>)>> >>)>> >>),
     It(<< <<"a", Num("1")>>, <<"a", Num("2")>> >>), It(<< <<"a b", Num("1")>> >>) >>
Keys_ == SetToSeq(DOMAIN Walk \cup {"nope", "a[9]", "t.nope", "b.", "a[0", "b[00]", "[0]"})

vars == <<docvars, ops, n, pick, was>>
Init == \E d \in ToSet(Documents) : Fresh(d) /\ ops = <<>> /\ n = 0 /\ pick = <<>> /\ was = <<>>
Reading_ == Read /\ UNCHANGED <<ops, n, pick, was>>
Pick == /\ phase = "done" /\ Len(ops) < Depth /\ was = <<>> /\ pick = <<>>
        /\ \E ks \in {Keys_} : \E k \in 1..Len(ks) : pick' = <<ks[k]>> /\ n' = (n * 7 + k * 31) % 10007
        /\ UNCHANGED <<docvars, ops, was>>
SetOne == /\ pick # <<>>
          /\ \E v \in 1..Len(Values) :
               /\ n' = n + v
               /\ ops = <<>> \/ n' % Parts = Part
               /\ Set(pick[1], Values[v])
               /\ ops' = Append(ops, [key |-> pick[1], val |-> Values[v]])
          /\ pick' = <<>>
          /\ UNCHANGED was
ReparseAll == /\ phase = "done" /\ ops # <<>> /\ was = <<>> /\ pick = <<>>
              /\ Reparse /\ was' = Walk
              /\ PrintT("OPS " \o ToJson([doc |-> text.str, ops |-> ops]))
              /\ UNCHANGED <<ops, n, pick>>
Next == Reading_ \/ Pick \/ SetOne \/ ReparseAll

InvDoc == TypeOK /\ Tree /\ ValuesWritten /\ (phase = "done" => Navigable)
\* what is displayed is read back as what there was
InvReparse == (was # <<>> /\ phase = "done") => Walk = was
Newest == ops'[Len(ops')]
SetOps == [][Len(ops') > Len(ops) =>
               \A o \in {Newest} : /\ SetMeansGet(o.key, o.val) /\ SetFrame(o.key, o.val) /\ FormatKept(o.key, o.val)
                                   /\ (~SetOk(o.key, o.val) => UNCHANGED docvars)]_vars
=============================================================================
