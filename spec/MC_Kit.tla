------------------------------- MODULE MC_Kit -------------------------------
(***************************************************************************)
(* All tomlkit jobs that combine a few documents, commands and options.    *)
(* What the tool promises is checked on all of them; they're printed to be *)
(* replayed with the real tool.                                            *)
(***************************************************************************)
EXTENDS TomlKit, IOUtils

Part  == atoi(IOEnv.PART)
Parts == atoi(IOEnv.PARTS)

Good == "a = 1 # c\nb = [ 'x', \"y\" ]\n[t]\nc = {d = 1}\n"
Good2 == "b = 2000-01-01\n[[t]]\nc=1.5\n[[t]]\nd=[]"
BadEnd == "a = 1\nb = [\n"
BadKey == "a = 1\na = 2\n"

Disks == << << <<"d.toml", Good>> >>, << <<"d.toml", Good2>> >>, << <<"d.toml", BadEnd>> >>, << <<"d.toml", BadKey>> >>,
            << <<"d.toml", Good>>, <<"e.toml", Good2>> >>, << <<"d.toml", Good2>>, <<"e.toml", BadEnd>> >>, << <<"d.toml", Good>>, <<"out.toml", "old\n">> >> >>
Reads == << <<>>, << <<"get", "a">> >>, << <<"get", "b,nope">> >>, << <<"has", "a,t,b[0]">> >>, << <<"ch", "t,b">> >>, << <<"ch", "a">> >>, << <<"hasch", "t,a,t.c">> >>,
            << <<"get", "b">>, <<"has", "t.c,b">>, <<"ch", "t">>, <<"hasch", "b,a">> >>, << <<"has", "a">>, <<"hasch", "t,nope">> >> >>
Sets == << "", "a,2,int", "b,2001-01-01T01:02:03Z,dt", "a,x,int", "a,5,int,nope,1,int", "a,5,int,b,true,bool", "b[1],z,ls,a,q,bs", "a,1", "t,1,int", "t.c,x\"y,bs", "t[0].c,2.5,flt,b,x y,mls,t[0].c,-1e5,float", "a,1,integer,a,2,integer", "b,,bs" >>
Opts == << <<>>, << <<"output-file", "out.toml">> >>, << <<"quiet", "">>, <<"print-doc", "">> >>, << <<"separator", "|">>, <<"set-true", "y,z,w">>, <<"array-begin", "(">> >>,
           << <<"set-false", "n,m">>, <<"array-length", "">>, <<"array-separator", ";">>, <<"strip-quotes", "">>, <<"output-file", "d.toml">> >>,
           << <<"output-file", "no/out.toml">>, <<"print-doc", "">> >> >>

MapOf(l) == [k \in {l[n][1] : n \in 1..Len(l)} |-> LET n == CHOOSE j \in 1..Len(l) : l[j][1] = k IN l[n][2]]
Files(dk) == SelectSeq([n \in 1..Len(dk) |-> dk[n][1]], LAMBDA x : x # "out.toml")

\* Every way to combine them, no command at all among them; wrong calls are made with a few
Wrongs(d, r, s, o) == {""} \cup (IF (d + r + s + o) % 5 = 0 THEN {"help", "call"} ELSE {})
NoWrite == {"no/out.toml"}
Init == \E d \in 1..Len(Disks), r \in 1..Len(Reads), s \in 1..Len(Sets), o \in 1..Len(Opts) : \E w \in Wrongs(d, r, s, o) :
          LET cmd == Reads[r] \o (IF Sets[s] = "" THEN <<>> ELSE << <<"set", Sets[s]>> >>)
          IN /\ (d * 29 + r * 5 + s * 13 + o) % Parts = Part
             /\ Start([files |-> Files(Disks[d]), cmd |-> MapOf(cmd), opt |-> MapOf(Opts[o]), nowrite |-> NoWrite, wrong |-> w], MapOf(Disks[d]))
             /\ PrintT("JOB " \o ToJson([files |-> Files(Disks[d]), cmd |-> cmd, opt |-> Opts[o], nowrite |-> NoWrite, wrong |-> w, disk |-> Disks[d]]))
Next == KitNext

Inv == RejectsBad /\ ExitCodes /\ WritesWhatWasSet
Promises == [][WritesOnly /\ ReadsOnly]_<<docvars, kitvars>>
\* every job comes to its end
Ends == step = "end" \/ ENABLED Next
=============================================================================
