------------------------------ MODULE TraceKit ------------------------------
(***************************************************************************)
(* Recorded runs of the tomlkit binary checked against TomlKit: what it    *)
(* printed, how it exited, and what the files contain afterwards.          *)
(***************************************************************************)
EXTENDS TomlKit, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES id, fin
tvars == <<docvars, kitvars, id, fin>>
T == Traces[id]

MapOf(l) == [k \in {l[n][1] : n \in 1..Len(l)} |-> LET n == CHOOSE j \in 1..Len(l) : l[j][1] = k IN l[n][2]]
Job(t) == [files |-> t.files, cmd |-> MapOf(t.cmd), opt |-> MapOf(t.opt), nowrite |-> ToSet(t.nowrite), wrong |-> t.wrong]

Say(asp, want) == PrintT("MM " \o ToJson([id |-> id, op |-> 0, asp |-> asp, ctx |-> "kit", want |-> want]))
Agree(ok, asp, want) == IF ok THEN TRUE ELSE Say(asp, want)

\* Does the printed text consist of these pieces?
RECURSIVE Match(_, _, _)
Match(s, i, ps) ==
  IF ps = <<>> THEN AtEnd(s, i)
  ELSE IF ps[1].k = "txt" THEN StartsWith(s, i, ps[1].s) /\ Match(s, i + Len(ps[1].s), Tail(ps))
  ELSE IF ps[1].k = "rest" THEN TRUE
  ELSE Match(s, Until(s, i, {LF}), Tail(ps))

Init == \E n \in 1..Len(Traces) : id = n /\ fin = FALSE /\ Start(Job(Traces[n]), MapOf(Traces[n].disk))
Compare ==
  /\ step = "end" /\ ~fin /\ fin' = TRUE
  /\ Agree(T.code # -1, "panic", out)
  /\ Agree(T.code = code \/ T.code = -1, "kit.code", code)
  /\ Agree(Match(Txt(T.out), 1, out), "kit.out", out)
  /\ LET after == MapOf(T.after) IN
     /\ Agree(DOMAIN after = DOMAIN disk, "kit.disk", disk)
     /\ \A f \in DOMAIN after \cap DOMAIN disk :
          Agree(after[f] = disk[f],
                IF f \in DOMAIN MapOf(T.disk) /\ disk[f] = MapOf(T.disk)[f] THEN "kit.touched" ELSE "kit.file", disk[f])
  /\ PrintT("DONE " \o ToString(id))
  /\ UNCHANGED <<docvars, kitvars, id>>
Next == (KitNext /\ UNCHANGED <<id, fin>>) \/ Compare
View == <<id, fin, fi, step, tn, phase, pos>>

TraceInv == RejectsBad /\ ExitCodes /\ WritesWhatWasSet
Promises == [][WritesOnly /\ ReadsOnly]_tvars
=============================================================================
