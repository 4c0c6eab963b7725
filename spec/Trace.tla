-------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Recorded executions of tomllib checked against the specification.  Each *)
(* trace is a document, the result of parsing it, and a sequence of        *)
(* operations with what was observed.  A trace is one behaviour: the       *)
(* specification's own actions read the document and perform the           *)
(* operations; each observation is compared with what the specification    *)
(* says at that point.  Disagreements are printed with the aspect they     *)
(* concern, and the behaviour continues with the specified state, so that  *)
(* the rest of the trace is checked as well.  Every trace that was         *)
(* followed to its end prints DONE.                                        *)
(***************************************************************************)
EXTENDS TomlPair, TomlCtor, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES id,    \* which trace
          op,    \* the operation to be performed next
          pend,  \* the parse whose result is to be compared: 0 the first, n that of operation n, -1 none
          ctx,   \* what happened last to the parser: "new", "parse", "inplace", "reshape", "refused", "parse2", "reparse", "shown"
          key,   \* the key that was last set
          other, \* the other parser there is: [d, ctx, key], d being its document's variables
          mem,   \* what was handed out, and kept
          seen   \* disagreements so far

tvars == <<docvars, id, op, pend, ctx, key, other, mem, seen>>
T == Traces[id]

\* A disagreement is [a: aspect, r: relation to the key last set, p: of which key, w: what's specified (as text)].
\* One that has been there before isn't said again.
Dis(a, p, w) == [a |-> a, r |-> "", p |-> p, w |-> ToJson(w)]
Disagree(ok, a, p, w) == IF ok THEN {} ELSE {Dis(a, p, w)}
Same(d, e) == d.a = e.a /\ d.p = e.p /\ d.w = e.w
News(ds) == {d \in ds : ~\E e \in seen : Same(d, e)}
Say(n, ds) == \A a \in {d.a \o d.r : d \in ds} :
                PrintT("MM " \o ToJson([id |-> id, op |-> n, asp |-> a, ctx |-> ctx,
                                         want |-> LET m == {d \in ds : d.a \o d.r = a}
                                                  IN [p \in {d.p : d \in m} |-> (CHOOSE d \in m : d.p = p).w]]))
Tell(n, ds) == \E x \in {ds} : IF x = {} THEN seen' = seen ELSE Say(n, News(x)) /\ seen' = seen \cup x

-----------------------------------------------------------------------------
\* Results of parsing

SelIdx(s, Test(_)) == SelectSeq([n \in 1..Len(s) |-> n], LAMBDA n : Test(s[n]))
MapOf(l) == [k \in {l[n][1] : n \in 1..Len(l)} |-> LET n == CHOOSE j \in 1..Len(l) : l[j][1] = k IN l[n][2]]
Body(o) == IF o.b.e = "table" THEN [o.b EXCEPT !.m = MapOf(@)] ELSE o.b
ErrorTypes == {"mixed", "dt", "dup", "table"}

CompareErrors(obs, want) ==
  LET ob == [j \in 1..Len(obs) |-> Body(obs[j])]
      Alike(t) == LET ei == SelIdx(want, LAMBDA x : x.b.e = t)
                      oi == SelIdx(ob, LAMBDA x : x.e = t)
                  IN /\ Len(ei) = Len(oi)
                     /\ \A j \in 1..Len(ei) :
                          Cardinality({a \in 1..Len(ei) : want[ei[a]].b = want[ei[j]].b})
                            = Cardinality({a \in 1..Len(oi) : ob[oi[a]] = want[ei[j]].b})
      \* the error that was to be, for the j-th; 0 if there's none
      For(j) == LET eq == SelIdx(want, LAMBDA x : x.b = ob[j])
                    nth == Cardinality({a \in 1..j : ob[a] = ob[j]})
                IN IF nth <= Len(eq) THEN eq[nth] ELSE 0
      whose == [j \in 1..Len(ob) |-> For(j)]
      LinesOk == \A j \in 1..Len(ob) : whose[j] # 0 => want[whose[j]].lo <= obs[j].l /\ obs[j].l <= want[whose[j]].hi
      \* those of an expression after those of the expressions before it; within an expression, in any order
      InOrder == \A j \in 2..Len(ob) : whose[j - 1] # 0 /\ whose[j] # 0 => want[whose[j - 1]].lo <= want[whose[j]].lo
  IN UNION {Disagree(Alike(t), "errs." \o t, "", SelectSeq(want, LAMBDA x : x.b.e = t)) : t \in ErrorTypes}
     \cup Disagree(\A j \in 1..Len(ob) : ob[j].e \in ErrorTypes, "errs.other", "", want)
     \cup Disagree(LinesOk, "errs.line", "", want)
     \cup Disagree(InOrder, "errs.order", "", want)

Broken_ == {"panic", "hang", "notrun"}
CompareResult(r, w) ==
  IF r.r \in Broken_ THEN {Dis("panic", "", w.kind)}
  ELSE Disagree(r.r = w.kind, "res.kind", "", w.kind)
       \cup Disagree(r.left = w.left, "res.left", "", w.left)
       \cup Disagree(r.l = (IF r.r \in {"full", "fullerr"} THEN 0 ELSE w.line), "res.line", "", w.line)
       \cup CompareErrors(r.e, w.errs)

-----------------------------------------------------------------------------
\* Observations

ObservedWalk(l) == FoldLeft(LAMBDA f, x : (x.p :> [g |-> x.g, c |-> x.c]) @@ f, <<>>, l)

Rel(p) == IF ctx \notin {"inplace", "reshape", "refused"} THEN "" ELSE IF Within(key, p) THEN ".own" ELSE IF Within(p, key) THEN ".above" ELSE ".apart"
At_(a, p, w) == [Dis(a, p, w) EXCEPT !.r = Rel(p)]
CompareWalk(l) ==
  LET o == ObservedWalk(l)
      w == Walk
      all == DOMAIN o \cup DOMAIN w
      g == {p \in all : IF p \in DOMAIN o /\ p \in DOMAIN w THEN o[p].g # w[p].g
                        ELSE IF p \in DOMAIN o THEN o[p].g # NoValue ELSE w[p].g # NoValue}
      c == {p \in all : IF p \in DOMAIN o /\ p \in DOMAIN w THEN o[p].c # w[p].c ELSE TRUE}
  IN IF o = w THEN {}
     ELSE {At_("walk.get", p, IF p \in DOMAIN w THEN w[p].g ELSE NoValue) : p \in g}
          \cup {At_("walk.ch", p, IF p \in DOMAIN w THEN w[p].c ELSE NoKids) : p \in c}

Combined(k, c) == CASE c.c = "none"  -> <<>>
                    [] c.c = "keys"  -> [n \in 1..Len(c.ks) |-> Sub(k, c.ks[n])]
                    [] c.c = "count" -> [n \in 1..c.n |-> Elem(k, n - 1)]

\* What's handed out: a value, children, or the result of the last parse
Handed(o) == CASE o.k = "get" -> GetValue(o.key)
               [] o.k = "ch"  -> GetChildren(o.key)
               [] o.k = "res" -> Result
CompareHanded(o, v) == IF o.k = "res" THEN CompareResult(v, Result)
                       ELSE LET w == Handed(o) IN IF v = w THEN {} ELSE {At_(o.k, o.key, w)}

Observe(o, v) ==
  CASE o.op = "get"  -> LET w == GetValue(o.key) IN IF v = w THEN {} ELSE {At_("get", o.key, w)}
    [] o.op = "ch"   -> LET w == GetChildren(o.key) IN IF v = w THEN {} ELSE {At_("ch", o.key, w)}
    [] o.op = "kids" -> LET c == GetChildren(o.key)
                            w == [c |-> c.c, ks |-> Combined(o.key, c)]
                        IN Disagree(v = w, "kids", o.key, w)
    [] o.op = "same" -> LET w == [v |-> GetValue(o.key) = GetValue(o.key2), c |-> GetChildren(o.key) = GetChildren(o.key2)]
                        IN Disagree(v = w, "same", o.key \o " " \o o.key2, w)
    [] o.op = "disp" -> Disagree(v = Display, "disp", "", Display)
                        \cup Disagree(ctx # "parse" \/ T.res.r \in Broken_ \/ v \o T.res.left = T.doc, "lossless", "", Display \o Left)
    [] o.op = "recall" -> Disagree(v = mem[o.n], "recall", ToString(o.n), mem[o.n])
    [] o.op = "ctor" -> LET w == Construct(o.f, o.a) IN Disagree(v = w, "ctor", "", w)
    [] o.op = "part" -> LET w == PartBy(o.f, o.a) IN Disagree(v = w, "part", "", w)
    [] o.op = "show" -> LET w == [s |-> Show(o.val), valid |-> Valid(o.val)] IN Disagree(v = w, "show", "", w)
    [] o.op = "eq"   -> LET w == Equal(o.val, o.val2) IN Disagree(v = w, "eq", "", w)
    [] o.op = "walk" -> CompareWalk(v)

-----------------------------------------------------------------------------

Init == \E n \in 1..Len(Traces) :
          /\ Fresh(Traces[n].doc)
          /\ id = n /\ op = 1 /\ pend = 0 /\ ctx = "parse" /\ key = ""
          /\ other = [d |-> Unused, ctx |-> "new", key |-> ""] /\ mem = <<>> /\ seen = {}

Reading_ == Read /\ UNCHANGED <<id, op, pend, ctx, key, other, mem, seen>>

Parsed == /\ phase = "done" /\ pend >= 0
          /\ Tell(pend, CompareResult(IF pend = 0 THEN T.res ELSE T.obs[pend].v, Result))
          /\ pend' = -1
          /\ UNCHANGED <<docvars, id, op, ctx, key, other, mem>>

Ready == phase = "done" /\ pend = -1 /\ op <= Len(T.ops) /\ op <= Len(T.obs) /\ T.obs[op].p = ""
O == T.ops[op]
V == T.obs[op].v
Pure == /\ Ready /\ O.op \in {"get", "ch", "kids", "same", "disp", "walk", "recall", "ctor", "part", "show", "eq"}
        /\ Tell(op, Observe(O, V))
        /\ op' = op + 1
        /\ UNCHANGED <<docvars, id, pend, ctx, key, other, mem>>
\* something that was handed out is kept, to be looked at again later
Keep == /\ Ready /\ O.op = "keep"
        /\ Tell(op, CompareHanded(O, V))
        /\ mem' = Append(mem, V)
        /\ op' = op + 1
        /\ UNCHANGED <<docvars, id, pend, ctx, key, other>>
DoSet(how, A) == /\ A
                 /\ IF IF O.op = "set" THEN V = (how # "refused") ELSE V.r = (IF how = "refused" THEN "no" ELSE "yes") THEN TRUE ELSE Say(op, {Dis("set", O.key, how)})
                 /\ ctx' = how /\ key' = O.key /\ op' = op + 1
                 /\ UNCHANGED <<id, pend, other, mem, seen>>
\* (the value is given, that of a key, or one that was kept)
Setting == Ready /\ O.op \in {"set", "copy", "put"}
SetVal == CASE O.op = "set" -> O.val [] O.op = "copy" -> GetValue(O.from) [] O.op = "put" -> mem[O.n]
SetInPlace_ == Setting /\ SetVal # NoValue /\ DoSet("inplace", SetInPlace(O.key, SetVal))
SetReshape_ == Setting /\ SetVal # NoValue /\ DoSet("reshape", SetReshape(O.key, SetVal))
SetRefused_ == Setting /\ SetVal # NoValue /\ DoSet("refused", SetRefused(O.key, SetVal))
SetNothing == /\ Setting /\ SetVal = NoValue
              /\ Tell(op, Disagree(V.r = "none", "set", O.key, "none"))
              /\ op' = op + 1
              /\ UNCHANGED <<docvars, id, pend, ctx, key, other, mem>>
Begin(how, A) == /\ A
                 /\ ctx' = how /\ key' = "" /\ pend' = op /\ op' = op + 1
                 /\ UNCHANGED <<id, other, mem, seen>>
Parse_   == Ready /\ O.op = "parse" /\ Begin("parse2", Parse(O.doc))
Reparse_ == Ready /\ O.op = "reparse" /\ Begin("reparse", Reparse)
\* a value's display put after "k = " and parsed
ShowParse_ == Ready /\ O.op = "showparse" /\ Begin("shown", Parse("k = " \o Show(O.val)))
\* the parser is dropped, and there's a new one, that has parsed nothing
New_ == /\ Ready /\ O.op = "new" /\ Become(Unused)
        /\ ctx' = "new" /\ key' = "" /\ op' = op + 1
        /\ UNCHANGED <<id, pend, other, mem, seen>>
\* on with the other parser
Switch == /\ Ready /\ O.op = "switch" /\ Become(other.d)
          /\ other' = [d |-> This, ctx |-> ctx, key |-> key] /\ ctx' = other.ctx /\ key' = other.key
          /\ op' = op + 1
          /\ UNCHANGED <<id, pend, mem, seen>>

\* An operation that panicked or didn't return: nothing was observed from there on
Broken == /\ phase = "done" /\ pend = -1 /\ op <= Len(T.ops)
          /\ IF op <= Len(T.obs) THEN T.obs[op].p # "" /\ Say(op, {Dis("panic", "", O)}) ELSE TRUE
          /\ op' = Len(T.ops) + 1
          /\ UNCHANGED <<docvars, id, pend, ctx, key, other, mem, seen>>
Finished == /\ phase = "done" /\ pend = -1 /\ op = Len(T.ops) + 1
            /\ PrintT("DONE " \o ToString(id))
            /\ op' = Len(T.ops) + 2
            /\ UNCHANGED <<docvars, id, pend, ctx, key, other, mem, seen>>

Next == Reading_ \/ Parsed \/ Pure \/ Keep \/ SetInPlace_ \/ SetReshape_ \/ SetRefused_ \/ SetNothing \/ Parse_ \/ Reparse_ \/ ShowParse_
        \/ New_ \/ Switch \/ Broken \/ Finished

\* A behaviour doesn't come back to the same point of its trace, so this tells its states apart
View == <<id, op, pend, phase, pos>>

\* The states of the real execution are states of the specification, whose invariants hold in each of them
\* (Of long documents in the states in which they've been read; the models check all states.)
TraceInv == (phase = "done" /\ pend >= 0) \/ (phase = "done" /\ ctx \in {"inplace", "reshape"}) \/ Size(text) < 300 =>
              TypeOK /\ Tree /\ ValuesWritten /\ (ctx \in {"new", "parse", "parse2", "reparse", "shown"} => Lossless /\ Lines /\ ErrorLines)
=============================================================================
