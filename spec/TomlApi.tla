------------------------------- MODULE TomlApi ------------------------------
(***************************************************************************)
(* The operations on a parsed document.  Looking something up changes      *)
(* nothing; setting a value changes one written value, or nothing.         *)
(***************************************************************************)
EXTENDS TomlDocument

\* A value can be put where there is one
SetOk(key, p) == Lookup(key) # {} /\ Valid(p)
SetTo(key, p) == LET f == Found(key)
                     x == nodes[f.p].x
                 IN [pieces EXCEPT ![x] = [@ EXCEPT !.v = PutAt(@, f.ix, Assigned(f.w, p))]]

SetInPlace(key, p) ==       \* the shape stays: the formatting does as well
  /\ phase = "done" /\ SetOk(key, p) /\ SameShape(Found(key).w, p)
  /\ pieces' = SetTo(key, p)
  /\ UNCHANGED <<text, pos, line, nodes, cur, bad, errs, phase>>
SetReshape(key, p) ==       \* the value is written anew
  /\ phase = "done" /\ SetOk(key, p) /\ ~SameShape(Found(key).w, p)
  /\ pieces' = SetTo(key, p)
  /\ UNCHANGED <<text, pos, line, nodes, cur, bad, errs, phase>>
SetRefused(key, p) ==
  /\ phase = "done" /\ ~SetOk(key, p)
  /\ UNCHANGED docvars
Set(key, p) == SetInPlace(key, p) \/ SetReshape(key, p) \/ SetRefused(key, p)

\* parse() begins anew, whatever there was; here with a given document, or with what's displayed
Parse(doc) == phase = "done" /\ FreshNext(doc)
Reparse    == phase = "done" /\ FreshNext(Display)

-----------------------------------------------------------------------------
\* What setting a value means (action properties)

Within(key, p) == p = key \/ HasPrefix(p, key \o ".") \/ HasPrefix(p, key \o "[")
\* after an accepted set the key has that value, and its parts are its children
SetMeansGet(key, p) == SetOk(key, p) => GetValue(key)' = p /\ GetChildren(key)' = KidsOfValue(Default(p))
\* what's neither above nor below the key is as before, and so is all formatting around the value
SetFrame(key, p) ==
  LET apart(q) == ~Within(key, q) /\ ~Within(q, key)
  IN /\ \A before \in {Walk}, after \in {Walk'} :
          /\ \A q \in DOMAIN before : apart(q) => q \in DOMAIN after /\ after[q] = before[q]
          /\ \A q \in DOMAIN after : apart(q) => q \in DOMAIN before
     /\ \A n \in 1..Len(pieces) : pieces'[n].pre = pieces[n].pre /\ pieces'[n].post = pieces[n].post
     /\ Cardinality({n \in 1..Len(pieces) : pieces'[n] # pieces[n]}) <= 1
\* a same-shaped value leaves everything but the scalars themselves as written
RECURSIVE Skeleton(_)
Skeleton(w) == IF IsNested(w) THEN [w EXCEPT !.items = [n \in 1..Len(w.items) |-> [w.items[n] EXCEPT !.v = Skeleton(w.items[n].v)]]]
               ELSE [t |-> "scalar"]
FormatKept(key, p) == SetOk(key, p) /\ SameShape(Found(key).w, p) => Skeleton(Found(key).w)' = Skeleton(Found(key).w)
=============================================================================
