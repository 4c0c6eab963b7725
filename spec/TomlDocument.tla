----------------------------- MODULE TomlDocument ---------------------------
(***************************************************************************)
(* The parser as a state machine over one document: one action per         *)
(* expression (blank line, comment, key/value pair, table header, header   *)
(* of an array of tables), each of which consumes the expression and the   *)
(* newline after it, plus Stop, where nothing more can be read.            *)
(***************************************************************************)
EXTENDS TomlValue, FiniteSets, TLC

VARIABLES
  text,     \* the document, as [str, ch]
  pos,      \* where the next expression begins
  line,     \* the line pos is on
  pieces,   \* the document that was read: sequence of [pre, v, post], v being the value of a key/value pair
  nodes,    \* the tables, arrays of tables and values there are, by path:
            \*   [k = "tab", ex, el, kids]  ex: has a header of its own, el: is an element of an array of tables
            \*   [k = "aot", n]             n elements
            \*   [k = "val", x]             the value of pieces[x]
  cur,      \* path of the table that key/value pairs go into
  bad,      \* 0, or the error of the invalid table that they go into
  errs,     \* reported errors: sequence of [b, lo, hi], the body and the lines one of which it may carry
  phase     \* "read" or "done"

docvars == <<text, pos, line, pieces, nodes, cur, bad, errs, phase>>

TableNode(ex, el) == [k |-> "tab", ex |-> ex, el |-> el, kids |-> <<>>]
AotNode   == [k |-> "aot", n |-> 0]
ValNode(x) == [k |-> "val", x |-> x]
EmptyNodes == "" :> TableNode(TRUE, FALSE)

Fresh(doc) == /\ text = Txt(doc) /\ pos = 1 /\ line = 1 /\ pieces = <<>> /\ nodes = EmptyNodes
              /\ cur = "" /\ bad = 0 /\ errs = <<>> /\ phase = "read"
FreshNext(doc) == /\ text' = Txt(doc) /\ pos' = 1 /\ line' = 1 /\ pieces' = <<>> /\ nodes' = EmptyNodes
                  /\ cur' = "" /\ bad' = 0 /\ errs' = <<>> /\ phase' = "read"

-----------------------------------------------------------------------------
\* Expressions

HeaderAt(s, i) ==
  LET a == IF Starts2(s, i, "[", "[") THEN KeyPath(s, Ws(s, i + 2), <<>>) ELSE [e |-> 0, ks |-> <<>>]
      ae == Ws(s, a.e)
      b == KeyPath(s, Ws(s, i + 1), <<>>)
      be == Ws(s, b.e)
  IN CASE a.e > 0 /\ Starts2(s, ae, "]", "]") -> [e |-> ae + 2, k |-> "aot", ks |-> a.ks]
       [] At(s, i) = "[" /\ b.e > 0 /\ At(s, be) = "]" -> [e |-> be + 1, k |-> "std", ks |-> b.ks]
       [] OTHER -> [e |-> 0, k |-> "", ks |-> <<>>]

KeyValAt(s, i) ==
  LET k == Key(s, i)
      q == Ws(s, k)
      b == Ws(s, q + 1)
      r == IF k > 0 /\ At(s, q) = "=" THEN ValueAt(s, b) ELSE NoMatch
  IN [e |-> r.e, key |-> Piece(s, i, k), b |-> b, v |-> r.v]

\* The expression at i: its kind, where it ends, and, if it has a value, where that begins (vb) and ends (ve)
ExpressionAt(s, i) ==
  LET w == Ws(s, i)
      c == At(s, w)
      h == HeaderAt(s, w)
      kv == KeyValAt(s, w)
      x == [kind |-> "blank", e |-> w, ks |-> <<>>, v |-> NoValue, vb |-> w, ve |-> w]
  IN IF c = "#" THEN [x EXCEPT !.kind = "comment", !.e = Comment(s, w)]
     ELSE IF c = "[" THEN IF h.e = 0 THEN x ELSE [x EXCEPT !.kind = h.k, !.e = WsComment(s, h.e), !.ks = h.ks]
     ELSE IF c \in BareChars \cup {DQ}
     THEN IF kv.e = 0 THEN x
          ELSE [x EXCEPT !.kind = "kv", !.e = WsComment(s, kv.e), !.ks = <<kv.key>>, !.v = kv.v, !.vb = kv.b, !.ve = kv.e]
     ELSE x

-----------------------------------------------------------------------------
\* Tables

Exists(p) == p \in DOMAIN nodes
\* The table a chain of keys leads to from table p: its path, and whether there can be such a table.
\* An array of tables stands for its last element.
RECURSIVE Lead(_, _)
Lead(p, ks) ==
  IF ks = <<>> THEN [p |-> p, ok |-> TRUE]
  ELSE LET c == Sub(p, ks[1])
           here == IF ~Exists(c) THEN c
                   ELSE IF nodes[c].k = "aot" THEN Elem(c, nodes[c].n - 1) ELSE c
           r == Lead(here, Tail(ks))
       IN [p |-> r.p, ok |-> r.ok /\ (Exists(c) => nodes[c].k # "val")]

HasDirectValue(p) == \E n \in 1..Len(nodes[p].kids) : nodes[Sub(p, nodes[p].kids[n])].k = "val"

Last_(ks)  == ks[Len(ks)]
Front_(ks) == SubSeq(ks, 1, Len(ks) - 1)
Target(ks) == Sub(Lead("", Front_(ks)).p, Last_(ks))
\* A table is defined once, by a header that no value stands in the way of.
\* Deliberate (or at least long-standing) deviation from TOML: a table that
\* directly contains a value, and is no element of an array, takes no
\* sub-tables by header.
StdOk(ks) == LET par == Lead("", Front_(ks))
                 t == Sub(par.p, Last_(ks))
             IN /\ par.ok
                /\ Exists(t) => nodes[t].k = "tab" /\ ~nodes[t].ex
                /\ ~(Len(ks) > 1 /\ Exists(par.p) /\ ~nodes[par.p].el /\ HasDirectValue(par.p))
AotOk(ks) == LET par == Lead("", Front_(ks))
                 t == Sub(par.p, Last_(ks))
             IN par.ok /\ (Exists(t) => nodes[t].k = "aot")

AddNode(nd, p, k, node) == (Sub(p, k) :> node) @@ [nd EXCEPT ![p].kids = Append(@, k)]
\* nd with the tables ks leads to from p, those that aren't there yet being implicit
RECURSIVE WithTables(_, _, _)
WithTables(nd, p, ks) ==
  IF ks = <<>> THEN nd
  ELSE LET c == Sub(p, ks[1])
           nd2 == IF c \in DOMAIN nd THEN nd ELSE AddNode(nd, p, ks[1], TableNode(FALSE, FALSE))
           here == IF nd2[c].k = "aot" THEN Elem(c, nd2[c].n - 1) ELSE c
       IN WithTables(nd2, here, Tail(ks))

-----------------------------------------------------------------------------
\* Reading one expression

EndsHere(x) == ~AtEnd(text, x.e) /\ Newline(text, x.e) > 0
NextPos(x) == IF EndsHere(x) THEN Newline(text, x.e) ELSE x.e
\* consume x and the newline after it; without one, this was the last expression
Consume(x) ==
  /\ pos' = NextPos(x)
  /\ line' = line + CountLF(text, pos, NextPos(x))
  /\ phase' = IF EndsHere(x) THEN "read" ELSE "done"
  /\ pieces' = Append(pieces,
       IF x.kind = "kv" THEN [pre |-> Piece(text, pos, x.vb), v |-> x.v, post |-> Piece(text, x.ve, NextPos(x))]
       ELSE [pre |-> Piece(text, pos, NextPos(x)), v |-> NoValue, post |-> ""])
  /\ UNCHANGED text
Report(x, bodies) ==
  [n \in 1..Len(bodies) |-> [b |-> bodies[n], lo |-> line, hi |-> line + CountLF(text, pos, x.e)]]

Blank(x)       == x.kind = "blank" /\ Consume(x) /\ UNCHANGED <<nodes, cur, bad, errs>>
CommentLine(x) == x.kind = "comment" /\ Consume(x) /\ UNCHANGED <<nodes, cur, bad, errs>>

\* A new key: the value enters the tree
KeyVal(x) ==
  /\ x.kind = "kv" /\ bad = 0
  /\ LET p == Sub(cur, x.ks[1])
     IN /\ ~Exists(p)
        /\ Consume(x)
        /\ nodes' = AddNode(nodes, cur, x.ks[1], ValNode(Len(pieces) + 1))
        /\ errs' = errs \o Report(x, ContentErrors(p, x.v) \o KeyErrors(p, x.v))
        /\ UNCHANGED <<cur, bad>>
\* A key that's there already: the value is reported and otherwise ignored
KeyValDuplicate(x) ==
  /\ x.kind = "kv" /\ bad = 0
  /\ LET p == Sub(cur, x.ks[1])
     IN /\ Exists(p)
        /\ Consume(x)
        /\ errs' = errs \o Report(x, ContentErrors(p, x.v) \o <<[e |-> "dup", k |-> p, val |-> Plain(x.v)]>>)
        /\ UNCHANGED <<nodes, cur, bad>>
\* In an invalid table: the value is only kept with the error
KeyValInvalid(x) ==
  /\ x.kind = "kv" /\ bad > 0
  /\ LET keep == [errs EXCEPT ![bad].b.m = (x.ks[1] :> Plain(x.v)) @@ @]
     IN /\ Consume(x)
        /\ errs' = keep \o Report(x, ContentErrors(Sub(errs[bad].b.k, x.ks[1]), x.v))
        /\ UNCHANGED <<nodes, cur, bad>>

StdTable(x) ==
  /\ x.kind = "std"
  /\ LET t == Target(x.ks)
     IN /\ StdOk(x.ks)
        /\ Consume(x)
        /\ nodes' = [WithTables(nodes, "", x.ks) EXCEPT ![t].ex = TRUE]
        /\ cur' = t /\ bad' = 0
        /\ UNCHANGED errs
ArrayTable(x) ==
  /\ x.kind = "aot"
  /\ LET t == Target(x.ks)
         par == Lead("", Front_(x.ks)).p
     IN /\ AotOk(x.ks)
        /\ Consume(x)
        /\ LET up == WithTables(nodes, "", Front_(x.ks))
               here == IF Exists(t) THEN up ELSE AddNode(up, par, Last_(x.ks), AotNode)
           IN /\ nodes' = (Elem(t, here[t].n) :> TableNode(TRUE, TRUE)) @@ [here EXCEPT ![t].n = @ + 1]
              /\ cur' = Elem(t, here[t].n)
        /\ bad' = 0
        /\ UNCHANGED errs
InvalidTable(x) ==
  /\ x.kind \in {"std", "aot"}
  /\    /\ ~(IF x.kind = "std" THEN StdOk(x.ks) ELSE AotOk(x.ks))
        /\ Consume(x)
        /\ errs' = errs \o Report(x, <<[e |-> "table", k |-> Target(x.ks), m |-> <<>>]>>)
        /\ bad' = Len(errs) + 1
        /\ UNCHANGED <<nodes, cur>>

Read == /\ phase = "read"
        /\ \E x \in {ExpressionAt(text, pos)} :
             \/ Blank(x) \/ CommentLine(x)
             \/ KeyVal(x) \/ KeyValDuplicate(x) \/ KeyValInvalid(x)
             \/ StdTable(x) \/ ArrayTable(x) \/ InvalidTable(x)

-----------------------------------------------------------------------------
\* What can be seen of it

Left == Rest(text, pos)
Kind == IF errs = <<>> THEN IF Left = "" THEN "full" ELSE "partial"
        ELSE IF Left = "" THEN "fullerr" ELSE "partialerr"

PieceText(x) == IF x.v = NoValue THEN x.pre ELSE x.pre \o Written(x.v) \o x.post
RECURSIVE PiecesFrom(_, _)
PiecesFrom(ps, n) == IF n > Len(ps) THEN "" ELSE PieceText(ps[n]) \o PiecesFrom(ps, n + 1)
Display == PiecesFrom(pieces, 1)

NodeValue(p) == pieces[nodes[p].x].v
\* Everything there is by path: values (w), tables, arrays of tables
ValuePaths == {p \in DOMAIN nodes : nodes[p].k = "val"}
\* Where a key leads within the values: set of at most one [p, ix, w]
Lookup(key) == UNION { LET pl == Places(p, NodeValue(p), <<>>)
                       IN {[p |-> p, ix |-> pl[n].ix, w |-> pl[n].w] : n \in {j \in 1..Len(pl) : pl[j].p = key}}
                     : p \in {q \in ValuePaths : HasPrefix(key, q)} }
Found(key) == CHOOSE f \in Lookup(key) : TRUE

GetValue(key) == IF Lookup(key) = {} THEN NoValue ELSE Plain(Found(key).w)

NoKids == [c |-> "none"]
Count(n) == [c |-> "count", n |-> n]
Keys(ks) == [c |-> "keys", ks |-> ks]
UniqueKeys(items) == LET f(n) == IF FirstKey(items, n) THEN <<items[n].k>> ELSE <<>> IN SeqSum(f, Len(items))
KidsOfValue(w) == CASE w.t = "arr" -> Count(Len(w.items))
                    [] w.t = "it"  -> Keys(UniqueKeys(w.items))
                    [] OTHER       -> Count(0)
GetChildren(key) ==
  IF Exists(key) /\ nodes[key].k = "tab" THEN Keys(nodes[key].kids)
  ELSE IF Exists(key) /\ nodes[key].k = "aot" THEN Count(nodes[key].n)
  ELSE IF Lookup(key) = {} THEN NoKids ELSE KidsOfValue(Found(key).w)

\* All of it: path -> [g, c]
TreePaths == DOMAIN nodes \ ValuePaths
\* path -> written value, for all values and what they contain
ValuePlaces == LET add(f, p) == FoldLeft(LAMBDA g, x : (x.p :> x.w) @@ g, f, Places(p, NodeValue(p), <<>>))
               IN FoldLeft(add, <<>>, SetToSeq(ValuePaths))
WalkOf(vp) == [p \in TreePaths |-> [g |-> NoValue, c |-> IF nodes[p].k = "tab" THEN Keys(nodes[p].kids) ELSE Count(nodes[p].n)]]
              @@ [p \in DOMAIN vp |-> [g |-> Plain(vp[p]), c |-> KidsOfValue(vp[p])]]
Walk == CHOOSE w \in {WalkOf(vp) : vp \in {ValuePlaces}} : TRUE      \* (WalkOf(ValuePlaces), evaluated once)

-----------------------------------------------------------------------------
\* What must hold of it at all times

TypeOK == /\ pos \in 1..(Size(text) + 1) /\ line >= 1 /\ phase \in {"read", "done"}
          /\ bad \in 0..Len(errs)
          /\ cur \in DOMAIN nodes /\ nodes[cur].k = "tab"
\* Nothing is lost: what was read is displayed as it was, and with what's left over it's the document
Lossless == Display = Piece(text, 1, pos) /\ Display \o Left = text.str
Lines == line = 1 + CountLF(text, 1, pos)
ErrorLines == \A n \in 1..Len(errs) : 1 <= errs[n].lo /\ errs[n].lo <= errs[n].hi /\ errs[n].hi <= line
\* The paths form a tree: everything is the child of exactly one thing, and the other way round
KidPaths(p) == IF nodes[p].k = "tab" THEN [n \in 1..Len(nodes[p].kids) |-> Sub(p, nodes[p].kids[n])]
               ELSE IF nodes[p].k = "aot" THEN [n \in 1..nodes[p].n |-> Elem(p, n - 1)] ELSE <<>>
Tree == \E ks \in {[p \in DOMAIN nodes |-> KidPaths(p)]} :
        /\ \A p \in DOMAIN nodes :
             /\ \A n \in 1..Len(ks[p]) : ks[p][n] \in DOMAIN nodes
             /\ Cardinality(ToSet(ks[p])) = Len(ks[p])
             /\ nodes[p].k = "aot" => nodes[p].n >= 1
             /\ \A n \in 1..Len(ks[p]) : (nodes[p].k = "aot") = (nodes[ks[p][n]].k = "tab" /\ nodes[ks[p][n]].el)
        /\ UNION {ToSet(ks[p]) : p \in DOMAIN nodes} = DOMAIN nodes \ {""}
        /\ FoldLeft(LAMBDA x, p : x + Len(ks[p]), 0, SetToSeq(DOMAIN nodes)) = Cardinality(DOMAIN nodes) - 1
\* Values are the ones written, one per key/value pair that was accepted
ValuesWritten == /\ \A p \in ValuePaths : pieces[nodes[p].x].v # NoValue
                 /\ Cardinality({nodes[p].x : p \in ValuePaths}) = Cardinality(ValuePaths)
\* Exactly the pairs that weren't accepted are reported
EveryPairAccounted ==
  LET pairs == Cardinality({n \in 1..Len(pieces) : pieces[n].v # NoValue})
  IN  (bad = 0 /\ (\A n \in 1..Len(errs) : errs[n].b.e # "table"))
      => pairs = Cardinality(ValuePaths) + Cardinality({n \in 1..Len(errs) : errs[n].b.e = "dup" /\ errs[n].b.k \in DOMAIN nodes})
\* get and children agree with the walk, and everything is reached from the root
Navigable == LET w == Walk IN
  \A p \in DOMAIN w : /\ GetValue(p) = w[p].g /\ GetChildren(p) = w[p].c
                      /\ LET c == w[p].c IN
                         /\ c.c = "keys"  => \A n \in 1..Len(c.ks) : Sub(p, c.ks[n]) \in DOMAIN w
                         /\ c.c = "count" => \A n \in 1..c.n : Elem(p, n - 1) \in DOMAIN w

DocInv == TypeOK /\ Lossless /\ Lines /\ ErrorLines /\ Tree /\ ValuesWritten /\ EveryPairAccounted

\* While reading, what's there stays: the first definition of a key wins,
\* children keep their order, reported errors stay reported
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
OnlyGrows ==
  /\ \A p \in DOMAIN nodes :
       /\ p \in DOMAIN nodes' /\ nodes'[p].k = nodes[p].k
       /\ (nodes[p].k = "val" => nodes'[p] = nodes[p])
       /\ (nodes[p].k = "aot" => nodes'[p].n >= nodes[p].n)
       /\ nodes[p].k = "tab" => IsPrefixOf(nodes[p].kids, nodes'[p].kids) /\ (nodes[p].ex => nodes'[p].ex)
  /\ IsPrefixOf(pieces, pieces')
  /\ Len(errs') >= Len(errs)
  /\ \A n \in 1..Len(errs) : errs'[n].b.e = errs[n].b.e /\ errs'[n].b.k = errs[n].b.k
=============================================================================
