------------------------------ MODULE TomlPair ------------------------------
(***************************************************************************)
(* Two parsers.  The variables are those of the one in use; the other one  *)
(* is kept as a record, and nothing that's done with the one in use        *)
(* changes it.                                                             *)
(***************************************************************************)
EXTENDS TomlApi

\* A parser that has parsed nothing
Unused == [text |-> Txt(""), pos |-> 1, line |-> 1, pieces |-> <<>>, nodes |-> EmptyNodes, cur |-> "", bad |-> 0, errs |-> <<>>, phase |-> "done"]
This == [text |-> text, pos |-> pos, line |-> line, pieces |-> pieces, nodes |-> nodes, cur |-> cur, bad |-> bad, errs |-> errs, phase |-> phase]
Become(d) == /\ text' = d.text /\ pos' = d.pos /\ line' = d.line /\ pieces' = d.pieces /\ nodes' = d.nodes
             /\ cur' = d.cur /\ bad' = d.bad /\ errs' = d.errs /\ phase' = d.phase

\* The result of the document read last
Result == [kind |-> Kind, left |-> Left, line |-> line, errs |-> errs]
=============================================================================
