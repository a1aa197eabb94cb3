------------------------------ MODULE GenBase ------------------------------
(* Printing of transitions for the test generator. Used as ACTION_CONSTRAINT *)
(* Emit: TLC prints every transition it explores, and check.py turns them    *)
(* into scripts that cover each transition.                                  *)
EXTENDS Integers, Sequences, TLC, Json
EmitEdge(from, op, to) == PrintT("EDGE " \o ToString(from) \o " # " \o ToJson(op) \o " # " \o ToString(to))
=============================================================================
