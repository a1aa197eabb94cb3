------------------------------ MODULE LinBase ------------------------------
(* Shared by the trace specifications of concurrent histories, which are     *)
(* sequences of call (k0 = "c"), return ("r") and note ("n") events of        *)
(* concurrently running threads.                                             *)
EXTENDS TraceBase
Ev(l) == Trace[l]
\* steps of operations in progress are only needed before a return or a note
Waits(l) == l <= Len(Trace) /\ Trace[l].op # "reset" /\ Trace[l].k0 \in {"r", "n"}
=============================================================================
