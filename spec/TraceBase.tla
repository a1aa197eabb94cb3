------------------------------ MODULE TraceBase ------------------------------
(* Shared by all trace specifications. The trace file is named by the       *)
(* environment variable TRACE. Acceptance: some behaviour of the            *)
(* specification consumes every line (register 42 holds the furthest line). *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

ASSUME TLCSet(42, 0)
TrackAt(l) == IF l > TLCGet(42) THEN TLCSet(42, l) ELSE TRUE
TraceAccepted ==
    /\ PrintT(<<"FURTHEST", TLCGet(42) - 1, Len(Trace)>>)
    /\ TLCGet(42) - 1 = Len(Trace)
=============================================================================
