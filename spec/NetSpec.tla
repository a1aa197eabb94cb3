------------------------------ MODULE NetSpec -------------------------------
(* What sockets are. A socket object is unborn, live, or moved from / gone;  *)
(* a live one has an address it receives at (none until it is bound or sends *)
(* for the first time) and the packets pending there, oldest first. A packet *)
(* is its bytes (the first n of stream s) and the address that sent it.      *)
(* Sending hands the packet to whoever is at the destination at that time,   *)
(* or to nobody. Receiving takes the oldest packet, or nothing if there is   *)
(* none; it never waits.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Capacity == 1472
NoAddr == <<0, 0>>
\* addresses: <<host, port>>; host 0 stands for every host when bound to, 1 and 2 are hosts. Ports 1..9 are chosen by
\* the user, 50 is the foreign sender's, 100 + k is the port the k-th automatically bound socket was given.
Dead == [st |-> "none", at |-> NoAddr, q |-> <<>>, last |-> NoAddr]
Fresh == [st |-> "live", at |-> NoAddr, q |-> <<>>, last |-> NoAddr]
Bound(k) == k.st = "live" /\ k.at[2] # 0
Overlap(a, b) == a[2] = b[2] /\ (a[1] = b[1] \/ a[1] = 0 \/ b[1] = 0)
Taken(k, a) == \E i \in DOMAIN k : Bound(k[i]) /\ Overlap(k[i].at, a)
Receiver(k, to) == {i \in DOMAIN k : Bound(k[i]) /\ Overlap(k[i].at, to)}
\* the address others see
SeenAs(at) == IF at[1] = 0 THEN <<1, at[2]>> ELSE at
Data(s, n) == IF n = 0 THEN <<0, 0>> ELSE <<s, n>>
Put(k, to, p) == [i \in DOMAIN k |-> IF i \in Receiver(k, to) THEN [k[i] EXCEPT !.q = Append(@, p)] ELSE k[i]]
\* the socket i after it sent with auto being the next automatic port
Auto(k, i, auto) == IF k[i].at[2] = 0 THEN [k EXCEPT ![i].at = <<0, 100 + auto>>] ELSE k
Sent(k, i, to, d, auto) == LET b == Auto(k, i, auto) IN Put(b, to, [d |-> d, from |-> SeenAs(b[i].at)])
\* what of a packet fits
Fits(d) == IF d[2] > Capacity THEN <<d[1], Capacity>> ELSE d
Live(k) == Cardinality({i \in DOMAIN k : k[i].st = "live"})
=============================================================================
