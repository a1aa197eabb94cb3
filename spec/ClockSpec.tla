------------------------------ MODULE ClockSpec ------------------------------
(* Abstract specification of time, sleeping, thread identity and placement   *)
(* (C27). Time is counted in microseconds from the start of the history. A   *)
(* thread is off, awake, or asleep since `from` for `ms` milliseconds        *)
(* (Inf: longer than any history). Thread 0 is the main thread.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Inf == -1
Slack == 8000000 \* a sleeper is awake this long after its time at the latest
Off == [on |-> FALSE, sl |-> FALSE, from |-> 0, ms |-> 0, id |-> 0, at |-> <<>>, pr |-> 0]
Awake(th, t) == th[t].on /\ ~th[t].sl
Elapsed(x, now) == now - x.from
\* a sleeper may return
MayWake(x, now) == x.ms # Inf /\ Elapsed(x, now) >= x.ms * 1000 /\ Elapsed(x, now) <= x.ms * 1000 + Slack

Started(th, t, id, at, pr) == [th EXCEPT ![t] = [Off EXCEPT !.on = TRUE, !.id = id, !.at = at, !.pr = pr]]
Asleep(th, t, now, ms) == [th EXCEPT ![t].sl = TRUE, ![t].from = now, ![t].ms = ms]
Woken(th, t) == [th EXCEPT ![t].sl = FALSE]
Pinned(th, t, core) == [th EXCEPT ![t].at = <<core>>]
Live(th) == {t \in DOMAIN th : th[t].on}
Distinct(th) == \A t, u \in Live(th) : t # u => th[t].id # th[u].id

\* pairs (seconds, nanoseconds), ordered
Le(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Micros(a) == a[1] * 1000000 + a[2] \div 1000
Abs(x) == IF x < 0 THEN -x ELSE x

\* time of day, in a zone ahead of universal time by off minutes
Two(n) == <<48 + (n \div 10), 48 + (n % 10)>>
Day == 86400
OfDay(secs, off) == (secs + off * 60 + 2 * Day) % Day
Clock(secs, off) == LET x == OfDay(secs, off) IN
    <<91>> \o Two(x \div 3600) \o <<58>> \o Two((x % 3600) \div 60) \o <<58>> \o Two(x % 60) \o <<93>>
=============================================================================
