------------------------------- MODULE FanOut -------------------------------
(* How a data shard learns what the root shard decided.  The root shard's blocks carry
   numbered events.  Every data shard has a receiver that hears of each new block over a
   lossy broadcast, hands the events to the shard's mempool, and waits until the shard has
   stored them; what it missed it asks for by event number.  The shard stores an event only
   if it is the next one.

   State s:
     up      the receiver is running
     stored  number of the last event the shard has stored (events count from 1)
     made    blocks of the root shard, <<first, last>> event numbers, blocks without events are
             <<0, 0>>
     arch    what the archive answers for a block: "ok", "none" (it has no such block), "bad"
             (a block that does not pass its checks)
     q       blocks announced and not yet taken, [b |-> number, ok |-> passes its checks]
     cap     how many announced blocks are kept for a slow receiver
     batch   how many events are handed over between two confirmations while catching up
     ph      what the receiver does; "idle" and "wait" are the places where it can rest
     out     what it did since the last stimulus: <<"r", n>> asked for the block of event n,
             <<"s", n>> handed over event n *)
EXTENDS Integers, Sequences

Attempts == 3

Idle == [k |-> "idle"]
First(s, b) == s.made[b][1]
Last(s, b) == s.made[b][2]
BlockOf(s, n) == CHOOSE b \in 1..Len(s.made) : First(s, b) > 0 /\ First(s, b) <= n /\ n <= Last(s, b)

Hand(s, b, ok) == IF ok THEN [s EXCEPT !.out = @ \o [k \in 1..(Last(s, b) - First(s, b) + 1) |-> <<"s", First(s, b) + k - 1>>]] ELSE s
To(s, ph) == [s EXCEPT !.ph = ph]

\* after a catch-up has been confirmed in full, or given up
Done(s, then) ==
  IF then.k = "block" THEN To(Hand(s, then.b, then.ok), [k |-> "wait", t |-> Last(s, then.b), on |-> [k |-> "single"]])
  ELSE IF s.stored >= then.t THEN To(s, Idle)
  ELSE To(s, [k |-> "retry", t |-> then.t, n |-> then.n + 1])
Failed(s, then) == IF then.k = "block" THEN To(s, Idle) ELSE To(s, [k |-> "retry", t |-> then.t, n |-> then.n + 1])

Blocked(s) == ~s.up \/ (s.ph.k = "idle" /\ s.q = <<>>) \/ (s.ph.k = "wait" /\ s.stored < s.ph.t)

\* One step of a receiver that is not resting
Take(s) ==
  LET x == Head(s.q)  r == [s EXCEPT !.q = Tail(@)] IN
  IF First(s, x.b) = 0 \/ Last(s, x.b) < s.stored THEN r
  ELSE LET then == [k |-> "block", b |-> x.b, ok |-> x.ok] IN
       IF First(s, x.b) > s.stored + 1
       THEN To(r, [k |-> "sync", start |-> s.stored + 1, stop |-> First(s, x.b) - 1, cur |-> s.stored + 1, then |-> then])
       ELSE Done(r, then)
Sync(s) ==
  LET p == s.ph IN
  IF p.cur > p.stop THEN Done(s, p.then)
  ELSE LET b == BlockOf(s, p.cur)
           r == [s EXCEPT !.out = Append(@, <<"r", p.cur>>)] IN
       IF s.arch[b] = "none" THEN Failed(r, p.then)
       ELSE LET h == Hand(r, b, s.arch[b] = "ok")
                n == Last(s, b) - p.start
                next == [p EXCEPT !.cur = Last(s, b) + 1] IN
            IF (n > 0 /\ n % s.batch = 0) \/ Last(s, b) >= p.stop
            THEN To(h, [k |-> "wait", t |-> Last(s, b), on |-> next]) ELSE To(h, next)
Retry(s) ==
  IF s.ph.n > Attempts \/ s.stored >= s.ph.t THEN To(s, Idle)
  ELSE To(s, [k |-> "sync", start |-> s.stored + 1, stop |-> s.ph.t, cur |-> s.stored + 1, then |-> [k |-> "retry", t |-> s.ph.t, n |-> s.ph.n]])
Step(s) ==
  CASE s.ph.k = "idle" -> Take(s)
    [] s.ph.k = "sync" -> Sync(s)
    [] s.ph.k = "retry" -> Retry(s)
    [] s.ph.k = "wait" -> IF s.ph.on.k = "single" THEN To(s, Idle) ELSE To(s, s.ph.on)

RECURSIVE Settle(_)
Settle(s) == IF Blocked(s) THEN s ELSE Settle(Step(s))

\* the time to wait is over
Over(s) == IF s.ph.on.k = "single" THEN To(s, [k |-> "retry", t |-> s.ph.t, n |-> 1]) ELSE Failed(s, s.ph.on.then)
\* time passes until the receiver does something one can see
RECURSIVE Elapse(_)
Elapse(s) == IF ~s.up \/ s.ph.k # "wait" \/ s.out # <<>> THEN s ELSE Elapse(Settle(Over(s)))
\* ... until it rests
RECURSIVE Exhaust(_)
Exhaust(s) == IF ~s.up \/ s.ph.k # "wait" THEN s ELSE Exhaust(Settle(Over(s)))

\* stimuli; `out` starts afresh
Fresh(s) == [s EXCEPT !.out = <<>>]
Keep(s, q) == IF Len(q) > s.cap THEN SubSeq(q, Len(q) - s.cap + 1, Len(q)) ELSE q
Make(s, first, last) == [s EXCEPT !.made = Append(@, <<first, last>>), !.arch = Append(@, "ok")]
Tell(s, b, ok) == IF s.up THEN [s EXCEPT !.q = Keep(s, Append(@, [b |-> b, ok |-> ok]))] ELSE s
Stop(s) == [s EXCEPT !.up = FALSE, !.q = <<>>, !.ph = Idle]
Start(s) == [s EXCEPT !.up = TRUE]
\* a block of the shard that contains these events in this order
RECURSIVE Stored(_, _)
Stored(n, es) == IF es = <<>> THEN n ELSE Stored(IF Head(es) = n + 1 THEN n + 1 ELSE n, Tail(es))

Begin(batch, cap) == [up |-> FALSE, stored |-> 0, made |-> <<>>, arch |-> <<>>, q |-> <<>>, cap |-> cap, batch |-> batch, ph |-> Idle, out |-> <<>>]
=============================================================================
