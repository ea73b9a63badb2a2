---------------------------- MODULE FanOutTrace ----------------------------
EXTENDS FanOut, TraceLib
VARIABLES i, s, bad

Zero == Begin(1, 1)
All(st) == LET k == {b \in 1..Len(st.made) : st.made[b][2] > 0} IN IF k = {} THEN 0 ELSE st.made[CHOOSE b \in k : \A c \in k : c <= b][2]

RECURSIVE Told(_, _)
Told(st, bs) == IF bs = <<>> THEN st ELSE Told(Tell(st, bs[1][1], bs[1][2]), Tail(bs))

\* where the receiver is after a record
Then(r) ==
  LET f == Fresh(s) IN
  CASE r.op = "reset" -> Begin(r.batch, r.cap)
    [] r.op = "made" -> Make(f, r.first, r.last)
    [] r.op = "arch" -> [f EXCEPT !.arch[r.b] = r.a]
    [] r.op = "tell" -> Settle(Told(f, r.blocks))
    [] r.op = "stop" -> Stop(f)
    [] r.op = "start" -> Settle(Start(f))
    [] r.op = "commit" -> Settle([f EXCEPT !.stored = Stored(s.stored, r.taken)])
    [] r.op = "short" -> f
    [] r.op = "next" -> Elapse(f)
    [] r.op = "long" -> Exhaust(f)
    [] OTHER -> f
After(r) == Then(r)

Errs(r) ==
  LET n == Then(r) IN
  CASE r.op \in {"tell", "stop", "start", "short", "next", "long"} ->
         Expect(r.out = n.out, "outputs", [want |-> n.out, got |-> r.out])
    [] r.op = "commit" ->
         Expect(r.stored = n.stored, "stored", [want |-> n.stored, got |-> r.stored])
         \o Expect(r.kept = n.stored, "kept", [want |-> n.stored, got |-> r.kept])
         \o Expect(r.exact, "altered", r)
         \o Expect(r.confirmed = n.stored, "confirmed", r)
         \o Expect(\A x \in Range(r.taken) : x \in Range(r.given), "out of nowhere", r)
         \o Expect((s.stored + 1) \notin Range(r.given) \/ n.stored > s.stored, "next event not stored", r)
         \o Expect(r.out = n.out, "outputs", [want |-> n.out, got |-> r.out])
    [] r.op = "made" ->
         Expect(r.last = 0 \/ r.first = All(s) + 1, "numbers", r)
         \o Expect(r.proper, "event content", r)
         \o Expect(\A k \in 1..Len(r.found) : r.found[k] = Len(s.made) + 1, "block of event", r)
    [] r.op = "healed" ->
         Expect(r.stored = All(s), "not healed", r)
         \o Expect(r.stored = s.stored, "stored", r)
         \o Expect(r.same, "states differ", r)
    \* the published defaults
    [] r.op = "defaults" -> Expect(r.single = 5000 /\ r.sync = 10000 /\ r.batch = 500 /\ ~r.enabled, "defaults", r)
    \* events are found by number, and the last one is the one of the highest number
    [] r.op = "table" ->
         Flat([k \in 1..Len(r.put) |->
           LET now == {r.put[j] : j \in 1..k}
           IN Expect(Range(r.found[k]) = now /\ r.max[k] \in now /\ \A x \in now : x <= r.max[k], "table", [put |-> r.put[k], max |-> r.max[k]])])
    [] OTHER -> <<>>

Init == i = 0 /\ s = Zero /\ bad = 0
Next == /\ i < Len(Trace)
        /\ LET e == Errs(Trace[i + 1])
           IN /\ i' = i + 1 /\ bad' = bad + Len(e) /\ Report(i + 1, e) /\ s' = After(Trace[i + 1])
              /\ (i' = Len(Trace)) => Finish(i', bad')
Spec == Init /\ [][Next]_<<i, s, bad>>
=============================================================================
