------------------------------ MODULE AuthTrace ------------------------------
EXTENDS Auth, TraceLib
VARIABLES i, bad, set
Init == i = 1 /\ bad = 0 /\ set = [g \in Guards |-> <<>>]
CallStep(r) ==
  LET ok == Answered(set, r.call, r.head)
  IN Expect(r.answered = ok, IF ok THEN "turned-away" ELSE "let-in", <<set, r>>) \o
     Expect(ok \/ r.via # "grpc" \/ r.code = "Unauthenticated", "refusal-code", r) \o
     \* a call that is refused does nothing, shows nothing and asks nobody
     Expect(ok \/ (r.handed = 0 /\ r.asked = 0 /\ ~r.shown), "refused-but-done", <<set, r>>) \o
     Expect(~ok \/ r.call \notin {"submit", "bulk"} \/ r.handed = 1, "answered-not-done", <<set, r>>) \o
     Expect(~ok \/ r.call \notin {"view", "crawl"} \/ r.shown, "answered-not-shown", <<set, r>>)
Step(r) ==
  CASE r.op = "open" -> <<>>
    [] r.op = "call" -> CallStep(r)
    \* whether the operator's commands are guarded at all
    [] r.op = "enabled" -> Expect(r.on = (Names(set["operator"]) # {}), "operator-enabled", <<set, r>>)
Next == /\ i <= Len(Trace)
        /\ LET r == Trace[i] z == Step(r) IN
             /\ Report(i, z)
             /\ bad' = bad + Len(z)
             /\ set' = IF r.op = "open" THEN [g \in Guards |-> r[g]] ELSE set
             /\ i' = i + 1
             /\ (i = Len(Trace)) => Finish(i, bad + Len(z))
Spec == Init /\ [][Next]_<<i, bad, set>>
=============================================================================
