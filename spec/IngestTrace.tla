----------------------------- MODULE IngestTrace -----------------------------
(* Checks recorded runs of the real readers against a mock chain and a mock name server. *)
EXTENDS Ingest, TraceLib
VARIABLES i, s, bad
NoWorld == [chain |-> "op", ctrl |-> FALSE, resolves |-> FALSE, active |-> FALSE, logs |-> {}]
Zero == [w |-> NoWorld, sent |-> {}, from |-> -1, ts |-> <<>>, tsent |-> {}]

\* the block a run starts reading at
Start(r, w) == CASE r.how = "historical" -> r.start
                 [] r.start < 0 -> Max(First(w.chain), r.db0)
                 [] OTHER -> Max(Max(r.start, First(w.chain)), r.db0)
\* A reader that follows a chain by a filter without a configured start is told of new logs only.
Low(r, w) == IF r.how = "run" /\ r.live = "filter" /\ r.start < 0 THEN Max(Start(r, w), r.head0 + 1) ELSE Start(r, w)
Goal(r) == IF r.stop < 0 THEN r.head ELSE Min(r.stop, r.head)
Fatal(r, w) == r.how = "run" /\ w.ctrl /\ ~w.resolves /\ w.active

RunErrs(r, w) ==
  LET lo == IF s.from < 0 THEN Low(r, w) ELSE Min(s.from, Low(r, w))
      evs == Range(r.evs)
      Upto(n) == {r.evs[k] : k \in 1..n} \cup s.sent
      Covered(db, n) == db <= r.db0 \/ Due(w, lo, db - 1) \subseteq Upto(n)
      all == Due(w, -1, 2147483647)
  IN Expect(evs \subseteq all, "not-as-on-chain", [got |-> evs \ all])
     \o (IF r.how \in {"historical", "run"} THEN
           Expect(\A e \in evs : e.b >= Start(r, w) /\ (r.stop < 0 \/ e.b <= r.stop), "outside-range",
                  [start |-> Start(r, w), stop |-> r.stop, got |-> {e.b : e \in evs}])
           \o Expect(\A k \in 1..Len(r.asks) : Covered(r.asks[k].db, r.asks[k].sent), "recorded-unsent",
                     [dbs |-> [k \in 1..Len(r.asks) |-> <<r.asks[k].db, r.asks[k].sent>>]])
           \o Expect(Covered(r.db1, Len(r.evs)), "recorded-unsent", [db |-> r.db1, missing |-> Due(w, lo, r.db1 - 1) \ Upto(Len(r.evs))])
           \o Expect(r.db1 >= r.db0 /\ \A k \in 2..Len(r.asks) : r.asks[k].db >= r.asks[k - 1].db, "position-went-back", [db |-> <<r.db0, r.db1>>])
           \o Expect(r.stop < 0 \/ \A k \in 1..Len(r.asks) : r.asks[k].to >= r.asks[k].from /\ r.asks[k].to <= r.stop, "asked-outside",
                     [asks |-> {<<r.asks[k].from, r.asks[k].to>> : k \in 1..Len(r.asks)}])
           \o Expect(Fatal(r, w) => (r.ret = "err" /\ r.asks = <<>>), "unresolved-registry", [ret |-> r.ret])
           \o (IF Fatal(r, w) THEN <<>>
               ELSE IF r.faults = "deadly" THEN Expect(r.ret = "err", "failure-hidden", [ret |-> r.ret])
               ELSE IF r.faults = "left" THEN <<>>
               ELSE Expect(r.ret # "err", "failed", [ret |-> r.ret])
                    \o Expect(Due(w, Low(r, w), Goal(r)) \subseteq (evs \cup s.sent), "missed", [missing |-> Due(w, Low(r, w), Goal(r)) \ (evs \cup s.sent)])
                    \o Expect(r.live = "filter" \/ r.db1 >= Max(r.db0, Goal(r)) - 1, "no-progress", [db |-> r.db1, goal |-> Goal(r)])
                    \o Expect((r.ret = "ok") = (r.stop >= 0 /\ r.stop <= r.head0 /\ r.start >= 0) \/ r.how = "historical", "stopped", [ret |-> r.ret]))
         ELSE IF r.how = "retry_fid" THEN
           Expect(evs = DueForFid(w, r.fid), "retry-fid", [got |-> evs, want |-> DueForFid(w, r.fid)])
           \o Expect(r.db1 = r.db0, "retry-moved-position", [db |-> <<r.db0, r.db1>>])
         ELSE
           Expect(evs = Due(w, r.start, r.stop), "retry-range", [got |-> evs, want |-> Due(w, r.start, r.stop)])
           \o Expect(r.db1 = r.db0, "retry-moved-position", [db |-> <<r.db0, r.db1>>]))

\* --- the name server ----------------------------------------------------------------------------------
GoodBetween(ts, lo, hi) == SelectSeq(ts, LAMBDA t : GoodTransfer(t) /\ t.id > lo /\ t.id <= hi)
Mapped(ts) == [k \in 1..Len(ts) |-> Sent(ts[k])]
Last(ts) == IF ts = <<>> THEN 0 ELSE ts[Len(ts)].id

FetchErrs(r) ==
  LET lo == IF r.start < 0 THEN (IF r.current_ok THEN r.current ELSE 0) ELSE Max(r.start, r.db0)
      hi == IF r.stop < 0 THEN Last(s.ts) ELSE Min(r.stop - 1, Last(s.ts))
      want == Mapped(GoodBetween(s.ts, lo, hi))
      k == Len(r.evs)
  IN IF r.faults = "left"
     THEN Expect(k <= Len(want) /\ r.evs = SubSeq(want, 1, Min(k, Len(want))), "transfers", [got |-> r.evs, want |-> want])
          \o Expect(r.db1 <= r.db0 \/ {Sent(t) : t \in Range(GoodBetween(s.ts, lo, r.db1))} \subseteq (Range(r.evs) \cup s.tsent),
                    "recorded-unsent", [db |-> r.db1])
     ELSE Expect(r.evs = want, "transfers", [got |-> r.evs, want |-> want])
          \o Expect(r.db1 <= r.db0 \/ r.db1 <= hi, "recorded-unsent", [db |-> r.db1])
          \o Expect(r.stop >= 0 \/ lo >= hi \/ r.db1 >= hi, "no-progress", [db |-> r.db1, want |-> hi])
          \o Expect((r.ret = "ok") = (r.stop >= 0 /\ \E t \in Range(s.ts) : t.id > lo /\ t.id >= r.stop), "stopped", [ret |-> r.ret])

Errs(r) ==
  CASE r.op \in {"world", "names"} -> <<>>
    [] r.op = "run" -> RunErrs(r, s.w)
    [] r.op = "fetch" -> FetchErrs(r)
    [] r.op = "lookup" ->
         LET all == \A t \in Range(r.served) : GoodTransfer(t)
         IN Expect(IF ~r.answered \/ ~all THEN r.res = "error" ELSE r.res = "ok" /\ r.evs = Mapped(r.served), "lookup", [got |-> r.evs, res |-> r.res])
            \o Expect(r.asked = <<<<"fname", r.name>>>>, "lookup-query", [asked |-> r.asked, name |-> r.name])
    [] r.op = "retry" -> Expect(r.evs = Mapped(SelectSeq(r.served, GoodTransfer)), "retry", [got |-> r.evs])
                         \o Expect(r.asked = r.wantasked, "retry-query", [asked |-> r.asked, want |-> r.wantasked])
    [] r.op = "appfid" ->
         Expect(r.got = (IF r.mt = 1 /\ r.shape = "whole" /\ r.fits THEN r.fid ELSE "none"), "app-fid", [r |-> r])
    [] r.op = "appname" ->
         Expect(r.got = (CASE r.fid = "9152" -> "farcaster" [] r.fid = "309857" -> "base" [] OTHER -> "unknown"), "app-name", [r |-> r])
    [] r.op = "override" -> Expect(r.ok = (r.hex /\ r.digits = 40), "override-address", [r |-> r])
    [] r.op = "newsub" -> Expect(r.ok = (r.url = "good"), "rpc-url", [r |-> r])
    [] r.op = "ens" ->
         Expect(r.node_ok, "namehash", [name |-> r.name])
         \o Expect(r.got = (IF r.registry_fault THEN "error:resolver"
                            ELSE IF r.resolver = "" THEN "error:notfound"
                            ELSE IF r.addr_fault THEN "error:resolve" ELSE r.addr), "ens", [r |-> r])
    [] r.op = "chain" ->
         Expect(r.got = (CASE r.id = 1 -> "eth" [] r.id = 10 -> "op" [] r.id = 8453 -> "base" [] OTHER -> "none"), "chain-id", [r |-> r])
    [] r.op = "client" -> Expect(r.got = r.configured, "chain-client", [r |-> r])
    [] OTHER -> Expect(FALSE, "unknown-op", [op |-> r.op])

After(r) ==
  CASE r.op = "world" -> [Zero EXCEPT !.w = [chain |-> r.chain, ctrl |-> r.ctrl, resolves |-> r.resolves, active |-> r.active, logs |-> Range(r.logs)]]
    [] r.op = "run" -> [s EXCEPT !.sent = @ \cup Range(r.evs), !.from = IF @ < 0 THEN Low(r, s.w) ELSE Min(@, Low(r, s.w))]
    [] r.op = "names" -> [Zero EXCEPT !.ts = r.ts]
    [] r.op = "fetch" -> [s EXCEPT !.tsent = @ \cup Range(r.evs)]
    [] OTHER -> s

Init == i = 0 /\ s = Zero /\ bad = 0
Next == /\ i < Len(Trace)
        /\ LET e == Errs(Trace[i + 1])
           IN /\ i' = i + 1 /\ bad' = bad + Len(e) /\ Report(i + 1, e) /\ s' = After(Trace[i + 1])
              /\ (i' = Len(Trace)) => Finish(i', bad')
Spec == Init /\ [][Next]_<<i, s, bad>>
=============================================================================
