----------------------------- MODULE StorageTrace -----------------------------
(* Checks recorded runs of the real stores and of the real block engine. *)
EXTENDS Storage, TraceLib
VARIABLES i, s, bad
Zero == [net |-> "devnet", rents |-> {}, loans |-> <<>>, ended |-> <<>>]

AsSlot(g) == [u |-> [k \in KindSet |-> CASE k = "legacy" -> g[1] [] k = "2024" -> g[2] [] OTHER -> g[3]], exp |-> g[4]]
Either(r, F(_)) == {F(r.now), F(r.now1)}

\* one loan: what must and what does happen
LendErrs(loans, ended, m, got) ==
  \* saying once more that there is no loan changes nothing
  Expect(got = (Fresh(loans, m) /\ Unended(ended, m)) \/ (m.units = 0 /\ Fresh(loans, m) /\ Key(m) \notin DOMAIN loans),
         IF got /\ Fresh(loans, m) THEN "KNOWN-revoked-loan-comes-back" ELSE "loan", [m |-> m, taken |-> got])

\* a transaction: <<complaints, loans, ended>>
RECURSIVE Msgs(_, _, _, _, _, _, _)
Msgs(r, t, rents, pend, loans, ended, k) ==
  IF k > Len(t.msgs) THEN <<<<>>, loans, ended>>
  ELSE LET m == t.msgs[k]
           may == MayLend(s.net, rents, pend, loans, m, r.v, r.now, r.at)
           e == IF may THEN LendErrs(loans, ended, m, m.taken)
                ELSE Expect(~m.taken, "lent-too-much", [m |-> m, slot |-> Slot(s.net, rents \cup pend, loans, m.from, r.v, r.now, TRUE, FALSE)])
           rest == Msgs(r, t, rents, pend, IF m.taken THEN Lend(loans, m) ELSE loans, IF m.taken THEN EndOf(ended, m) ELSE ended, k + 1)
       IN <<e \o rest[1], rest[2], rest[3]>>
RECURSIVE Txns(_, _, _, _, _, _)
Txns(r, rents, all, loans, ended, k) ==
  IF k > Len(r.txns) THEN <<<<>>, loans, ended, all>>
  ELSE LET t == r.txns[k]
           pend == Range(t.rents)
           one == Msgs(r, t, rents, pend, loans, ended, 1)
           rest == Txns(r, rents, all \cup pend, one[2], one[3], k + 1)
       IN <<one[1] \o rest[1], rest[2], rest[3], rest[4]>>
Block(r) == Txns(r, s.rents, s.rents, s.loans, s.ended, 1)
BlockErrs(r) ==
  Block(r)[1]
  \o Expect(\A t \in Range(r.txns) : t.offered # <<>> =>
              (t.msgs = <<>>) = (Slot(s.net, s.rents \cup Range(t.rents), s.loans, t.fid, r.v, r.now, TRUE, TRUE).exp <= r.now),
            "no-storage", [t |-> [k \in 1..Len(r.txns) |-> <<r.txns[k].fid, Len(r.txns[k].offered), Len(r.txns[k].msgs)>>]])
  \o Expect(\A t \in Range(r.txns) : t.msgs # <<>> => {m.h : m \in Range(t.msgs)} = Range(t.offered), "dropped", [r |-> "offered"])
  \o Expect(r.valid, "own-proposal-refused", [v |-> r.v])

Errs(r) ==
  CASE r.op \in {"reset", "rent"} -> <<>>
    [] r.op = "lend" -> Expect(r.taken = Fresh(s.loans, r.m), "loan", [m |-> r.m, taken |-> r.taken])
         \o Expect(r.pruned = (r.taken /\ r.m.units = 0), "ended-loan", [m |-> r.m])
    [] r.op = "block" -> BlockErrs(r)
    [] r.op = "slot" ->
         LET F(now) == Slot(s.net, s.rents \cup Range(r.pend), s.loans, r.fid, r.v, now, r.lent, r.borrowed)
         IN Expect(AsSlot(r.got) \in Either(r, F), "slot", [got |-> AsSlot(r.got), want |-> F(r.now), fid |-> r.fid, v |-> r.v])
    [] r.op = "limits" ->
         LET net(now) == Slot(s.net, s.rents, s.loans, r.fid, r.v, now, TRUE, TRUE).u
             own(now) == Bought(s.net, s.rents, r.fid, r.v, now)
             All(now) == [units |-> net(now)["legacy"] + net(now)["2024"] + net(now)["2025"],
                          details |-> [k \in 1..3 |-> <<net(now)[Kinds[k]], own(now)[Kinds[k]],
                                                        Units(s.loans, LentTo(s.loans, r.fid))[Kinds[k]], Units(s.loans, LentBy(s.loans, r.fid))[Kinds[k]]>>],
                          limits |-> [n \in 1..7 |-> IF n = 7 THEN Limit(own(now), 7) ELSE Limit(net(now), n)]]
         IN Expect([units |-> r.units, details |-> r.details, limits |-> r.limits] \in Either(r, All), "limits",
                   [got |-> <<r.units, r.details, r.limits>>, want |-> All(r.now)])
    [] r.op = "max" -> Expect(r.got = [n \in 1..7 |-> Limit(AsSlot(r.slot).u, n)], "max-messages", [slot |-> r.slot, got |-> r.got])
    [] r.op = "event" ->
         LET u == [k \in KindSet |-> IF k = RentKind(r.net, r.ts) THEN r.units ELSE 0]
         IN Expect(AsSlot(r.got) = [u |-> u, exp |-> Expiry(r.net, r.ts, r.v)], "rent", [r |-> r])
    [] r.op = "cutoff" -> Expect(r.got = <<End2024(r.net), End2025(r.net)>>, "cutoff", [r |-> r])
    [] r.op = "loan" -> Expect(AsSlot(r.got) = [u |-> [k \in KindSet |-> IF k = r.kind THEN r.units ELSE 0], exp |-> Forever], "loan-slot", [r |-> r])
    [] r.op = "active" -> Expect(r.got \in {On(AsSlot(r.a), r.now), On(AsSlot(r.a), r.now1)}, "active", [r |-> r])
    [] r.op = "merge" -> Expect(AsSlot(r.got) \in {Merged(AsSlot(r.a), AsSlot(r.b), r.now), Merged(AsSlot(r.a), AsSlot(r.b), r.now1)}, "merge", [r |-> r])
    [] r.op = "sub" -> Expect(AsSlot(r.got) \in {Taken(AsSlot(r.a), AsSlot(r.b), r.now), Taken(AsSlot(r.a), AsSlot(r.b), r.now1)}, "sub", [r |-> r])
    [] r.op = "for" -> Expect(r.got = <<r.a[1], r.a[2], r.a[3]>>, "units-for", [r |-> r])
    [] OTHER -> Expect(FALSE, "unknown-op", [op |-> r.op])

After(r) ==
  CASE r.op = "reset" -> [Zero EXCEPT !.net = r.net]
    [] r.op = "rent" -> [s EXCEPT !.rents = @ \cup {r.rent}]
    [] r.op = "lend" /\ r.taken -> [s EXCEPT !.loans = Lend(@, r.m), !.ended = EndOf(@, r.m)]
    [] r.op = "block" -> LET b == Block(r) IN [s EXCEPT !.loans = b[2], !.ended = b[3], !.rents = b[4]]
    [] OTHER -> s

Init == i = 0 /\ s = Zero /\ bad = 0
Next == /\ i < Len(Trace)
        /\ LET e == Errs(Trace[i + 1])
           IN /\ i' = i + 1 /\ bad' = bad + Len(e) /\ Report(i + 1, e) /\ s' = After(Trace[i + 1])
              /\ (i' = Len(Trace)) => Finish(i', bad')
Spec == Init /\ [][Next]_<<i, s, bad>>
=============================================================================
