---------------------------- MODULE OnchainTrace ----------------------------
(* Checks recorded deliveries to the real store against the specification. *)
EXTENDS Onchain, TraceLib
VARIABLES i, s, bad
Zero == [m |-> Empty, com |-> Empty]

Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Recs(m) == {<<ck, m.chan[ck].own, m.chan[ck].exp, m.chan[ck].at[1], m.chan[ck].at[2], m.chan[ck].at[3]>> : ck \in DOMAIN m.chan}
IdOf(m, f) == IF f \in DOMAIN m.idx THEN m.idx[f].id ELSE ""
ActOf(m, f, k) == IF Active(m, f, k) THEN m.sig[<<f, k>>].id ELSE ""
LabOf(m, lb) == Get(m.lab, lb, "")

Point(r, m) ==
  Expect(\A q \in Range(r.id) : q[2] = IdOf(m, q[1]), "custody",
         [got |-> r.id, want |-> [k \in 1..Len(r.id) |-> IdOf(m, r.id[k][1])]])
  \o Expect(\A q \in Range(r.act) : q[3] = ActOf(m, q[1], q[2]), "active-key",
            [got |-> r.act, want |-> [k \in 1..Len(r.act) |-> ActOf(m, r.act[k][1], r.act[k][2])]])
  \o Expect(\A q \in Range(r.lab) : q[2] = LabOf(m, q[1]), "channel-label", [got |-> r.lab])
  \o Expect({q \in Range(r.chan) : q[2] # ""} = Recs(m) /\ \A q \in Range(r.chan) : q[2] = "" => q[1] \notin DOMAIN m.chan,
            "channel-owner", [got |-> r.chan, want |-> Recs(m)])

Errs(r) ==
  CASE r.op = "start" -> <<>>
    [] r.op = "merge" ->
         LET dup == Known(s.m, r.e)
         IN Expect(r.res = (IF dup THEN "dup" ELSE "ok"), IF dup THEN "applied-twice" ELSE "refused", [e |-> r.e, got |-> r.res])
            \o Expect(dup \/ r.event = r.e.id, "event-content", [e |-> r.e.id, got |-> r.event])
            \o Expect(dup \/ ~Reversed(s.m, r.e), "KNOWN-older-log-of-same-block-wins", [e |-> r.e.id])
    [] r.op \in {"commit", "drop"} -> <<>>
    [] r.op = "peek" -> Point(r, s.m)
    [] r.op = "state" ->
         LET m == s.m
         IN Point(r, m)
            \o Expect(r.all = Ids(InOrder(m.evs)), "listing", [got |-> r.all, want |-> Ids(InOrder(m.evs))])
            \o Expect(\A q \in Range(r.kind) : q.ids = Ids(InOrder(IF q.f < 0 THEN OfKind(m, q.tn) ELSE OfFid(m, q.tn, q.f))),
                      "listing-kind", [got |-> r.kind])
            \o Expect(\A q \in Range(r.signers) : q.ids = Ids(Signers(IF q.f < 0 THEN OfKind(m, 1) ELSE OfFid(m, 1, q.f), m)),
                      "signers", [got |-> r.signers])
            \o Expect(r.fids = Fids(m), "fids", [got |-> r.fids, want |-> Fids(m)])
            \o Expect(\A q \in Range(r.after) : q.fids = FidsAfter(m, q.start), "fids-after", [got |-> r.after])
            \o Expect(\A q \in Range(r.tier) : q.until = TierUntil(m, q.f, q.tier, q.asof)
                                               /\ (q.asof < 0 \/ q.on = TierActive(m, q.f, q.tier, q.asof)),
                      "tier", [got |-> r.tier, want |-> [k \in 1..Len(r.tier) |-> TierUntil(m, r.tier[k].f, r.tier[k].tier, r.tier[k].asof)]])
            \o Expect(\A q \in Range(r.exists) : q[2] = (\E o \in m.evs : o.id = q[1]), "exists", [got |-> r.exists])
            \o Expect(\A q \in Range(r.owned) : Range(q[2]) = Owned(m, q[1]) /\ Len(q[2]) = Cardinality(Owned(m, q[1])),
                      "owned", [got |-> r.owned, want |-> [k \in 1..Len(r.owned) |-> Owned(m, r.owned[k][1])]])
            \o Expect(r.bad_address, "bad-address", [got |-> r.bad_address])
            \* many addresses at once: those of one after those of the other, page after page
            \o Expect(\A q \in Range(r.many) :
                        q.pairs = Flat([k \in 1..Len(q.addrs) |->
                                    [j \in 1..Len(r.owned[q.addrs[k]][2]) |-> <<r.owned[q.addrs[k]][1], r.owned[q.addrs[k]][2][j]>>]]),
                      "owned-by-many", [got |-> r.many])
    [] OTHER -> Expect(FALSE, "unknown-op", [op |-> r.op])

After(r) ==
  CASE r.op = "start" -> Zero
    [] r.op = "merge" -> IF Known(s.m, r.e) THEN s ELSE [s EXCEPT !.m = Merge(s.m, s.com.evs, r.e)]
    [] r.op = "commit" -> [s EXCEPT !.com = s.m]
    [] r.op = "drop" -> [s EXCEPT !.m = s.com]
    [] OTHER -> s

Init == i = 0 /\ s = Zero /\ bad = 0
Next == /\ i < Len(Trace)
        /\ LET e == Errs(Trace[i + 1])
           IN /\ i' = i + 1 /\ bad' = bad + Len(e) /\ Report(i + 1, e) /\ s' = After(Trace[i + 1])
              /\ (i' = Len(Trace)) => Finish(i', bad')
Spec == Init /\ [][Next]_<<i, s, bad>>
=============================================================================
