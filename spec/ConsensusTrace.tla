--------------------------- MODULE ConsensusTrace ---------------------------
(* Validator sets, certificates, followers and proposals of the real code,     *)
(* against Consensus.tla.                                                      *)
EXTENDS Consensus, TraceLib
VARIABLES i, s, bad

NoFol == [last |-> 0, buf |-> {}, cap |-> 0]
Zero == [sets |-> <<>>, shard |-> 1, fol |-> NoFol, last |-> 0, kind |-> "chunk", pv |-> NoValues, wrote |-> {}, lp |-> NoValues, first |-> 1]

M(shard, h) == Members(s.sets, shard, h)
Ascending(S) == [k \in 1..Cardinality(S) |-> Nth(S, k - 1)]
Clause(ok, kind, d) == Expect(ok, kind, d)

(* is a decided value one the follower must take in? *)
Passes(r) ==
  LET v == CertVerdict(M(s.shard, r.c.h), r.c)
  IN IF ~r.whole \/ ~r.bound \/ ~r.version THEN "no" ELSE v
Without(r) == [r EXCEPT !.hdr = TRUE]
SameFol(f, r) == f.last = r.last /\ f.buf = Range(r.buf)
Took(r) == FollowerTakes(s.fol, r.h)
DeliverErrs(r) ==
  LET p == Passes(r)
      acc == SameFol(Took(r), r) /\ r.took = (Took(r).last - s.fol.last)
      ref == SameFol(s.fol, r) /\ r.took = 0
      want == IF p = "no" THEN ref ELSE IF p = "either" THEN acc \/ ref ELSE acc
      (* the version matters only once the certificate is known to be good *)
      stop == r.whole /\ r.bound /\ ~r.version /\ CertVerdict(M(s.shard, r.c.h), r.c) = "yes"
      some == r.whole /\ ~r.version /\ CertVerdict(M(s.shard, r.c.h), r.c) # "no"
  IN IF r.died THEN Expect(FALSE, "follower-died", r)
     ELSE IF p # "no" /\ ~r.hdr THEN Expect(ref, "KNOWN-header-hash-unchecked", [got |-> r, before |-> s.fol])
     ELSE Expect(want, IF p = "no" THEN "follower-took-uncertified" ELSE "follower-did-not-apply", [got |-> r, want |-> p, before |-> s.fol])
       \o Expect(~stop \/ r.exits > 0, "wrong-version-not-reported", r)
       \o Expect(some \/ r.exits = 0, "stopped-for-nothing", r)

(* A proposal is turned down unless it is good.  Nobody checks the parent's    *)
(* hash, the header's hash and a block's list of events (known findings).      *)
JudgeErrs(r) ==
  LET good == ProposalGood(s.kind, s.last, r.p)
      butHash == ProposalGood(s.kind, s.last, [r.p EXCEPT !.hash = TRUE, !.parent = TRUE, !.events = TRUE])
  IN IF good THEN Expect(r.got = "valid", "good-proposal-refused", r)
     ELSE IF butHash /\ ~r.p.hash THEN Expect(r.got # "valid", "KNOWN-header-hash-unchecked", r)
     ELSE IF butHash /\ ~r.p.events THEN Expect(r.got # "valid", "KNOWN-event-list-unchecked", r)
     ELSE IF butHash THEN Expect(r.got # "valid", "KNOWN-parent-hash-unchecked", r)
     ELSE Expect(r.got = "invalid", "bad-proposal-accepted", r)

Errs(r) ==
  CASE r.op = "reset" -> <<>>
    [] r.op = "set" -> Expect(r.got = Ascending(M(r.shard, r.h)), "validator-set", [got |-> r, want |-> Ascending(M(r.shard, r.h))])
                    \o Expect(r.count = Cardinality(M(r.shard, r.h)), "validator-count", r)
    [] r.op = "latest" -> Expect(Range(r.got) = LatestKeys(s.sets), "latest-validators", [got |-> r, want |-> LatestKeys(s.sets)])
    [] r.op = "proposer" -> Expect(r.got = ProposerAt(M(r.shard, r.h), r.h, r.r), "proposer", r)
    [] r.op = "cert" -> LET v == CertVerdict(M(r.shard, r.c.h), r.c)
                        IN Expect(v = "either" \/ r.got = v, IF r.got = "yes" THEN "certificate-accepted" ELSE "certificate-refused", [got |-> r, want |-> v, set |-> M(r.shard, r.c.h)])
    [] r.op = "codec" -> Expect(r.same, "codec", r)
    [] r.op = "follow" -> Expect(r.last = s.last, "follower-height", [got |-> r, want |-> s.last])
    [] r.op = "deliver" -> DeliverErrs(r)
    [] r.op = "serve" -> Expect(r.got = (IF r.h >= 1 /\ r.h <= s.fol.last THEN "same" ELSE "none"), "served", [got |-> r, last |-> s.fol.last])
    [] r.op = "root" -> Expect(r.same, "follower-state", r)
    [] r.op = "propose" ->
         Expect(r.h = s.last + 1 /\ r.number /\ r.hash /\ r.wit, "proposal-links", r)
         \o Expect(r.r = r.asked, "proposal-of-another-round", r)
         \o Expect(r.parent, "proposal-parent", r)
         \o Expect(\A w \in s.wrote : w[1] # r.h \/ w[2] # r.r \/ w[3] = r.value, "proposed-two-values", [got |-> r, before |-> s.wrote])
    [] r.op = "judge" -> JudgeErrs(r)
    [] r.op = "decided" -> Expect(r.last = s.last + 1 /\ r.stored = "same" /\ r.link, "decided", [got |-> r, last |-> s.last])
                           \o Expect(r.pending = 0, "undecided-left", r)
    [] r.op = "pv-get" -> Expect(r.got = (IF r.x \in DOMAIN s.pv THEN s.pv[r.x].tag ELSE 0), "proposed-values", [got |-> r, want |-> s.pv])
    \* the node's own store of what it proposed: one value per shard, height and round
    [] r.op = "lp-get" -> Expect(r.got = (IF r.x \in DOMAIN s.lp THEN s.lp[r.x] ELSE 0), "stored-proposals", [got |-> r, want |-> s.lp])
    [] r.op = "pv-count" -> Expect(r.got = Cardinality(DOMAIN s.pv), "proposed-values", [got |-> r, want |-> s.pv])
    [] r.op \in {"validator", "pv-add", "pv-decide", "pv", "lp-put", "lp-drop"} -> <<>>
    [] OTHER -> Expect(FALSE, "unknown-op", r)

After(r) ==
  CASE r.op = "reset" -> [Zero EXCEPT !.sets = r.sets, !.shard = r.shard]
    [] r.op = "follow" -> [s EXCEPT !.fol = [last |-> r.last, buf |-> {}, cap |-> r.cap], !.last = r.last]
    [] r.op = "deliver" -> IF r.died THEN s ELSE [s EXCEPT !.fol = [s.fol EXCEPT !.last = r.last, !.buf = Range(r.buf)], !.last = r.last]
    [] r.op = "validator" -> [s EXCEPT !.kind = r.kind, !.last = r.last]
    [] r.op = "propose" -> [s EXCEPT !.wrote = @ \cup {<<r.h, r.r, r.value>>}]
    [] r.op = "decided" -> [s EXCEPT !.last = r.last]
    [] r.op = "lp-put" -> [s EXCEPT !.lp = (r.x :> r.tag) @@ @]
    [] r.op = "lp-drop" -> [s EXCEPT !.lp = [x \in {y \in DOMAIN @ : y[1] # r.shard \/ y[2] # r.h} |-> @[x]]]
    [] r.op = "pv" -> [s EXCEPT !.pv = NoValues]
    [] r.op = "pv-add" -> [s EXCEPT !.pv = PvAdd(@, r.x, r.tag, r.h)]
    [] r.op = "pv-decide" -> [s EXCEPT !.pv = PvDecide(@, r.h)]
    [] OTHER -> s

Init == i = 0 /\ s = Zero /\ bad = 0
Next == /\ i < Len(Trace)
        /\ LET e == Errs(Trace[i + 1])
           IN /\ i' = i + 1 /\ bad' = bad + Len(e) /\ Report(i + 1, e) /\ s' = After(Trace[i + 1])
              /\ (i' = Len(Trace)) => Finish(i', bad')
Spec == Init /\ [][Next]_<<i, s, bad>>
=============================================================================
