------------------------------ MODULE Consensus ------------------------------
(* Who decides a shard's next block, what makes a proposal and a certificate   *)
(* good, and how a follower applies certified blocks.                          *)
(*                                                                             *)
(* Validators are numbers, in the order of their addresses.  A validator set   *)
(* entry is [at, keys, shards]: from height at on, keys decide for shards.     *)
(* A certificate is [h, r, value, sigs]; each of sigs is [who, good], who = 0  *)
(* for somebody in no set, good when the signature is who's precommit for      *)
(* exactly this height, round and value.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RangeOf(q) == {q[k] : k \in 1..Len(q)}

(* the entry in force: the latest that names the shard and has begun; before   *)
(* any has, the first entry of the configuration                               *)
InForce(sets, shard, h) ==
  LET C == {k \in 1..Len(sets) : shard \in RangeOf(sets[k].shards) /\ sets[k].at <= h}
  IN IF C = {} THEN 1
     ELSE CHOOSE k \in C : \A j \in C : sets[j].at < sets[k].at \/ (sets[j].at = sets[k].at /\ k <= j)
Members(sets, shard, h) == RangeOf(sets[InForce(sets, shard, h)].keys)

(* everybody who may be deciding now or next, over all shards *)
LatestKeys(sets) ==
  LET Shards == UNION {RangeOf(sets[k].shards) : k \in 1..Len(sets)}
      LastFor(x) == CHOOSE k \in 1..Len(sets) : x \in RangeOf(sets[k].shards)
                        /\ \A j \in 1..Len(sets) : x \in RangeOf(sets[j].shards) => j <= k
  IN UNION {RangeOf(sets[LastFor(x)].keys) : x \in Shards}

(* the k-th smallest member, k from 0 *)
Nth(M, k) == CHOOSE m \in M : Cardinality({x \in M : x < m}) = k
ProposerAt(M, h, r) == Nth(M, (h - 1 + r) % Cardinality(M))

Quorum(n, total) == (3 * n) > (2 * total)

Signers(sigs) == {sigs[k].who : k \in 1..Len(sigs)}
CertGood(M, c) ==
  /\ Quorum(Len(c.sigs), Cardinality(M))
  /\ Cardinality(Signers(c.sigs)) = Len(c.sigs)
  /\ Signers(c.sigs) \subseteq M
  /\ \A k \in 1..Len(c.sigs) : c.sigs[k].good
InOrder(sigs) == \A k \in 1..(Len(sigs) - 1) : sigs[k].who < sigs[k + 1].who
(* a certificate whose signatures are all good but not in the validators'      *)
(* order may be turned down; one that is not good never passes                 *)
CertVerdict(M, c) == IF ~CertGood(M, c) THEN "no" ELSE IF InOrder(c.sigs) THEN "yes" ELSE "either"

-----------------------------------------------------------------------------
(* A follower: [last, buf, cap] with buf the heights it holds back.            *)
RECURSIVE Drain(_, _)
Drain(last, buf) == IF (last + 1) \in buf THEN Drain(last + 1, buf) ELSE last
FollowerTakes(f, h) ==
  IF h > f.last + 1
    THEN [f EXCEPT !.buf = IF Cardinality(f.buf) < f.cap THEN f.buf \cup {h} ELSE f.buf]
  ELSE IF h = f.last + 1
    THEN LET l == Drain(h, f.buf) IN [f EXCEPT !.last = l, !.buf = {x \in f.buf : x > l}]
  ELSE f

-----------------------------------------------------------------------------
(* A proposal, as a validator at confirmed height last sees it: p is           *)
(* [kind, h, chain, version, parent, hash, wit, body, events] - each but kind and h    *)
(* says whether that part is as it must be.                                    *)
ProposalGood(own, last, p) ==
  /\ p.kind = own /\ p.h = last + 1
  /\ p.chain /\ p.version /\ p.parent /\ p.hash /\ p.wit /\ p.body /\ p.events

(* Values proposed and not yet decided: hash -> [tag, hs] where tag is the     *)
(* last proposal that carried it and hs the heights it was proposed at.        *)
NoValues == [x \in {} |-> 0]
PvAdd(pv, x, tag, h) ==
  [y \in DOMAIN pv \cup {x} |->
     IF y # x THEN pv[y] ELSE [tag |-> tag, hs |-> (IF x \in DOMAIN pv THEN pv[x].hs ELSE {}) \cup {h}]]
PvDecide(pv, h) == [y \in {z \in DOMAIN pv : \A k \in pv[z].hs : k > h} |-> pv[y]]
==============================================================================
