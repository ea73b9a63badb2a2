----------------------------- MODULE ConsensusMC -----------------------------
(* Validators sign, some of them lie, the set changes at a height, followers   *)
(* get certificates in any order.  An honest validator precommits one value    *)
(* per height (that is the agreement protocol's part, which is a library).     *)
EXTENDS Consensus
CONSTANTS Top, Cap, Rounds, Bad

Sets == << [at |-> 0, keys |-> <<1, 2, 3, 4>>, shards |-> <<1>>],
           [at |-> 0, keys |-> <<1, 2>>, shards |-> <<2>>],
           [at |-> 2, keys |-> <<2, 3, 4, 5>>, shards |-> <<1>>] >>
Values == {"a", "b"}
(* 1 leaves the set before height 2 and can then be bought; 4 always lies *)
Liars(h) == IF h >= 2 THEN {1, 4} ELSE {4}
Everybody == 1..5
Shard == 1
Honest(h) == Everybody \ Liars(h)
SetAt(h) == IF Bad = "old-set" THEN RangeOf(Sets[1].keys) ELSE Members(Sets, Shard, h)

VARIABLES voted,   \* [height -> [validator -> value or "none"]]
          stored,  \* proposals an honest proposer wrote down: set of <<h, r, v>>
          sent,    \* proposals it sent out: set of <<h, r, v>>
          fol, chain
vars == <<voted, stored, sent, fol, chain>>
Followers == 1..2

Init == /\ voted = [h \in 1..Top |-> [x \in Everybody |-> "none"]]
        /\ stored = {} /\ sent = {}
        /\ fol = [k \in Followers |-> [last |-> 0, buf |-> {}, cap |-> Cap]]
        /\ chain = [k \in Followers |-> [h \in 1..Top |-> "none"]]

Written(h, r) == {v \in Values : <<h, r, v>> \in stored}
(* an honest proposer sends a fresh value, or the one it wrote down before;    *)
(* a crash loses what it has in memory only, so proposing again covers it      *)
Propose(h, r, v) ==
  /\ ProposerAt(SetAt(h), h, r) \in Honest(h)
  /\ \/ Written(h, r) = {} \/ v \in Written(h, r) \/ Bad = "forget-proposal"
  /\ <<h, r, v>> \notin sent
  /\ stored' = stored \cup {<<h, r, v>>} /\ sent' = sent \cup {<<h, r, v>>}
  /\ UNCHANGED <<voted, fol, chain>>
Sign(x, h, v) ==
  /\ x \in SetAt(h) \cap Honest(h) /\ voted[h][x] = "none"
  /\ \/ \E r \in 0..(Rounds - 1) : <<h, r, v>> \in sent \/ ProposerAt(SetAt(h), h, r) \in Liars(h)
  /\ voted' = [voted EXCEPT ![h][x] = v]
  /\ UNCHANGED <<stored, sent, fol, chain>>

CanSign(h, v) == {x \in Honest(h) : voted[h][x] = v} \cup Liars(h)
(* certificates anybody can put together *)
Ordered(S) == [k \in 1..Cardinality(S) |-> Nth(S, k - 1)]
Certs(h, v) ==
  IF Bad = "count-twice"
    THEN {c \in UNION {[1..n -> CanSign(h, v)] : n \in 1..4} : \A j, k \in DOMAIN c : j < k => c[j] <= c[k]}
  ELSE {Ordered(CanSign(h, v)), Ordered(CanSign(h, v) \cap SetAt(h))}
AsSigs(c) == [k \in 1..Len(c) |-> [who |-> c[k], good |-> TRUE]]
Accepts(h, c) ==
  IF Bad = "count-twice"
    THEN Quorum(Len(c), Cardinality(SetAt(h))) /\ RangeOf(c) \subseteq SetAt(h)
  ELSE IF Bad = "half" THEN (2 * Len(c)) >= Cardinality(SetAt(h)) /\ Cardinality(RangeOf(c)) = Len(c) /\ RangeOf(c) \subseteq SetAt(h)
  ELSE CertVerdict(SetAt(h), [sigs |-> AsSigs(c)]) = "yes"
Hold(k) == fol[k].buf
Deliver(k, h, v) ==
  /\ \E c \in Certs(h, v) : Accepts(h, c)
  /\ LET f == FollowerTakes(fol[k], h)
         keep == h > fol[k].last /\ (h \in f.buf \/ h <= f.last)
     IN /\ fol' = [fol EXCEPT ![k] = f]
        /\ chain' = IF keep /\ chain[k][h] = "none" THEN [chain EXCEPT ![k][h] = v] ELSE chain
  /\ UNCHANGED <<voted, stored, sent>>
Restart(k) == /\ fol' = [fol EXCEPT ![k].buf = {}]
              /\ chain' = [chain EXCEPT ![k] = [h \in 1..Top |-> IF h > fol[k].last THEN "none" ELSE chain[k][h]]]
              /\ UNCHANGED <<voted, stored, sent>>

Next == \/ \E h \in 1..Top, r \in 0..(Rounds - 1), v \in Values : Propose(h, r, v)
        \/ \E x \in Everybody, h \in 1..Top, v \in Values : Sign(x, h, v)
        \/ \E k \in Followers, h \in 1..Top, v \in Values : Deliver(k, h, v)
        \/ \E k \in Followers : Restart(k)
Spec == Init /\ [][Next]_vars

TypeOK == \A k \in Followers : fol[k].last \in 0..Top /\ fol[k].buf \subseteq 1..Top
NoGap == \A k \in Followers : \A h \in 1..Top : h <= fol[k].last => chain[k][h] # "none"
Bounded == \A k \in Followers : Cardinality(fol[k].buf) <= Cap
           /\ \A h \in fol[k].buf : h > fol[k].last + 1
(* what one follower holds no other follower holds differently *)
Agree == \A h \in 1..Top : chain[1][h] = "none" \/ chain[2][h] = "none" \/ chain[1][h] = chain[2][h]
(* enough honest validators of the set in force stand behind it *)
Backed == \A k \in Followers, h \in 1..Top : chain[k][h] # "none" =>
            Quorum(Cardinality({x \in Members(Sets, Shard, h) : x \in Liars(h) \/ voted[h][x] = chain[k][h]}),
                   Cardinality(Members(Sets, Shard, h)))
OneProposal == \A p, q \in sent : p[1] = q[1] /\ p[2] = q[2] => p[3] = q[3]
Forward == [][\A k \in Followers : fol'[k].last >= fol[k].last
               /\ \A h \in 1..Top : h <= fol[k].last => chain'[k][h] = chain[k][h]]_vars
==============================================================================
