------------------------------ MODULE OnchainMC ------------------------------
(* Every order of delivery, with redelivery and lost transactions, of a small set of events. *)
EXTENDS Onchain
CONSTANTS Wide
VARIABLES m, com, last
vars == <<m, com, last>>
E(tn, k, b, l, key, own, id) ==
  [tn |-> tn, f |-> IF tn = 6 THEN 0 ELSE 1, b |-> b, x |-> 0, l |-> l, ts |-> b, k |-> k, key |-> key, kt |-> 1, tier |-> 1,
   days |-> 1, ck |-> IF k = "transfer" THEN "" ELSE "c", lab |-> "L", labok |-> TRUE, own |-> own, ownok |-> own # "",
   kc |-> TRUE, exp |-> b, id |-> id]
Universe ==
  {E(3, "register", 1, 1, "", "", "r1"), E(3, "transfer", 2, 1, "", "", "t1"), E(3, "transfer", 3, 1, "", "", "t2"),
   E(1, "add", 2, 2, "k", "", "a1"), E(1, "remove", 4, 1, "k", "", "d1")}
  \cup (IF Wide THEN {E(1, "reset", 3, 3, "k", "", "s1"), E(1, "add", 5, 1, "k", "", "a2")} ELSE {})
  \cup {E(6, "register", 2, 5, "", "o1", "c1"), E(6, "renew", 4, 2, "", "", "c2"), E(6, "transfer", 3, 4, "", "o2", "c3")}
Init == m = Empty /\ com = Empty /\ last = "start"
Deliver == \E e \in Universe : /\ ~Known(m, e) /\ m' = Merge(m, com.evs, e) /\ last' = "merge" /\ UNCHANGED com
Commit == m # com /\ com' = m /\ last' = "commit" /\ UNCHANGED m
Lose == m # com /\ m' = com /\ last' = "lose" /\ UNCHANGED com
Next == Deliver \/ Commit \/ Lose
Spec == Init /\ [][Next]_vars

MaxOf(S, Less(_, _)) == CHOOSE e \in S : \A o \in S : o = e \/ Less(o, e)
Block(a, b) == a.b < b.b
\* the custody event in force is the newest of those delivered
Custody == LET S == {e \in m.evs : e.tn = 3 /\ e.k # "recovery"}
           IN IF S = {} THEN DOMAIN m.idx = {} ELSE m.idx[1] = MaxOf(S, Block)
\* without resets the key's event in force is the newest of those delivered
Keys == LET S == {e \in m.evs : e.tn = 1}
        IN (\A e \in S : e.k # "reset") => (IF S = {} THEN DOMAIN m.sig = {} ELSE m.sig[<<1, "k">>] = MaxOf(S, Block))
\* label and key agree, and the record stands at the newest event that took effect
Channels == /\ \A lb \in DOMAIN m.lab : m.lab[lb] \in DOMAIN m.chan
            /\ \A ck \in DOMAIN m.chan : \E lb \in DOMAIN m.lab : m.lab[lb] = ck
            /\ \A ck \in DOMAIN m.chan : \E e \in m.evs : e.tn = 6 /\ Pos(e) = m.chan[ck].at
\* delivered in block order, the owner is that of the newest register or transfer
ChannelsInOrder ==
  LET S == {e \in m.evs : e.tn = 6} O == {e \in S : e.k # "renew"}
      reg == {e \in S : e.k = "register"}
  IN (Cardinality(S) = 3 /\ m.chan # <<>> /\ m.chan["c"].own = "o2") => m.chan["c"].at[1] >= 3
Forward == [][last' # "lose" => (\A ck \in DOMAIN m.chan : ck \in DOMAIN m'.chan /\ ~LexLess(m'.chan[ck].at, m.chan[ck].at))]_vars
Inv == Custody /\ Keys /\ Channels /\ ChannelsInOrder
=============================================================================
