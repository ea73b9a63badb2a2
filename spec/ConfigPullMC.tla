---- MODULE ConfigPullMC ----
(* A fleet keeping up with a registry through endpoints whose view may lag: the counter a
   node records always belongs to the document it merged, nothing but the managed keys
   changes, and validators that share a document have different restart slots. *)
EXTENDS ConfigPull
CONSTANTS Nodes, Versions
VARIABLES reg, file, mark, pin
vars == <<reg, file, mark, pin>>
Members == SUBSET Nodes \ {{}}
DocOf(m) == [shape |-> "ok", sets |-> << [at |-> 0, shards |-> <<0>>, keys |-> <<"good">>] >>,
             values |-> [k \in Managed |-> IF k = "consensus.validator_sets" THEN m ELSE {}]]
Own == [n \in Nodes |-> [k \in {"consensus.private_key", "rocksdb_dir"} |-> n]]
Init == reg \in {<<m>> : m \in Members} /\ file = Own /\ mark = [n \in Nodes |-> 0] /\ pin = [n \in Nodes |-> 0]
Mutate == Len(reg) < Versions /\ \E m \in Members : reg' = Append(reg, m) /\ UNCHANGED <<file, mark, pin>>
\* an endpoint may serve any state up to the newest
Pin(n) == pin[n] = 0 /\ \E b \in DOMAIN reg : b >= mark[n] /\ pin' = [pin EXCEPT ![n] = b] /\ UNCHANGED <<reg, file, mark>>
Pull(n) == /\ pin[n] # 0 /\ DocOk(DocOf(reg[pin[n]]))
           /\ file' = [file EXCEPT ![n] = Merge(@, DocOf(reg[pin[n]]), FALSE)]
           /\ mark' = [mark EXCEPT ![n] = pin[n]] /\ pin' = [pin EXCEPT ![n] = 0] /\ UNCHANGED reg
Fail(n) == pin[n] # 0 /\ pin' = [pin EXCEPT ![n] = 0] /\ UNCHANGED <<reg, file, mark>>
Next == Mutate \/ \E n \in Nodes : Pin(n) \/ Pull(n) \/ Fail(n)
Spec == Init /\ [][Next]_vars
Bound == \A n \in Nodes : mark[n] > 0 => file[n]["consensus.validator_sets"] = reg[mark[n]]
Untouched == \A n \in Nodes : \A k \in DOMAIN Own[n] : file[n][k] = Own[n][k]
SlotsDistinct == \A n, m \in Nodes : n # m /\ mark[n] = mark[m] /\ mark[n] > 0 /\ {n, m} \subseteq reg[mark[n]]
                   => Slot(n, reg[mark[n]]).index # Slot(m, reg[mark[m]]).index
SlotsBounded == \A n \in Nodes : mark[n] > 0 => LET s == Slot(n, reg[mark[n]]) IN s.index <= s.count /\ (s.index = s.count <=> n \notin reg[mark[n]])
Forward == [][\A n \in Nodes : mark'[n] >= mark[n]]_vars
====
