------------------------------ MODULE MempoolGen ------------------------------
(* Short histories over named messages of one account and two block events. *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES h
T == {"c1", "c2", "v", "l1", "l2", "k", "o", "f", "b9", "b10"}
Shard(t) == IF t \in {"v", "k"} THEN 0 ELSE 1
Sub == {[o |-> "submit", t |-> t, s |-> 1, n |-> 0] : t \in T}
Pulls == {[o |-> "pull", t |-> "", s |-> 1, n |-> 1], [o |-> "pull", t |-> "", s |-> 0, n |-> 2]}
Did(t) == \E j \in 1..Len(h) : h[j].o = "submit" /\ h[j].t = t
Effects == {[o |-> "commit", t |-> t, s |-> Shard(t), n |-> 0] : t \in {t \in T : Did(t)}}
           \cup {[o |-> "stored", t |-> t, s |-> Shard(t), n |-> 0] : t \in {t \in T : Did(t)} \ {"o", "f"}}
Init == h = <<>>
Next == /\ Len(h) < 4
        /\ \E a \in Sub \cup (IF h = <<>> THEN {} ELSE Pulls \cup Effects) : h' = Append(h, a)
        /\ (Len(h') = 4 => PrintT(<<"BEH", ToJson(h')>>))
=============================================================================
