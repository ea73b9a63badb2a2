---- MODULE ConfigPullGen ----
(* every short list of validator sets over two shards and three heights *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLE x
Entry == [at : 0..2, shards : {<<0>>, <<1>>, <<0, 1>>}]
Lists == {<<a>> : a \in Entry} \cup {<<a, b>> : a, b \in Entry} \cup {<<a, b, c>> : a \in {e \in Entry : e.at = 0 /\ Len(e.shards) = 2}, b, c \in Entry}
    \cup {<<a, b, c, d>> : a \in {e \in Entry : e.at = 0 /\ Len(e.shards) = 2}, b \in {e \in Entry : e.at > 0}, c \in {e \in Entry : e.at > 0 /\ Len(e.shards) = 1}, d \in {e \in Entry : e.at > 0}}
Init == \E l \in Lists : x = l /\ PrintT(<<"BEH", ToJson(l)>>)
Next == FALSE /\ UNCHANGED x
====
