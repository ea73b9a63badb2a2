----------------------------- MODULE SnapshotGen -----------------------------
(* Histories of uploads and downloads (kind "run"), and of blocks and prunings ("prune"). *)
EXTENDS Snapshot, Json
VARIABLES h, kind
Ups == [op : {"up"}, shard : {1, 10}, n : {1, 3, 11}]
Downs == [op : {"down"}, shards : {<<1>>, <<10>>, <<1, 10>>}, fault : {"none", "once", "thrice", "short", "gone", "five", "bad"}]
Blocks == [op : {"block"}, gap : {0, 1, 3}]
Prunes == [op : {"prune"}, cut : 0..6]
Init == kind \in {"run", "prune"} /\ h = <<>>
Next == /\ kind' = kind
        /\ IF kind = "run"
           THEN /\ Len(h) < 3 /\ \E e \in Ups \cup Downs : h' = Append(h, e)
                /\ (h'[Len(h')].op = "down" => PrintT(<<"BEH", ToJson([kind |-> "run", steps |-> h'])>>))
           ELSE /\ Len(h) < 5 /\ \E e \in Blocks \cup Prunes : h' = Append(h, e)
                /\ ((h'[Len(h')].op = "prune" /\ Len(h') = 5 /\ h'[1].op = "block") => PrintT(<<"BEH", ToJson([kind |-> "prune", steps |-> h'])>>))
==============================================================================
