------------------------------- MODULE MeshGen -------------------------------
(* All short sequences of configured nodes, over the keys of two known nodes (a, b),
   of one known by peer id only (c), and new ones (n).                            *)
EXTENDS Mesh, Json
VARIABLES cfg, k
Entries == [pub : {"", "a", "b", "n"}, pid : {"", "a", "b", "c", "n"}]
Init == cfg = <<>> /\ k = 0
Next == /\ k < 2
        /\ k' = k + 1
        /\ \E e \in Entries : cfg' = Append(cfg, e) /\ PrintT(<<"BEH", ToJson(cfg')>>)
=============================================================================
