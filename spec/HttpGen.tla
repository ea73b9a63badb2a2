------------------------------ MODULE HttpGen ------------------------------
(* Hands the endpoint table to the driver, which fills in the values. *)
EXTENDS Http, Json
VARIABLE k
All == [i \in 1..Len(Endpoints) |-> Endpoints[i] @@ [post |-> FALSE]]
       \o [i \in 1..Len(Posts) |-> Posts[i] @@ [post |-> TRUE]]
Init == k = 1
Next == /\ k <= Len(All)
        /\ PrintT(<<"BEH", ToJson(All[k])>>)
        /\ k' = k + 1
Spec == Init /\ [][Next]_k
=============================================================================
