---------------------------- MODULE VersionsGen ----------------------------
(* Every boundary of every schedule, a second either side *)
EXTENDS Versions, TLC, Json
VARIABLE t
Init == \E s \in {MainTimes, TestTimes} : \E n \in 2..Len(s) : \E d \in {-1, 0, 1} :
          t = s[n][1] + d /\ PrintT(<<"BEH", ToJson([t |-> t])>>)
Next == FALSE /\ UNCHANGED t
Spec == Init /\ [][Next]_t
=============================================================================
