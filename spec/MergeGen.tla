------------------------------ MODULE MergeGen ------------------------------
(* Prints every sequence (repetitions included) of Len messages from a small
   universe, for replay into the real stores. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, N
B(c) == IF c THEN 1 ELSE 0
\* h is the rank of the message's hash: unique, and independent of ts and kind order
Lww == {[ts |-> t, kind |-> kd, k |-> 0, h |-> g * 8 + (2 - t) * 2 + B(kd = "add"), l |-> 0, tg |-> <<>>] :
          t \in {1, 2}, kd \in {"add", "rem"}, g \in {0, 1}}
Links == {[ts |-> t, kind |-> kd, k |-> g, h |-> t * 4 + g * 2 + B(kd = "add"), l |-> 0, tg |-> <<>>] :
          t \in {1, 2}, kd \in {"add", "rem"}, g \in {0, 1}}
         \cup {[ts |-> 1, kind |-> "add", k |-> 0, h |-> 1, l |-> 1, tg |-> <<>>]}
Cmps == {[ts |-> t, kind |-> "cmp", k |-> 0, h |-> 12 + t * 2 + B(g = <<>>), l |-> 0, tg |-> g] :
          t \in {1, 2, 3}, g \in {<<>>, <<0>>}}
U == IF Mode = "lww" THEN Lww ELSE Links \cup Cmps
VARIABLE s
Init == s = <<>>
Next == /\ Len(s) < N
        /\ \E m \in U : s' = Append(s, m)
        /\ (Len(s') = N => PrintT(<<"BEH", ToJson([mode |-> Mode, msgs |-> s', order |-> [i \in 1..N |-> i]])>>))
Spec == Init /\ [][Next]_s
=============================================================================
