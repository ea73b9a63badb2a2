------------------------------- MODULE KeysGen -------------------------------
(* Every sequence of three steps out of those that can affect each other. *)
EXTENDS Keys, TLC, Json
VARIABLE h
Steps == {"add", "readd", "other-app", "other-account", "remove", "self", "chain", "unchain", "use", "transfer", "late"}
Init == h = <<>>
Next == Len(h) < 3 /\ \E x \in Steps : h' = Append(h, x) /\ (Len(h') = 3 => PrintT(<<"BEH", ToJson(h')>>))
=============================================================================
