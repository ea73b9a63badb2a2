------------------------------ MODULE OnchainGen ------------------------------
(* All deliveries of three events of one family, with or without a commit after each. *)
EXTENDS Onchain, Json
VARIABLES fam, h
Places == {<<1, 1>>, <<1, 2>>, <<2, 1>>}
Kinds(fm) == CASE fm = "id" -> {"register", "transfer", "recovery"}
              [] fm = "key" -> {"add", "remove", "reset"}
              [] OTHER -> {"register1", "register2", "renew", "transfer1", "transfer2"}
Steps(fm) == [k : Kinds(fm), at : Places, commit : IF fm = "channel" THEN {TRUE} ELSE BOOLEAN]
Init == fam \in {"id", "key", "channel"} /\ h = <<>>
Next == /\ Len(h) < 3
        /\ UNCHANGED fam
        /\ \E s \in Steps(fam) : h' = Append(h, s) /\ (Len(h') = 3 => PrintT(<<"BEH", ToJson([fam |-> fam, h |-> h'])>>))
=============================================================================
