------------------------------ MODULE ChannelsMC ------------------------------
(* Every history of one channel, two addresses and a few accounts.              *)
EXTENDS Channels, TLC
CONSTANTS Fids, Depth, MemberCap
VARIABLES s, n, last
vars == <<s, n, last>>
Caps == [member |-> MemberCap, mod |-> 1]
None == [t |-> "none"]

Init == s = Zero0 /\ n = 0 /\ last = None
Say(m) == Taken(s, m, Caps) /\ s' = Act(s, m) /\ last' = m
Next ==
    /\ n < Depth
    /\ n' = n + 1
    /\ \/ \E a \in {"A", "B"} : s' = Own(s, 1, a) /\ last' = None
       \/ \E f \in Fids, a \in {"A", "B"}, add \in BOOLEAN : s' = Verify(s, f, a, add, 1, f) /\ last' = None
       \/ \E f, g \in Fids, act \in Actions : Say([t |-> "member", c |-> 1, f |-> f, target |-> g, act |-> act, ts |-> 0, id |-> <<f, act>>])
       \/ \E f \in Fids, b \in {"", "open"} : Say([t |-> "update", c |-> 1, f |-> f, body |-> [casting |-> "", membership |-> b], id |-> <<f, b>>])
       \/ \E f \in Fids : Say([t |-> "pin", c |-> 1, f |-> f, cast |-> "x", id |-> <<f, "pin">>])
Spec == Init /\ [][Next]_vars

OneRowEach == \A x, y \in s.mem : x.c = y.c /\ x.f = y.f => x = y
RowsFit == Cardinality(Rows(s, 1)) <= MemberCap /\ Moderators(s, 1) <= ModeratorCap
(* nothing moves on a channel nobody can be shown to own, but members leaving   *)
Frozen == [][~ Known(s, 1) \/ Owner(s, 1) = 0 =>
              /\ s'.upd = s.upd /\ s'.pin = s.pin /\ s'.mod = s.mod
              /\ \A x \in s'.mem \ s.mem : x.by = x.f /\ x.st = "removed"]_vars
(* the settled owner is never banned                                            *)
OwnerSafe == [][\A x \in s'.mem \ s.mem : x.st = "banned" => x.f # Owner(s, 1)]_vars
(* moderators are made and unmade by the owner, or leave                        *)
ModeratorsByOwner == [][\A f \in Fids : (StateOf(s, 1, f) = "moderator") # (StateOf(s', 1, f) = "moderator")
                         => \E x \in s'.mem : x.f = f /\ (x.by = Owner(s, 1) \/ (x.by = f /\ x.st = "removed"))]_vars
(* a ban ends only by the staff lifting it                                      *)
BanHolds == [][\A f \in Fids : StateOf(s, 1, f) = "banned" /\ StateOf(s', 1, f) # "banned"
                => last'.act = "unban" /\ Role(s, 1, last'.f) \in {"owner", "moderator"} /\ StateOf(s', 1, f) = "removed"]_vars
(* nobody becomes a member without the staff unless the channel is open         *)
JoinByLeave == [][\A f \in Fids : StateOf(s, 1, f) \in {"none", "removed"} /\ StateOf(s', 1, f) = "member"
                   => Role(s, 1, last'.f) \in {"owner", "moderator"} \/ (last'.f = f /\ Open(s, 1))]_vars
SettingsByOwner == [][s'.upd # s.upd => last'.f = Owner(s, 1)]_vars
(* rows are never lost                                                          *)
RowsStay == [][\A x \in s.mem : \E y \in s'.mem : y.c = x.c /\ y.f = x.f]_vars
=============================================================================
