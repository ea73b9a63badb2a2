------------------------------ MODULE ChannelsGen ------------------------------
(* A shortest way into every state of a channel with two accounts acted on: the *)
(* state of either, the mode, and who owns it.                                  *)
EXTENDS Channels, TLC, Json
VARIABLES s, h
Caps == [member |-> 9, mod |-> 9]
Start == Verify(Verify(Own(Zero0, 1, "A"), 1, "A", TRUE, 1, 1), 2, "B", TRUE, 1, 1)
Init == s = Start /\ h = <<>>
Do(m, j) == Taken(s, m, Caps) /\ s' = Act(s, m) /\ h' = Append(h, j)
Next ==
    /\ Len(h) < 8
    /\ \/ \E f \in {1, 2, 3}, g \in {2, 3}, act \in Actions :
            Do([t |-> "member", c |-> 1, f |-> f, target |-> g, act |-> act, ts |-> 0, id |-> Len(h)], <<"member", f, g, act>>)
       \/ \E f \in {1, 2}, b \in {"", "open"} :
            Do([t |-> "update", c |-> 1, f |-> f, body |-> [casting |-> "", membership |-> b], id |-> Len(h)], <<"update", f, b>>)
       \/ \E a \in {"A", "B", "C"} : a # s.own[1] /\ s' = Own(s, 1, a) /\ h' = Append(h, <<"own", a>>)
View == <<s.own, StateOf(s, 1, 2), StateOf(s, 1, 3), Open(s, 1)>>
Say == PrintT(<<"BEH", ToJson(h)>>)
=============================================================================
