----------------------------- MODULE VersionsMC -----------------------------
(* Time passes from one schedule boundary to the next on each network. *)
EXTENDS Versions, TLC
Nets == {"mainnet", "testnet", "devnet"}
Ticks(net) == {0, 1609459200} \cup UNION {{Schedule(net)[n][1] - 1, Schedule(net)[n][1], Schedule(net)[n][1] + 1} : n \in 2..Len(Schedule(net))}
VARIABLES net, t
Init == net \in Nets /\ t = 0
Next == \E u \in Ticks(net) : u > t /\ t' = u /\ net' = net
Spec == Init /\ [][Next]_<<net, t>>
TypeOK == VersionAt(net, t) \in 0..Latest /\ \A f \in Features : Enabled(f, VersionAt(net, t)) \in BOOLEAN
\* versions never go back, features once on stay on (but for the short-lived revoke bug)
NeverBack == [][VersionAt(net, t') >= VersionAt(net, t)]_<<net, t>>
StaysOn == [][\A f \in Features \ {"SignerRevokeBug"} : Enabled(f, VersionAt(net, t)) => Enabled(f, VersionAt(net, t'))]_<<net, t>>
ProtocolNeverBack == [][ProtocolOf(VersionAt(net, t')) >= ProtocolOf(VersionAt(net, t))]_<<net, t>>
NextIsNext == LET n == NextAt(net, t) IN n # -1 => n > t /\ VersionAt(net, n - 1) = VersionAt(net, t)
ChannelsTogether == \A f, g \in ChannelSet : Enabled(f, VersionAt(net, t)) = Enabled(g, VersionAt(net, t))
=============================================================================
