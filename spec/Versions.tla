------------------------------ MODULE Versions ------------------------------
(* Protocol versions: which version introduces each feature *)
EXTENDS Integers, Sequences

Since == [FarcasterPro |-> 5, Basenames |-> 5, EnsValidation |-> 5, MessageLengthCheckFix |-> 5,
          UsernameShardRoutingFix |-> 5, PrimaryAddresses |-> 5, FutureTimestampValidation |-> 6,
          DependentMessagesInBulkSubmit |-> 7, DecoupleShardZeroBlockProduction |-> 8,
          WriteDataToShardZero |-> 9, ReadDataFromShardZero |-> 10, UserProfileToken |-> 10,
          StorageLending |-> 11, EventIdBugFix |-> 12, StorageLendingLimitFix |-> 13,
          StopRevokingExistingMessages |-> 14, IncreaseUsernameProofSizeLimit |-> 15,
          GaslessSigners |-> 16, LiveAt |-> 17, StorageExpiryExtension2026 |-> 18, BlockLinks |-> 19,
          IncreaseEmbedLimitForAllUsers |-> 20,
          ChannelRegistrations |-> 21, SortedBlockEngineEvents |-> 21, ChannelOwnershipEvents |-> 21,
          ChannelMessages |-> 21, VerificationsOnShardZero |-> 21, ChannelFollows |-> 21]

Features == DOMAIN Since \cup {"SignerRevokeBug"}
Enabled(f, v) == IF f = "SignerRevokeBug" THEN v \in {1, 3} ELSE v >= Since[f]

(***************************************************************************)
(* The published activation times (unix seconds) of each version            *)
(***************************************************************************)
MainTimes == <<<<0, 0>>, <<1747333800, 1>>, <<1747352400, 2>>, <<1747356000, 3>>, <<1747417200, 4>>, <<1750093200, 5>>, <<1752685200, 6>>, <<1756141200, 7>>, <<1756918800, 8>>, <<1757523600, 9>>, <<1758733200, 10>>, <<1759942800, 11>>, <<1759942800, 12>>, <<1759942800, 13>>, <<1761757200, 14>>, <<1765386000, 15>>, <<1778173200, 16>>, <<1780592400, 17>>, <<1782147600, 18>>, <<1785160800, 19>>, <<1786640400, 20>>>>
TestTimes == <<<<0, 0>>, <<1748970000, 5>>, <<1752099060, 6>>, <<1755291600, 7>>, <<1755709200, 8>>, <<1756918800, 9>>, <<1757523600, 10>>, <<1758733200, 11>>, <<1758763200, 12>>, <<1758906000, 13>>, <<1761152400, 14>>, <<1764783794, 15>>, <<1777406400, 16>>, <<1779382800, 17>>, <<1781283600, 18>>, <<1784124000, 19>>, <<1786035600, 20>>>>
DevTimes == <<<<0, 21>>>>
Schedule(net) == CASE net = "mainnet" -> MainTimes [] net = "testnet" -> TestTimes [] OTHER -> DevTimes
Latest == 21

\* the version in force is that of the latest entry not after the time
VersionAt(net, t) ==
  LET s == Schedule(net)
      n == CHOOSE n \in 1..Len(s) : s[n][1] <= t /\ \A k \in (n + 1)..Len(s) : s[k][1] > t
  IN s[n][2]
\* when the next entry starts, or -1
NextAt(net, t) ==
  LET s == Schedule(net)
      later == {n \in 1..Len(s) : s[n][1] > t}
  IN IF later = {} THEN -1 ELSE s[CHOOSE n \in later : \A k \in later : n <= k][1]
Protocol == <<1, 1, 1, 1, 1, 2, 3, 4, 5, 6, 7, 8, 8, 8, 9, 10, 11, 12, 13, 13, 13, 13>>
ProtocolOf(v) == Protocol[v + 1]
ChannelSet == {"ChannelRegistrations", "SortedBlockEngineEvents", "ChannelOwnershipEvents", "ChannelMessages",
               "VerificationsOnShardZero", "ChannelFollows"}
=============================================================================
