------------------------------- MODULE Mempool -------------------------------
(* The mempool: routing, admission, order of hand-out, rates.

   A message is a record
     [id, kind, fid, ts, sh (shard of the account), type, live, hash, seq, for, bad]
   kind : "user", "onchain", "migration", "fname", "block";  ts : unix seconds;
   live : sets the account's live_at;  hash : its digest as a sequence of numbers;
   seq/for : sequence number and target shard of a block event.
   The queue is a set of [s |-> shard, m |-> message].                          *)
EXTENDS Versions

ShardZeroTypes == {"LendStorage", "KeyAdd", "KeyRemove", "ChannelUpdate", "ChannelMember", "ChannelPin", "ChannelModerate"}
ChannelTypes == {"ChannelUpdate", "ChannelMember", "ChannelPin", "ChannelModerate"}
VerifTypes == {"VerificationAddEthAddress", "VerificationRemove"}
\* kinds of user message the stores keep under a key of their own
Keyed == {"CastAdd", "CastRemove", "ReactionAdd", "ReactionRemove", "LinkAdd", "LinkRemove", "UserDataAdd", "UsernameProof",
          "LendStorage"} \cup VerifTypes \cup ChannelTypes

\* the shard of an account, from the leading 32 bits of its digest
AccountShard(hi, lo, n) == (((((hi % n) * (65536 % n)) % n) + (lo % n)) % n) + 1
UserShard(type, sh, v) ==
  IF type \in ShardZeroTypes \/ (type \in VerifTypes /\ Enabled("VerificationsOnShardZero", v)) THEN 0 ELSE sh
\* where a submitted message has to be queued, in the order it is tried
Route(m, n, v) ==
  CASE m.kind = "user" -> <<UserShard(m.type, m.sh, v)>>
    [] m.kind = "onchain" -> <<0, m.sh>>
    [] m.kind = "migration" -> <<0>>
    [] m.kind = "fname" -> IF Enabled("UsernameShardRoutingFix", v) THEN [k \in 1..n |-> k] ELSE <<m.sh>>
    [] m.kind = "block" -> <<m.for>>

(* order of hand-out: chain and registry input before user messages, then by time;
   the block events of one block by sequence number.  (Block events carry the chain's
   own clock; they are not compared with onchain events and transfers.) *)
Class(m) == IF m.kind = "user" THEN 1 ELSE 0
Before(a, b) ==
  \/ Class(a) < Class(b)
  \/ Class(a) = Class(b) /\ (a.kind = "block" <=> b.kind = "block") /\ a.ts < b.ts
  \/ Class(a) = Class(b) /\ a.ts = b.ts /\ a.kind = "block" /\ b.kind = "block" /\ a.seq < b.seq

RECURSIVE LexLess(_, _)
LexLess(a, b) ==
  IF a = <<>> THEN b # <<>>
  ELSE IF b = <<>> THEN FALSE
  ELSE Head(a) < Head(b) \/ (Head(a) = Head(b) /\ LexLess(Tail(a), Tail(b)))
\* later live_at wins; between equal times the larger digest
LiveNewer(a, b) == a.ts > b.ts \/ (a.ts = b.ts /\ LexLess(b.hash, a.hash))

(***************************************************************************)
(* st : [q, stored (set of <<shard, id>>), seq (shard -> last block event)] *)
(***************************************************************************)
Active(m, v) ==
  m.kind = "user" => /\ m.type \in ChannelTypes => Enabled("ChannelMessages", v)
                     /\ m.type \in {"KeyAdd", "KeyRemove"} => Enabled("GaslessSigners", v)
Stored(st, s, m) ==
  CASE m.kind = "user" -> m.type \in Keyed /\ <<s, m.id>> \in st.stored
    [] m.kind = "block" -> m.seq <= st.seq[s]
    [] OTHER -> FALSE
Valid(st, s, m, v) == Active(m, v) /\ ~Stored(st, s, m)

Queued(st, s) == {e.m : e \in {e \in st.q : e.s = s}}
RivalLives(st, s, m) == IF m.kind = "user" /\ m.live THEN {x \in Queued(st, s) : x.kind = "user" /\ x.live /\ x.fid = m.fid} ELSE {}
LiveSuperseded(st, s, m) == \E x \in RivalLives(st, s, m) : LiveNewer(x, m)

(* admission into one shard, before rates: "refused", "duplicate" or "ok" *)
Admission(st, s, m, v) ==
  IF m.bad THEN "refused"
  ELSE IF \E x \in Queued(st, s) : x.id = m.id THEN "duplicate"
  ELSE IF LiveSuperseded(st, s, m) THEN "duplicate"
  ELSE IF ~Active(m, v) THEN "refused"
  ELSE IF m.kind = "block" /\ s = 0 THEN "refused"
  ELSE IF Stored(st, s, m) THEN "duplicate"
  ELSE "ok"
Enqueue(st, s, m) ==
  [st EXCEPT !.q = {e \in @ : ~(e.s = s /\ e.m \in RivalLives(st, s, m))} \cup {[s |-> s, m |-> m]}]

(* what may be handed out for shard s with room for n messages *)
Deliverable(st, s, v) == {m \in Queued(st, s) : Valid(st, s, m, v)}
GoodPull(st, s, n, v, out) ==
  LET D == Deliverable(st, s, v)
      got == {out[k] : k \in 1..Len(out)}
  IN /\ got \subseteq D
     /\ \A i, j \in 1..Len(out) : i < j => out[i] # out[j] /\ ~Before(out[j], out[i])
     /\ Len(out) <= n
     /\ Len(out) < n => got = D
     /\ \A m \in D \ got : \A x \in got : ~Before(m, x)
\* after the pull: what was handed out is gone, and so is what could not be and came earlier
AfterPull(st, s, v, n, out) ==
  LET got == {out[k] : k \in 1..Len(out)}
      Gone(m) == m \in got \/ (~Valid(st, s, m, v) /\ (Len(out) < n \/ \E x \in got : Before(m, x)))
  IN [st EXCEPT !.q = {e \in @ : e.s # s \/ ~Gone(e.m)}]
\* a committed block: its messages leave the queue of its shard
AfterCommit(st, s, ids) == [st EXCEPT !.q = {e \in @ : ~(e.s = s /\ e.m.id \in ids)}]

(***************************************************************************)
(* Rates.  Storage per unit, by kind of unit: casts, links, reactions, user *)
(* data, verifications, username proofs, lends                             *)
(***************************************************************************)
PerUnit == [legacy |-> 5000 + 2500 + 2500 + 50 + 25 + 5 + 1, u2024 |-> 2000 + 1000 + 1000 + 50 + 25 + 5 + 1,
            u2025 |-> 100 + 200 + 200 + 25 + 5 + 2 + 1]
Allowance(units) == units.legacy * PerUnit.legacy + units.u2024 * PerUnit.u2024 + units.u2025 * PerUnit.u2025
HourlyRate(units) == IF Allowance(units) \div 10 > 100 THEN Allowance(units) \div 10 ELSE 100
LiveRate(units) == 5000 * (units.legacy + units.u2024 + units.u2025)
HasStorage(units) == units.legacy + units.u2024 + units.u2025 > 0

(* with a burst of n per hour and `taken` already granted in `ms` milliseconds *)
MayGrant(n, taken, ms, hourMs) == taken <= n + (((ms \div 1000) + 1) * n) \div (hourMs \div 1000)
MustGrant(n, taken) == taken < n
=============================================================================
