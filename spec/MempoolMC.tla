------------------------------ MODULE MempoolMC ------------------------------
(* The mempool as a state machine: submissions, hand-outs, commits in any order. *)
EXTENDS Mempool, FiniteSets, TLC
CONSTANTS NShards, Depth, Ver
VARIABLES st, out, k

U(id, ty, ts, live) == [id |-> id, kind |-> "user", fid |-> 1, ts |-> ts, sh |-> 1, type |-> ty, live |-> live, hash |-> <<id>>, seq |-> 0, for |-> 0, bad |-> FALSE]
S(id, kind, ts, seq) == [id |-> id, kind |-> kind, fid |-> 1, ts |-> ts, sh |-> 1, type |-> "", live |-> FALSE, hash |-> <<>>, seq |-> seq, for |-> 1, bad |-> FALSE]
Msgs == {U(1, "CastAdd", 3, FALSE), U(2, "UserDataAdd", 1, TRUE), U(3, "UserDataAdd", 2, TRUE), U(4, "KeyAdd", 1, FALSE),
         U(5, "VerificationRemove", 5, FALSE), S(6, "onchain", 9, 0), S(7, "fname", 4, 0), S(8, "block", 1, 9), S(9, "block", 1, 10),
         [U(10, "CastAdd", 3, FALSE) EXCEPT !.bad = TRUE]}
Shards == 0..NShards
Init == st = [q |-> {}, stored |-> {}, seq |-> [s \in Shards |-> 8]] /\ out = <<>> /\ k = 0
RECURSIVE All(_, _, _)
All(x, shs, m) == IF shs = <<>> THEN x ELSE All(IF Admission(x, Head(shs), m, Ver) = "ok" THEN Enqueue(x, Head(shs), m) ELSE x, Tail(shs), m)
Submit == \E m \in Msgs : st' = All(st, Route(m, NShards, Ver), m) /\ out' = <<>>
\* one message handed out and put into a block, which becomes stored
Deliver == \E s \in Shards : \E m \in Deliverable(st, s, Ver) :
  /\ GoodPull(st, s, 1, Ver, <<m>>)
  /\ out' = <<[s |-> s, m |-> m]>>
  /\ LET x == AfterPull(st, s, Ver, 1, <<m>>) IN
     st' = CASE m.kind = "user" /\ m.type \in Keyed -> [x EXCEPT !.stored = @ \cup {<<s, m.id>>}]
             [] m.kind = "block" -> [x EXCEPT !.seq[s] = m.seq]
             [] OTHER -> x
Foreign == \E s \in Shards, m \in Msgs : m.kind = "user" /\ s \in {Route(m, NShards, Ver)[1]}
            /\ st' = AfterCommit([st EXCEPT !.stored = @ \cup {<<s, m.id>>}], s, {m.id}) /\ out' = <<>>
Next == k < Depth /\ k' = k + 1 /\ (Submit \/ Deliver \/ Foreign)

\* a queue holds each message once, and only messages of its shard
Placed == \A e \in st.q : \E j \in 1..Len(Route(e.m, NShards, Ver)) : Route(e.m, NShards, Ver)[j] = e.s
OneLive == \A a, b \in st.q : (a.s = b.s /\ a.m.live /\ b.m.live /\ a.m.fid = b.m.fid) => a = b
NoneBad == \A e \in st.q : ~e.m.bad
\* something that was stored before this step is not handed out again
NotTwice == [][out' # <<>> => ~Stored(st, out'[1].s, out'[1].m)]_<<st, out, k>>
\* nothing of a smaller class stays behind
Ordered == [][out' # <<>> => \A m \in Deliverable(st, out'[1].s, Ver) : ~Before(m, out'[1].m)]_<<st, out, k>>
Gated == \A e \in st.q : Active(e.m, Ver)
\* an account's live_at only moves forward in the queue
LiveForward == [][\A a, b \in st.q \cup st'.q : (a \in st.q /\ b \in st'.q /\ b \notin st.q /\ a.s = b.s /\ a.m.live /\ b.m.live /\ a.m.fid = b.m.fid /\ a \notin st'.q) => LiveNewer(b.m, a.m)]_<<st, out, k>>
Spec == Init /\ [][Next]_<<st, out, k>>
=============================================================================
