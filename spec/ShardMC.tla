------------------------------- MODULE ShardMC -------------------------------
(* Every history of small blocks over a few accounts, messages and transfers: what a shard guarantees
   its users, apart from the findings (the odd blocks). *)
EXTENDS Shard
CONSTANTS Focus, Wide
VARIABLES s, copy, ev, odd, com, used
vars == <<s, copy, ev, odd, com, used>>

V == 21
M0 == [id |-> 0, fid |-> 1, store |-> "cast", kind |-> "add", key |-> "", ts |-> 1, hr |-> 1, lt |-> "", tgt |-> 0, tgts |-> {},
       signer |-> "k", mt |-> 1, pr |-> 3, need |-> "", val |-> "", addr |-> "", prim |-> ""]
Cast(n, f, t) == [M0 EXCEPT !.id = n, !.fid = f, !.key = ToString(n), !.ts = t, !.hr = n]
Uncast(n, f, t, of) == [M0 EXCEPT !.id = n, !.fid = f, !.key = ToString(of), !.ts = t, !.hr = n, !.mt = 2, !.kind = "rem"]
Link(n, f, k, g, t) == [M0 EXCEPT !.id = n, !.fid = f, !.store = "link", !.kind = k, !.key = ToString(g), !.lt = "follow", !.tgt = g,
                                  !.ts = t, !.hr = n, !.mt = IF k = "add" THEN 5 ELSE 6]
Cmp(n, f, S, t) == [M0 EXCEPT !.id = n, !.fid = f, !.store = "link", !.kind = "cmp", !.key = "cmp", !.lt = "follow", !.tgts = S, !.ts = t, !.hr = n, !.mt = 14]
Name(n, f, x, t) == [M0 EXCEPT !.id = n, !.fid = f, !.store = "data", !.key = "6", !.ts = t, !.hr = n, !.mt = 11, !.need = "name", !.val = x]

Msgs ==
  CASE Focus = "limits" -> {Cast(1, 1, 1), Cast(2, 1, 2), Cast(3, 1, 3), Uncast(4, 1, 4, 2), Link(5, 1, "add", 7, 2)}
                           \cup (IF Wide THEN {Cast(6, 1, 5), Link(7, 1, "rem", 7, 3), Cmp(8, 1, {}, 4)} ELSE {})
    [] Focus = "names" -> {Name(1, 1, "a", 1), Name(2, 2, "a", 2)} \cup (IF Wide THEN {Name(3, 1, "b", 4), Name(4, 1, "", 5)} ELSE {})
    [] OTHER -> {Link(1, 1, "add", 7, 2), Link(2, 1, "rem", 7, 3), Cmp(3, 1, {}, 2), Cmp(4, 1, {7}, 4), Cast(5, 2, 1)}
                \cup (IF Wide THEN {Uncast(6, 2, 2, 5), Link(7, 1, "add", 8, 1)} ELSE {})
P(n, f, x, t, from) == [id |-> n, fid |-> f, name |-> x, ts |-> t, sr |-> n, from |-> from, ok |-> TRUE]
Transfers ==
  IF Focus # "names" THEN {}
  ELSE {P(1, 1, "a", 1, 0), P(2, 2, "a", 2, 1), P(3, 1, "a", 3, 2)} \cup (IF Wide THEN {P(4, 2, "b", 2, 0), P(5, 0, "a", 4, 1)} ELSE {})
Rent(f, n) == [tn |-> 4, f |-> f, b |-> n, l |-> 1, k |-> "", key |-> "", id |-> n, on |-> TRUE, units |-> 1, x |-> 0]
Rents == IF Focus = "limits" THEN {Rent(1, 9)} ELSE {}

Limits == [cast |-> IF Focus = "limits" THEN 2 ELSE 5, link |-> IF Focus = "limits" THEN 1 ELSE 5, react |-> 5, data |-> 5, verif |-> 5, proof |-> 5]
Known0 == [O!Empty EXCEPT !.idx = [f \in {1, 2} |-> [own |-> "o"]], !.sig = [p \in {1, 2} \X {"k"} |-> [k |-> "add", kt |-> 1]]]
Start0 == [Fresh0 EXCEPT !.chain = Known0, !.units = <<1, 1>>]

Items == [t : {"name"}, e : Transfers] \cup [t : {"on"}, e : Rents]
FidOf(x) == IF x.t = "name" THEN x.e.fid ELSE x.e.f
Perms(S) == {q \in [1..Cardinality(S) -> S] : \A a, b \in DOMAIN q : a # b => q[a] # q[b]}
\* a transaction: at most one system message and two user messages of one account
Txns(f) == {[fid |-> f, sys |-> y, user |-> u] :
              y \in {<<>>} \cup {<<x>> : x \in {z \in Items : FidOf(z) = f}},
              u \in UNION {Perms(S) : S \in {T \in SUBSET {m \in Msgs : m.fid = f} : Cardinality(T) <= 2}}}
Blocks == {<<t>> : t \in UNION {Txns(f) : f \in {0, 1, 2}}}
          \cup (IF Focus = "names" THEN UNION {Txns(1) \X Txns(2), Txns(2) \X Txns(1)} ELSE {})
Given(b) == UNION {{[n |-> b[j].user[q].id, sys |-> FALSE] : q \in DOMAIN b[j].user} \cup {[n |-> b[j].sys[q].e.id, sys |-> TRUE] : q \in DOMAIN b[j].sys} : j \in DOMAIN b}
Wf == {m.id : m \in Msgs}
Ids(x) == {m.id : m \in x.live}

Init == s = Start0 /\ copy = {} /\ ev = <<>> /\ odd = {} /\ com = Start0 /\ used = {}
\* every message is offered once or twice: it is not offered again once it was offered in two blocks
Next == \E b \in Blocks :
          LET g == Given(b) IN
          /\ g # {} /\ g \cap used = {}
          /\ LET x == Whole(s, b, V, Wf, Limits, [k |-> 1])
             IN /\ s' = x.s /\ ev' = x.ev /\ odd' = odd \cup x.odd /\ copy' = Replay(copy, x.ev)
          /\ com' = s /\ used' = used \cup g
Spec == Init /\ [][Next]_vars
View == <<s, copy, odd, used, ev, com>>

\* replaying the events gives the live messages
Replays == "stale" \in odd \/ copy = Ids(s)
\* no account keeps more than it may
WithinLimits == (odd \cap {"emptied", "prune-committed-only", "prune-misses-rent", "stale"}) # {} \/ OverLimit(s, Limits) = {}
\* what goes for want of room is older than all that stays, is no more than it has to be, and never a compaction
PrunedIds == {ev[j].m : j \in {k \in DOMAIN ev : ev[k].k = "prune"}}
Pruned == {m \in Msgs : m.id \in PrunedIds}
PrunesOldest ==
  (odd \cap {"emptied", "prune-committed-only", "prune-misses-rent", "stale"}) # {} \/
  \A m \in Pruned : /\ m.kind # "cmp" /\ m \notin s.live
                    /\ \A o \in s.live : (o.fid = m.fid /\ o.store = m.store /\ o.kind # "cmp") => ~(o.ts < m.ts)
                    /\ Cardinality({o \in s.live : o.fid = m.fid /\ o.store = m.store}) = Max0(s, m.fid, m.store, Limits)
\* looking a name up and looking its owner up agree
Lookups == LookupsAgree(s.nm)
OneProof == \A n \in DOMAIN s.nm.names : s.nm.names[n].name = n
\* a name that is shown is owned, unless it was set in the block that moved it
Shown == Unowned(s) # {} => odd # {}
\* the newest proof is the one in force, and it never goes back
NewestName == [][\A n \in DOMAIN s.nm.names : n \in DOMAIN s'.nm.names /\ ~NameNewer(s.nm.names[n], s'.nm.names[n])]_vars
\* every change of the live messages is in one event of the block, failures change nothing
Changed == (Ids(s) \ Ids(com)) \cup (Ids(com) \ Ids(s))
InEvents(n) == Cardinality({j \in DOMAIN ev : ev[j].k # "fail" /\ (ev[j].m = n \/ n \in ev[j].d)})
Told == "stale" \in odd \/ \A n \in Changed : InEvents(n) >= 1
Inv == Replays /\ WithinLimits /\ PrunesOldest /\ Lookups /\ OneProof /\ Shown /\ Told
=============================================================================
