----------------------------- MODULE ServeTrace -----------------------------
(* The public interface of a node that hosts several shards: every query is the query of
   Merge.tla over the accounts of all shards, every page of a query that no single account
   answers has a share of each shard, and the event log of each shard is what it merged.

   Further state: split - for each shard, the accounts it holds
                  log   - for each shard, [ev, m, del]: the event's number, what was merged,
                          what that superseded *)
EXTENDS MergeTrace

ShardOf(s, f) == CHOOSE k \in 1..Len(s.split) : f \in Range(s.split[k])
Known(s, ids) == \A k \in 1..Len(ids) : ids[k] \in 1..Len(s.msgs)
Share(s, ids, k) == SelectSeq(ids, LAMBDA w : ShardOf(s, s.msgs[w].fid) = k)

\* a query that all shards answer
CheckFan(s, q) ==
  LET sel == {x \in s.live : Match(q, x)}
      part(k) == LET o == Ordered({x \in sel : ShardOf(s, x.fid) = k}) IN IF q.rev THEN Reverse(o) ELSE o
      got == Pages(q)
      shards == 1..Len(s.split)
  IN Expect(q.err = "", "query-error", q) \o
     (IF q.err # "" THEN <<>>
      ELSE IF ~ Known(s, got) THEN Expect(FALSE, "query", [q |-> q, want |-> Ids(sel)])
      ELSE Expect(IF Unordered(q) THEN Range(got) = Ids(sel) /\ Len(got) = Cardinality(sel)
                  ELSE \A k \in shards : Share(s, got, k) = part(k), "query", [q |-> q, want |-> Ids(sel)])
           \o Expect(q.size = 0 \/ \A p \in 1..Len(q.pages) : \A k \in shards : Len(Share(s, q.pages[p], k)) <= q.size, "page-size", q))

Fan(q) == q.q \in {"by_parent", "by_mention", "by_target", "followers"}

\* events: from is inclusive, stop is not
Said(s, k, from, stop) == SelectSeq(s.log[k], LAMBDA e : e.ev >= from /\ (stop = -1 \/ e.ev < stop))
Told(got, k) == LET g == SelectSeq(got, LAMBDA e : e.sh = k) IN [w \in 1..Len(g) |-> [ev |-> g[w].ev, m |-> g[w].m, del |-> g[w].del]]

CheckEvents(s, q) ==
  LET got == Flat(q.pages)
      want(k) == LET l == Said(s, k, q.from, q.stop) IN IF q.rev THEN Reverse(l) ELSE l
  IN Expect(q.err = "", "served-events", q) \o
     (IF q.err # "" THEN <<>>
      ELSE Expect(/\ \A w \in 1..Len(got) : got[w].sh \in Range(q.shards)
                  /\ \A k \in Range(q.shards) : Told(got, k) = want(k), "served-events",
                  [q |-> q, want |-> [k \in Range(q.shards) |-> want(k)]])
           \o Expect(q.size = 0 \/ \A p \in 1..Len(q.pages) : \A k \in Range(q.shards) : Len(Told(q.pages[p], k)) <= q.size, "served-events", q))

CheckStream(s, q) ==
  LET want(k) == IF ~ q.wanted THEN <<>>
                 ELSE (IF q.from = -1 THEN <<>> ELSE Said(s, k, q.from, -1)) \o Told(q.live, k)
  IN Expect(/\ \A w \in 1..Len(q.got) : q.got[w].sh \in Range(q.shards)
            /\ \A k \in Range(q.shards) : Told(q.got, k) = want(k), "served-stream",
            [q |-> q, want |-> [k \in Range(q.shards) |-> want(k)]])

SStep(s, r) ==
  CASE r.op = "reset" ->
         [st |-> [msgs |-> [k \in 1..Len(r.msgs) |-> Abs(r.msgs[k])], live |-> {}, stored |-> {}, off |-> FALSE,
                  split |-> r.split, log |-> [k \in 1..Len(r.split) |-> <<>>]], err |-> <<>>]
    [] r.op = "merge" ->
         LET x == Step(s, r)
             k == r.sh
             e == [ev |-> r.ev, m |-> r.m, del |-> IF s.msgs[r.m].kind = "cmp" THEN <<>> ELSE r.del]
         IN IF r.res # "ok" THEN x
            ELSE [st |-> [x.st EXCEPT !.log[k] = Append(@, e)],
                  err |-> x.err \o Expect(k = ShardOf(s, s.msgs[r.m].fid), "routing", r)
                          \o Expect(s.log[k] = <<>> \/ s.log[k][Len(s.log[k])].ev < r.ev, "ids", r)]
    [] r.op = "query" /\ Fan(r) -> [st |-> s, err |-> IF s.off THEN <<>> ELSE CheckFan(s, r)]
    [] r.op = "events" -> [st |-> s, err |-> CheckEvents(s, r)]
    [] r.op = "event" ->
         LET hit == SelectSeq(s.log[r.sh], LAMBDA e : e.ev = r.ev)
         IN [st |-> s, err |-> Expect(Told(r.got, r.sh) = hit /\ Len(r.got) = Len(hit), "served-events", [r |-> r, want |-> hit])]
    [] r.op = "stream" -> [st |-> s, err |-> CheckStream(s, r)]
    [] OTHER -> Step(s, r)

SInit == i = 0 /\ bad = 0 /\ st = SStep([x |-> 0], [op |-> "reset", msgs |-> <<>>, split |-> <<>>]).st
SNext == /\ i < Len(Trace)
         /\ LET x == SStep(st, Trace[i + 1])
            IN /\ i' = i + 1 /\ st' = x.st /\ bad' = bad + Len(x.err)
               /\ Report(i + 1, x.err)
               /\ (i + 1 = Len(Trace) => Finish(i + 1, bad'))
SSpec == SInit /\ [][SNext]_<<i, st, bad>>
=============================================================================
