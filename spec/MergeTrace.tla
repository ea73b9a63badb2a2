----------------------------- MODULE MergeTrace -----------------------------
(* Recorded runs of the message stores against Merge.tla *)
EXTENDS Merge, TraceLib

VARIABLES i, st, bad

Abs(m) == [id |-> m.id, fid |-> m.fid, store |-> m.store, kind |-> m.kind, key |-> m.key, ts |-> m.ts,
           hr |-> m.hr, lt |-> m.lt, tgt |-> m.tgt, tgts |-> Range(m.tgts), par |-> m.par,
           ments |-> Range(m.ments), sub |-> m.sub, signer |-> m.signer, follow |-> m.follow]

Empty == [msgs |-> <<>>, live |-> {}, stored |-> {}, off |-> FALSE]
Ids(s) == {x.id : x \in s}

\* which live messages a query selects
Match(q, x) ==
  CASE q.q = "adds_by_fid"    -> x.store = q.store /\ x.kind = "add" /\ x.fid = q.fid /\ (q.sub = "" \/ x.sub = q.sub)
    [] q.q = "removes_by_fid" -> x.store = q.store /\ x.kind = "rem" /\ x.fid = q.fid /\ (q.sub = "" \/ x.sub = q.sub)
    [] q.q = "all_by_fid"     -> /\ x.store = q.store /\ x.kind # "cmp" /\ x.fid = q.fid
                                 /\ (q.start = -1 \/ x.ts >= q.start) /\ (q.stop = -1 \/ x.ts <= q.stop)
    [] q.q = "compacts"       -> x.kind = "cmp" /\ x.fid = q.fid
    [] q.q = "by_parent"      -> x.store = "cast" /\ x.kind = "add" /\ x.par = q.par
    [] q.q = "by_mention"     -> x.store = "cast" /\ x.kind = "add" /\ q.mention \in x.ments
    [] q.q = "by_target"      -> x.store = q.store /\ x.kind = "add" /\ x.par = q.par /\ (q.sub = "" \/ x.sub = q.sub)
    [] q.q = "followers"      -> x.store = "react" /\ x.kind = "add" /\ x.follow = q.chan
    [] q.q = "follows"        -> x.store = "react" /\ x.kind = "add" /\ x.follow # "" /\ x.fid = q.fid
    [] q.q = "by_address"     -> x.store = "verif" /\ x.kind = "add" /\ x.par = q.par
    [] q.q = "get"            -> x.store = q.store /\ x.kind = q.kind /\ x.key = q.key

Unordered(q) == q.q \in {"compacts", "followers", "follows", "by_address"}

Pages(q) == Flat(q.pages)
CheckQuery(s, q) ==
  LET sel == {x \in s.live : Match(q, x)}
      want == IF q.rev THEN Reverse(Ordered(sel)) ELSE Ordered(sel)
      got == Pages(q)
  IN Expect(q.err = "", "query-error", q) \o
     (IF q.err # "" THEN <<>>
      ELSE IF Unordered(q)
      THEN Expect(Range(got) = Ids(sel) /\ Len(got) = Cardinality(sel), "query", [q |-> q, want |-> Ids(sel)])
      ELSE Expect(got = want, "query", [q |-> q, want |-> want]))
     \o Expect(q.size = 0 \/ \A p \in 1..Len(q.pages) : Len(q.pages[p]) <= q.size, "page-size", q)

Step(s, r) ==
  CASE r.op = "reset" ->
         [st |-> [Empty EXCEPT !.msgs = [k \in 1..Len(r.msgs) |-> Abs(r.msgs[k])]], err |-> <<>>]
    [] r.op = "merge" ->
         LET m == s.msgs[r.m]
             o == Merge(s.live, s.stored, m)
             \* what the same message would sweep if it also saw its own block
             full == Merge(s.live, s.live, m)
             del == Range(r.del)
             odd == m.kind = "cmp" /\ s.stored # s.live /\ o.res = "ok" /\ o.del # full.del
         IN IF s.off THEN [st |-> s, err |-> <<>>]
            ELSE [st |-> [s EXCEPT !.live = After(s.live, m, o), !.off = odd],
                  err |-> Expect(r.res = o.res, "merge-result", [m |-> m, want |-> o.res, got |-> r.res]) \o
                          (IF r.res # "ok" \/ o.res # "ok" THEN Expect(del = {}, "refused-deletes", [m |-> m, got |-> del])
                           ELSE IF odd /\ del = Ids(o.del)
                           THEN <<[kind |-> "KNOWN-compaction-ignores-own-block", detail |-> [m |-> m.id]]>>
                           ELSE Expect(del = Ids(o.del) /\ Len(r.del) = Cardinality(del), "superseded",
                                       [m |-> m, want |-> Ids(o.del), got |-> r.del]))]
    [] r.op = "revoke" ->   \* every message of a signer
         LET gone == {x \in s.live : x.store = r.store /\ x.kind # "cmp" /\ x.fid = r.fid /\ x.signer = r.signer}
         IN IF s.off THEN [st |-> s, err |-> <<>>]
            ELSE [st |-> [s EXCEPT !.live = @ \ gone],
                  err |-> Expect(r.del = Ordered(gone), "revoked", [r |-> r, want |-> Ordered(gone)])]
    [] r.op = "prune" ->
         LET mine == {x \in s.live : x.store = r.store /\ x.fid = r.fid}
             cand == {x \in mine : x.kind # "cmp"}
             gone == Oldest(cand, Cardinality(mine) - r.max)
         IN IF s.off THEN [st |-> s, err |-> <<>>]
            ELSE [st |-> [s EXCEPT !.live = @ \ Range(gone)],
                  err |-> Expect(r.del = [k \in 1..Len(gone) |-> gone[k].id], "pruned",
                                 [r |-> r, want |-> [k \in 1..Len(gone) |-> gone[k].id]])]
    [] r.op = "commit" -> [st |-> [s EXCEPT !.stored = s.live], err |-> <<>>]
    [] r.op = "live" ->
         [st |-> s, err |-> IF s.off THEN <<>> ELSE
            Expect(Range(r.ids) = Ids(s.live) /\ Len(r.ids) = Cardinality(s.live), "live-set", [got |-> r.ids, want |-> Ids(s.live)])]
    [] r.op = "query" -> [st |-> s, err |-> IF s.off THEN <<>> ELSE CheckQuery(s, r)]

Init == i = 0 /\ st = Empty /\ bad = 0
Next == /\ i < Len(Trace)
        /\ LET x == Step(st, Trace[i + 1])
           IN /\ i' = i + 1 /\ st' = x.st /\ bad' = bad + Len(x.err)
              /\ Report(i + 1, x.err)
              /\ (i + 1 = Len(Trace) => Finish(i + 1, bad'))
Spec == Init /\ [][Next]_<<i, st, bad>>
\* structural invariants hold in every specification state the real runs visit
Shape == OnePerKey(st.live) /\ OneCompactPerType(st.live) /\ (st.off \/ CompactRespected(st.live))
=============================================================================
