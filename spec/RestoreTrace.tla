---------------------------- MODULE RestoreTrace ----------------------------
EXTENDS Restore, TraceLib
VARIABLES i, s, bad

\* len: records of each unit; st: what was on disk when the session began; at: where the next page of a
\* unit begins; reached: the positions the pages of this session ended at; seen: the last look at the disk
Zero == [len |-> <<>>, st |-> [have |-> <<>>, done |-> <<>>], at |-> <<>>, reached |-> <<>>, seen |-> <<>>, lacks |-> 0, plan |-> "", over |-> FALSE]
Units(st) == DOMAIN st.len
Disk(r) == [have |-> r.have, done |-> r.done]
\* over: the session copies once more over a whole copy whose positions were already cleared
\* a unit of which everything was written but that was not marked finished is asked for again
Again(st, u) == ~st.st.done[u] /\ st.st.have[u] = st.len[u]
Origin(d, len, u) == IF d.have[u] = len[u] THEN 0 ELSE d.have[u]

After(r) ==
  CASE r.op = "reset" -> [Zero EXCEPT !.len = r.len]
    [] r.op = "session" -> [s EXCEPT !.st = Disk(r), !.plan = r.plan, !.lacks = r.lacks, !.over = r.over, !.seen = Disk(r),
                              !.at = [u \in Units(s) |-> Origin(Disk(r), s.len, u)],
                              !.reached = [u \in Units(s) |-> {r.have[u]}]]
    [] r.op = "served" -> IF r.ok THEN [s EXCEPT !.at[r.u] = r.to, !.reached[r.u] = @ \cup {r.to}] ELSE s
    [] r.op = "look" -> [s EXCEPT !.seen = Disk(r)]
    [] OTHER -> s

Lost(r) ==
  Expect(r.lost[1] = 0, "KNOWN-restored-misses-block-events", r)
  \o Expect(r.lost[2] = 0, "KNOWN-restored-forgets-channel-owners", r)
  \o Expect(r.lost[3] = 0, "KNOWN-restored-forgets-burned-names", r)
None(r) == r.lost = <<0, 0, 0>>

Errs(r) ==
  CASE r.op = "reset" ->
         \* every key of the tree of a snapshot is handed out once, with its record; the snapshots kept are those told of
         Expect(\A k \in 1..Len(r.listed) : r.listed[k], "handed out", r)
         \o Expect(Range(r.snapshots) \subseteq Range(r.kept) /\ r.h \in Range(r.snapshots), "snapshots", r)
    [] r.op = "session" ->
         Expect(\A u \in Units(s) : (r.done[u] => r.have[u] = s.len[u]) /\ r.have[u] <= s.len[u], "resumed from", r)
    [] r.op = "served" ->
         Expect(~s.st.done[r.u], "finished unit asked for again", r)
         \o Expect(r.from = s.at[r.u], "page not next", [want |-> s.at[r.u], got |-> r])
         \o Expect(r.first = (r.from = 0), "token", r)
         \o Expect(r.right, "height", r)
         \o Expect(s.lacks = 0 \/ r.peer # s.lacks, "peer without the snapshot", r)
    [] r.op = "look" ->
         Expect(\A u \in Units(s) : r.have[u] \in s.reached[u], "position", r)
         \o Expect(\A u \in Units(s) : r.have[u] >= s.seen.have[u] \/ Again(s, u), "position lost", r)
         \o Expect(\A u \in Units(s) : s.seen.done[u] => r.done[u], "work lost", r)
         \o Expect(\A u \in Units(s) : r.done[u] => r.have[u] = s.len[u], "finished early", r)
         \o Expect(\A u \in Units(s) : r.exact[u] \/ Again(s, u) \/ s.over, "tree and position", r)
         \o Expect(r.only, "keys of no unit", r)
         \o Expect(r.stray = <<>>, "rows the source has not", r)
    [] r.op = "end" ->
         Expect(r.result \in {"finished", "error"}, "fell over", r)
         \o Expect(r.promoted = (r.result = "finished"), "promoted", r)
         \o Expect(r.plan \notin Honest \/ r.result = Ends(r.plan), "honest source not copied", r)
         \o Expect(~r.forged \/ r.result = "error", "forged copy accepted", r)
         \o Expect(r.plan # "empty" \/ r.result = "error", "copied from nothing", r)
         \o (IF ~r.promoted THEN <<>> ELSE
              Expect(\A u \in Units(s) : s.st.done[u] \/ s.len[u] \in s.reached[u], "unit not fetched", r)
              \o Expect(r.root, "root", r) \o Expect(r.zero, "shard 0", r)
              \o Expect(r.diff = <<>>, "rows differ", [diff |-> r.diff])
              \o Lost(r)
              \o Expect(r.mended /\ r.mlater = <<>>, "cannot go on", [why |-> r.mwhy, later |-> r.mlater])
              \o (IF None(r) THEN Expect(r.on /\ r.later = <<>>, "cannot go on", [why |-> r.why, later |-> r.later]) ELSE <<>>)
              \o Expect(r.at = r.h, "height of copy", r))
    [] OTHER -> <<>>

Init == i = 0 /\ s = Zero /\ bad = 0
Next == /\ i < Len(Trace)
        /\ LET e == Errs(Trace[i + 1])
           IN /\ i' = i + 1 /\ bad' = bad + Len(e) /\ Report(i + 1, e) /\ s' = After(Trace[i + 1])
              /\ (i' = Len(Trace)) => Finish(i', bad')
Spec == Init /\ [][Next]_<<i, s, bad>>
=============================================================================
