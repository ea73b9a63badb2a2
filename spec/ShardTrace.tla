----------------------------- MODULE ShardTrace -----------------------------
(* Recorded histories of real shard engines (one that proposes, one that validates, one that only
   replays, one that crashes), folded over Shard. *)
EXTENDS Shard, TraceLib
VARIABLES i, s, bad

Zero == [w |-> <<>>, st |-> Fresh0, old |-> Fresh0, h |-> 0, log |-> <<>>, off |-> FALSE, dead |-> FALSE]

\* --- the cast of a history ------------------------------------------------------------------------
Msg(x) == [x EXCEPT !.tgts = Range(x.tgts)]
World(r) == [msgs |-> [j \in DOMAIN r.msgs |-> Msg(r.msgs[j])], chain |-> r.chain, names |-> r.names,
             blk |-> r.blk, limits |-> r.limits, rank |-> r.rank, fids |-> r.fids]
Item(w, x) ==
  CASE x.t = "on" -> [t |-> "on", e |-> w.chain[x.n]]
    [] x.t = "name" -> [t |-> "name", e |-> w.names[x.n]]
    [] OTHER -> LET b == w.blk[x.n] IN [t |-> "blk", e |-> [seq |-> b.seq, v |-> b.v, m |-> IF b.m = 0 THEN [id |-> 0] ELSE w.msgs[b.m]]]
Tx(w, t) == [fid |-> t.fid, sys |-> [j \in DOMAIN t.sys |-> Item(w, t.sys[j])], user |-> [j \in DOMAIN t.user |-> w.msgs[t.user[j]]]]

Expected(r) == Whole(s.st, [j \in DOMAIN r.txs |-> Tx(s.w, r.txs[j])], r.v, Range(r.wf), s.w.limits, s.w.rank)

\* --- events -----------------------------------------------------------------------------------------
Shape(e) == Ev(e.k, e.m, IF e.k = "fail" THEN {} ELSE Range(e.d))
Want(e) == IF e.k = "fail" THEN [e EXCEPT !.d = {}] ELSE e
Seen(evs) == [j \in DOMAIN evs |-> Shape(evs[j])]
Meant(evs) == [j \in DOMAIN evs |-> Want(evs[j])]
FirstDiff(a, b) == CHOOSE j \in 1..(Max(Len(a), Len(b)) + 1) :
                     /\ \A q \in 1..(j - 1) : q <= Len(a) /\ q <= Len(b) /\ a[q] = b[q]
                     /\ ~(j <= Len(a) /\ j <= Len(b) /\ a[j] = b[j])
At(a, j) == IF j <= Len(a) THEN a[j] ELSE Ev("none", 0, {})
OfNames(m) == m \in DOMAIN s.w.msgs /\ (s.w.msgs[m].store = "proof" \/ s.w.msgs[m].need = "name")
AboutName(e) == e.k = "name" \/ (e.k \in {"merge", "fail", "revoke", "unproof"} /\ OfNames(e.m))
Kind(a, b) == IF {"prune", "unproof"} \cap {a.k, b.k} # {} THEN "prune-events"
              ELSE IF AboutName(a) \/ AboutName(b) THEN "name-events" ELSE "events"
EventsErrs(got, want) ==
  LET g == Seen(got)  w == Meant(want) IN
  IF g = w THEN <<>>
  ELSE LET j == FirstDiff(g, w) IN Expect(FALSE, Kind(At(g, j), At(w, j)), [at |-> j, got |-> At(g, j), want |-> At(w, j)])
\* why a message failed
WhyErrs(got, want) ==
  Flat([j \in 1..Min(Len(got), Len(want)) |->
    IF got[j].k = "fail" /\ want[j].k = "fail" /\ got[j].m = want[j].m
    THEN Expect(got[j].why \in want[j].d, IF OfNames(got[j].m) THEN "name-refusal" ELSE "refusal", [m |-> got[j].m, got |-> got[j].why, want |-> want[j].d])
    ELSE <<>>])
\* identifiers: the height, then 0 for the block itself, then 1, 2, ...
IdErrs(r, evs) ==
  Expect(r.conf.i = <<r.h, 0>> /\ r.conf.total = Len(evs) + 1, "ids", [got |-> r.conf, n |-> Len(evs)])
  \o Expect(\A j \in DOMAIN evs : evs[j].i = <<r.h, j>>, "ids", [h |-> r.h, got |-> [j \in DOMAIN evs |-> evs[j].i]])

KnownOf == [x \in {"stale", "reproof", "rejected-transfer-withdraws", "other-name-withdrawn", "prune-committed-only", "emptied", "set-late", "prune-misses-rent"} |->
  CASE x = "stale" -> "KNOWN-removal-of-superseded" [] x = "reproof" -> "KNOWN-name-proof-leaves-tree"
    [] x = "rejected-transfer-withdraws" -> "KNOWN-rejected-transfer-withdraws" [] x = "other-name-withdrawn" -> "KNOWN-other-name-withdrawn"
    [] x = "prune-misses-rent" -> "KNOWN-prune-misses-new-rent"
    [] x = "set-late" -> "KNOWN-name-set-as-it-moves"
    [] x = "prune-committed-only" -> "KNOWN-prune-sees-committed-only" [] OTHER -> "KNOWN-prune-counts-emptied-type"]

LiveIds(x) == {m.id : m \in x.live}
BlockErrs(r) ==
  LET x == Expected(r)
      e1 == r.evs[1]
  IN EventsErrs(e1, x.ev)
     \o (IF Seen(e1) = Meant(x.ev) THEN WhyErrs(e1, x.ev) ELSE <<>>)
     \o IdErrs(r, e1)
     \o Flat([j \in DOMAIN r.evs |-> Expect(r.evs[j] = e1, "nodes-differ", [node |-> j, at |-> FirstDiff(r.evs[j], e1), got |-> Len(r.evs[j]), want |-> Len(e1)])])
     \o Expect(Cardinality(Range(r.roots)) = 1, "nodes-differ", [roots |-> r.roots])
     \o Expect(\A j \in DOMAIN r.valid : r.valid[j], "verdict", [got |-> r.valid])
     \o Expect(s.off \/ "reproof" \in x.odd \/ "stale" \in x.odd \/ r.tree, "tree", [h |-> r.h])
     \* the events say what happened to the live messages
     \o Expect("stale" \in x.odd \/ Replay(LiveIds(s.st), Seen(e1)) = LiveIds(x.s), "replay", [h |-> r.h])
     \o Flat([j \in 1..Cardinality(x.odd \ {"gap"}) |-> Expect(FALSE, KnownOf[SetToSeq(x.odd \ {"gap"})[j]], [h |-> r.h])])

\* --- what is stored -------------------------------------------------------------------------------
NamesOf(x) == {<<n, x.nm.names[n].id>> : n \in DOMAIN x.nm.names}
StateErrs(x, g, n) ==
  Expect(Range(g.live) = LiveIds(x), "live", [node |-> n, more |-> Range(g.live) \ LiveIds(x), less |-> LiveIds(x) \ Range(g.live)])
  \o Expect(Range(g.chain) = {e.id : e \in x.chain.evs}, "live", [node |-> n, chain |-> Range(g.chain)])
  \o Expect(Range(g.names) = NamesOf(x), "names", [node |-> n, got |-> Range(g.names), want |-> NamesOf(x)])
  \o Expect(g.seq = x.seq, "block-events", [node |-> n, got |-> g.seq, want |-> x.seq])
  \* looking up by account and by name agree
  \o Flat([j \in DOMAIN g.by |->
       LET f == g.by[j][1]
           own == OwnedBy(x.nm, f)
           p == g.by[j][2]
       IN IF p = 0 THEN IF own = {} THEN <<>>
                        ELSE IF f \notin DOMAIN x.nm.by THEN Expect(FALSE, "KNOWN-owner-of-two-names", [fid |-> f])
                        ELSE Expect(FALSE, "owner-lookup", [fid |-> f, got |-> p, owns |-> own])
          ELSE Expect(f \in DOMAIN x.nm.by /\ x.nm.names[x.nm.by[f]].id = p, "owner-lookup", [fid |-> f, got |-> p, owns |-> own])])

\* every way of asking for a page
Log == s.log
PageErrs(r) ==
  LET want == SelectSeq(Log, LAMBDA e : Lex(r.from, e) \/ e = r.from)
  IN Expect(r.got = want, "pages", [from |-> r.from, size |-> r.size, got |-> Len(r.got), want |-> Len(want), at |-> FirstDiff(r.got, want)])
     \o Expect(\A j \in DOMAIN r.pages : r.pages[j] <= r.size, "pages", [size |-> r.size, pages |-> r.pages])

\* --- proposals --------------------------------------------------------------------------------------
Mine(q, f, t) == SelectSeq(q, LAMBDA x : x.f = f /\ (x.t = "user") = t)
Ns(q) == [j \in DOMAIN q |-> q[j].n]
PoolErrs(r) ==
  LET w == s.w
      rents(f) == \E j \in DOMAIN r.in : r.in[j].t = "on" /\ r.in[j].f = f /\ w.chain[r.in[j].n].tn = 4 /\ w.chain[r.in[j].n].on
      may(f) == UnitsOf(s.st, f) > 0 \/ (Enabled("DependentMessagesInBulkSubmit", r.v) /\ rents(f))
      user(f) == IF may(f) THEN Ns(Mine(r.in, f, TRUE)) ELSE <<>>
      sys(f) == [j \in DOMAIN Mine(r.in, f, FALSE) |-> [t |-> Mine(r.in, f, FALSE)[j].t, n |-> Mine(r.in, f, FALSE)[j].n]]
      fids == {f \in {x.f : x \in Range(r.in)} : user(f) # <<>> \/ sys(f) # <<>>}
  IN Expect({t.fid : t \in Range(r.out)} = fids /\ Len(r.out) = Cardinality(fids), "proposal", [got |-> {t.fid : t \in Range(r.out)}, want |-> fids])
     \o Flat([j \in DOMAIN r.out |-> Expect(r.out[j].user = user(r.out[j].fid), "proposal-messages", [fid |-> r.out[j].fid, got |-> r.out[j].user, want |-> user(r.out[j].fid)])
                                     \o Expect(r.out[j].sys = sys(r.out[j].fid), "proposal-messages", [fid |-> r.out[j].fid, got |-> r.out[j].sys, want |-> sys(r.out[j].fid)])])

\* --- tables and numbers ------------------------------------------------------------------------------
\* the allowance: units of each kind times what a unit of that kind allows
AllowErrs(r) == Expect(r.got = [j \in DOMAIN r.got |-> (r.slot[1] * r.unit[1][j]) + (r.slot[2] * r.unit[2][j]) + (r.slot[3] * r.unit[3][j])], "allowance", r)
Published == <<<<5000, 2500, 2500, 50, 25, 5, 1>>, <<2000, 1000, 1000, 50, 25, 5, 1>>, <<100, 200, 200, 25, 5, 2, 1>>>>
\* event numbers: heights in limbs of 17 bits; a block takes as many events as 14 bits count
NumbersErrs(r) ==
  Flat([j \in DOMAIN r.got |->
     LET g == r.got[j]
         full == r.h[1] >= 65536 \/ g.n > 16383
     IN Expect(IF full THEN ~g.ok ELSE g.ok /\ g.h = r.h /\ g.q = g.n, "ids", [h |-> r.h, got |-> g])])
  \o Expect(r.h[1] >= 65536 \/ (r.confirmed.ok /\ r.confirmed.h = r.h /\ r.confirmed.q = 0), "ids", [h |-> r.h, got |-> r.confirmed])
  \o Expect(r.back, "ids", [h |-> r.h])
  \o Expect(r.sorted, "ids", [h |-> r.h])

Errs(r) ==
  IF s.dead /\ r.op # "reset" THEN <<>> ELSE
  CASE r.op = "block" -> BlockErrs(r)
    [] r.op = "state" -> Expect(Cardinality(Range(r.at)) = 1, "nodes-differ", [h |-> s.h]) \o Flat([j \in DOMAIN r.at |-> StateErrs(s.st, r.at[j], j)])
    \* after a crash the node is before or after the block, never between
    [] r.op = "crash" ->
         Expect(r.up.h \in {s.h - 1, s.h}, "crash-height", [got |-> r.up.h, h |-> s.h])
         \o (IF r.up.h \in {s.h - 1, s.h}
             THEN LET e == StateErrs(IF r.up.h = s.h THEN s.st ELSE s.old, r.up, 0)
                  IN [j \in DOMAIN e |-> [kind |-> IF e[j].kind = "KNOWN-owner-of-two-names" THEN e[j].kind ELSE "crash-state", detail |-> e[j].detail]]
             ELSE <<>>)
         \o Expect(r.events = Len(SelectSeq(s.log, LAMBDA e : e[1] <= r.up.h)), "crash-events", [got |-> r.events, h |-> r.up.h])
    [] r.op = "caught-up" -> Expect(r.h = s.h /\ r.same /\ r.root, "crash-end", r)
    [] r.op = "page" -> PageErrs(r)
    [] r.op = "pool" -> PoolErrs(r)
    [] r.op = "abandon" -> Expect(r.same, "proposal-left-a-trace", r)
    [] r.op = "tamper" -> Expect(~r.got, "wrong-root-accepted", r)
    \* a block that a node made and found valid can be committed everywhere
    [] r.op = "fell" -> Expect(FALSE, "nodes-differ", r)
    \* a block means the same whenever it is executed
    [] r.op = "late" -> Expect(r.valid => r.same, "KNOWN-expiry-by-wall-clock", r)
    [] r.op = "allow" -> AllowErrs(r)
    [] r.op = "table" -> Expect(r.got = Published, "allowance", r)
    [] r.op = "numbers" -> NumbersErrs(r)
    [] r.op = "stream" -> Expect(r.got = r.stored, "stream", [h |-> r.h, got |-> Len(r.got), stored |-> Len(r.stored)])
    [] OTHER -> <<>>

After(r) ==
  CASE r.op = "reset" -> [Zero EXCEPT !.w = World(r), !.h = r.h, !.st.seq = r.seq]
    [] r.op = "block" /\ ~s.dead ->
         LET x == Expected(r)
         IN [s EXCEPT !.st = x.s, !.old = s.st, !.h = r.h, !.off = @ \/ "reproof" \in x.odd,
                      !.dead = "stale" \in x.odd \/ Seen(r.evs[1]) # Meant(x.ev),
                      !.log = @ \o [j \in 1..(Len(r.evs[1]) + 1) |-> <<r.h, j - 1>>]]
    [] OTHER -> s
Init == i = 0 /\ s = Zero /\ bad = 0
Next == /\ i < Len(Trace)
        /\ LET e == Errs(Trace[i + 1])
           IN /\ i' = i + 1 /\ bad' = bad + Len(e) /\ Report(i + 1, e) /\ s' = After(Trace[i + 1])
              /\ (i' = Len(Trace)) => Finish(i', bad')
Spec == Init /\ [][Next]_<<i, s, bad>>
=============================================================================
