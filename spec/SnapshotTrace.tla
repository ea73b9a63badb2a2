---------------------------- MODULE SnapshotTrace ----------------------------
(* s: the bucket (key -> digest), the latest upload per shard, what each shard's latest
   content is, what the database directory holds; and the store being pruned.        *)
EXTENDS Snapshot, TraceLib
VARIABLES i, s, bad
Zero == [net |-> "", keys |-> {}, latest |-> <<>>, content |-> <<>>, db |-> <<>>, bases |-> {}, blocks |-> <<>>, gone |-> [block |-> {}, chunk |-> {}, event |-> {}]]

ChunksStep(r) ==
  LET c == Cut(r.lens, r.max) IN
  Expect(r.ok /\ r.taken = r.lens, "archive-write", r) \o
  Expect(r.names = PartNames(Len(c)), "archive-names", <<r.names, Len(c)>>) \o
  Expect(r.readable, "archive-unreadable", r) \o
  Expect(r.parts = c, "archive-parts", <<r.parts, c, r.max>>) \o
  Expect(r.dig = r.want, "archive-content", <<r.lens, r.max>>)

Base(r) == Dir(s.net, r.shard) \o "/" \o r.name
AfterUp(r) ==
  LET base == Base(r) all == s.keys \cup Range(Puts(s.net, r.shard, base, Len(r.files))) IN
  [s EXCEPT !.keys = all \ Cleared(all, s.net, r.shard, base), !.bases = @ \cup {base},
            !.latest = (r.shard :> [base |-> base, chunks |-> PartNames(Len(r.files))]) @@ @,
            !.content = (r.shard :> r.tree) @@ @]
UpStep(r) ==
  LET base == Base(r) n == Len(r.files) IN
  Expect(r.ok /\ r.cleared, "upload-failed", r) \o
  Expect([q \in 1..Len(r.puts) |-> r.puts[q].k] = Puts(s.net, r.shard, base, n), "upload-keys", <<r.puts, Puts(s.net, r.shard, base, n)>>) \o
  Expect(\A q \in 1..n : q <= Len(r.puts) => r.puts[q].dig = r.files[q].dig, "upload-content", r.puts) \o
  Expect(r.timely /\ base \notin s.bases, "upload-name", <<base, s.bases>>) \o
  Expect(r.meta = [base |-> base, chunks |-> PartNames(n)], "upload-description", <<r.meta, base, n>>) \o
  Expect(Range(r.gone) = Cleared(s.keys, s.net, r.shard, base), "upload-cleared", <<r.gone, Cleared(s.keys, s.net, r.shard, base)>>) \o
  Expect(Range(r.left) = AfterUp(r).keys, "bucket", <<r.left, AfterUp(r).keys>>)
Faults(r) == [k \in {r.faults[q].k : q \in 1..Len(r.faults)} |-> (CHOOSE f \in Range(r.faults) : f.k = k).n]
Result(r) == Download(s.net, r.shards, s.latest, Faults(r), Range(r.damaged))
Holds(db, sh) == IF sh \in DOMAIN db THEN db[sh] ELSE "none"
DownDb(r) == LET d == Result(r) IN [sh \in DOMAIN s.db \cup Range(d.unpacked) |-> IF sh \in Range(d.unpacked) THEN s.content[sh] ELSE s.db[sh]]
DownStep(r) ==
  LET d == Result(r) IN
  Expect(r.ok = d.ok, "download-outcome", <<r, d>>) \o
  Expect(r.asks = d.asks, "download-requests", <<r.asks, d.asks>>) \o
  Expect(\A q \in 1..Len(r.db) : r.db[q].tree = Holds(DownDb(r), r.db[q].shard), "download-content", <<r, DownDb(r)>>) \o
  Expect(r.extra = <<>>, "download-extra", r.extra) \o
  Expect(r.ok => ~r.scratch, "download-scratch-left", r)

(* the backup job *)
Wanted(r) == IF r.only = <<>> THEN Range(r.shards) ELSE Range(r.shards) \cap Range(r.only[1])
JobStep(r) ==
  LET go == JobStart(IF r.left THEN {"old"} ELSE {}, IF r.hours >= 12 THEN 13 ELSE 0) done == IF go = "go" THEN Wanted(r) ELSE {} IN
  Expect(r.res = IF go = "go" THEN "ok" ELSE "busy", "job-outcome", r) \o
  Expect(Range(r.done) = done /\ r.sent = 2 * Cardinality(done), "job-shards", r) \o
  Expect(done # {} => r.down, "job-restore", r) \o
  Expect(\A q \in 1..Len(r.got) : r.got[q] \in Range(r.want), "job-content", <<r.got, r.want>>) \o
  Expect(go = "go" => r.after = <<>>, "job-leftovers", r.after) \o
  Expect(go # "go" => r.after # <<>>, "job-removed-running", r.after)

(* pruning *)
Left(kind) == SelectSeq([q \in 1..Len(s.blocks) |-> s.blocks[q]], LAMBDA b : b.h \notin s.gone[kind])
Heights(bs) == [q \in 1..Len(bs) |-> bs[q].h]
RECURSIVE EventsOf(_)
EventsOf(bs) == IF bs = <<>> THEN <<>> ELSE [q \in 1..bs[1].events |-> bs[1].h] \o EventsOf(Tail(bs))
AfterPrune(r) == [s EXCEPT !.gone[r.kind] = @ \cup Pruned(s.blocks, r.cut)]
StillThere(st, kind) == SelectSeq(st.blocks, LAMBDA b : b.h \notin st.gone[kind])
PruneStep(r) ==
  LET a == AfterPrune(r)
      (* the chunks themselves are needed to find the height of a time *)
      reach == r.kind # "event" \/ LET f == FirstAtOrAfter(s.blocks, r.cut) IN f = {} \/ \A q \in f : s.blocks[q].h \notin s.gone.chunk
      b == IF reach THEN a ELSE s
      n == IF r.kind = "event" THEN Len(EventsOf(StillThere(s, "event"))) - Len(EventsOf(StillThere(b, "event")))
           ELSE Cardinality(b.gone[r.kind]) - Cardinality(s.gone[r.kind])
  IN Expect(r.kept.block = Heights(StillThere(b, "block")) /\ r.kept.chunk = Heights(StillThere(b, "chunk")) /\ r.kept.event = EventsOf(StillThere(b, "event")),
            "pruned", <<r, s.blocks, b.gone>>) \o
     Expect(r.n = n, "pruned-count", <<r, n>>)
NextPrune(r) ==
  LET f == FirstAtOrAfter(s.blocks, r.cut) IN
  IF r.kind # "event" \/ f = {} \/ \A q \in f : s.blocks[q].h \notin s.gone.chunk THEN AfterPrune(r) ELSE s

(* the scheduled jobs: ages in half-days (odd), retention in half-days (even) *)
Chain(ages) == [q \in 1..Len(ages) |-> [h |-> q, ts |-> 1000 - ages[q]]]
JobGone(r, ages) == Pruned(Chain(ages), Cutoff(1000, r.ret))
KeptOf(ages, gone) == SelectSeq([q \in 1..Len(ages) |-> q], LAMBDA h : h \notin gone)
JobRunStep(r) ==
  Flat([q \in 1..Len(r.chains) |->
    LET c == r.chains[q] a == r.after[q]
        blocks == IF r.kind = "blocks" /\ r.synced THEN JobGone(r, c.ages) ELSE {}
        events == IF r.kind = "events" THEN JobGone(r, c.ages) ELSE {}
    IN Expect(a.kept = KeptOf(c.ages, blocks), "job-pruned-blocks", <<r.kind, r.ret, r.synced, c, a>>) \o
       (IF c.shard = 0 THEN <<>> ELSE Expect(a.events = KeptOf(c.ages, events), "job-pruned-events", <<r.kind, r.ret, c, a>>))])

Errs(r) ==
  CASE r.op = "chunks" -> ChunksStep(r)
    [] r.op = "up" -> UpStep(r)
    [] r.op = "down" -> DownStep(r)
    [] r.op = "job" -> JobStep(r)
    [] r.op = "prune" -> PruneStep(r)
    [] r.op = "jobrun" -> JobRunStep(r)
    [] OTHER -> <<>>
After(r) ==
  CASE r.op = "begin" -> [Zero EXCEPT !.net = r.net]
    [] r.op = "up" -> AfterUp(r)
    [] r.op = "down" -> [s EXCEPT !.db = IF r.ok THEN <<>> ELSE DownDb(r)]
    [] r.op = "prune-begin" -> Zero
    [] r.op = "block" -> [s EXCEPT !.blocks = Append(@, [h |-> r.h, ts |-> r.ts, events |-> r.events])]
    [] r.op = "prune" -> NextPrune(r)
    [] OTHER -> s
Init == i = 0 /\ s = Zero /\ bad = 0
Next == /\ i < Len(Trace)
        /\ LET e == Errs(Trace[i + 1])
           IN /\ i' = i + 1 /\ bad' = bad + Len(e) /\ Report(i + 1, e) /\ s' = After(Trace[i + 1])
              /\ (i' = Len(Trace)) => Finish(i', bad')
Spec == Init /\ [][Next]_<<i, s, bad>>
=============================================================================
