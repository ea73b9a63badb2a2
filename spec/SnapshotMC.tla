------------------------------ MODULE SnapshotMC ------------------------------
(* Uploads that may stop at any point, clearing, and a download that may interleave with
   them; and pruning with any horizons.                                              *)
EXTENDS Snapshot
CONSTANTS MaxChunks, MaxUploads, MaxBlocks
Net == "N"
Shards == {1, 10}
VARIABLES bucket, latest, up, gen, dl, blocks, kept
vars == <<bucket, latest, up, gen, dl, blocks, kept>>
Nothing == [shard |-> 0]
Base(sh, g) == Dir(Net, sh) \o "/snapshot-" \o Dec(g)
Init == bucket = {} /\ latest = <<>> /\ up = Nothing /\ gen = 0 /\ dl = Nothing /\ blocks = <<>> /\ kept = {}
Start == /\ up = Nothing /\ gen < MaxUploads
         /\ \E sh \in Shards, n \in 1..MaxChunks :
              up' = [shard |-> sh, n |-> n, base |-> Base(sh, gen), at |-> 1, clear |-> {}]
         /\ gen' = gen + 1 /\ UNCHANGED <<bucket, latest, dl, blocks, kept>>
Put == /\ up # Nothing /\ up.at <= up.n + 1
       /\ LET k == Puts(Net, up.shard, up.base, up.n)[up.at] IN
          /\ bucket' = bucket \cup {k}
          /\ latest' = IF up.at = up.n + 1 THEN (up.shard :> [base |-> up.base, chunks |-> PartNames(up.n)]) @@ latest ELSE latest
       /\ up' = [up EXCEPT !.at = @ + 1] /\ UNCHANGED <<gen, dl, blocks, kept>>
Clear == /\ up # Nothing /\ up.at = up.n + 2
         /\ LET c == Cleared(bucket, Net, up.shard, up.base) IN
            IF c = {} THEN up' = Nothing /\ bucket' = bucket ELSE \E k \in c : bucket' = bucket \ {k} /\ up' = up
         /\ UNCHANGED <<latest, gen, dl, blocks, kept>>
Stop == up # Nothing /\ up' = Nothing /\ UNCHANGED <<bucket, latest, gen, dl, blocks, kept>>
Describe == /\ dl = Nothing /\ \E sh \in DOMAIN latest : dl' = [shard |-> sh, d |-> latest[sh], at |-> 1]
            /\ UNCHANGED <<bucket, latest, up, gen, blocks, kept>>
Get == /\ dl # Nothing
       /\ IF dl.at > Len(dl.d.chunks) \/ ChunkKey(dl.d, dl.at) \notin bucket THEN dl' = Nothing ELSE dl' = [dl EXCEPT !.at = @ + 1]
       /\ UNCHANGED <<bucket, latest, up, gen, blocks, kept>>
AddBlock == /\ Len(blocks) < MaxBlocks
            /\ \E d \in 0..2 : LET t == IF blocks = <<>> THEN 1 ELSE blocks[Len(blocks)].ts + d IN
               blocks' = Append(blocks, [h |-> Len(blocks) + 1, ts |-> t]) /\ kept' = kept \cup {Len(blocks) + 1}
            /\ UNCHANGED <<bucket, latest, up, gen, dl>>
Prune == /\ blocks # <<>> /\ gen = 0 /\ \E c \in 0..8 : kept' = kept \ Pruned(blocks, c)
         /\ UNCHANGED <<bucket, latest, up, gen, dl, blocks>>
StoreStep == AddBlock \/ Prune
BucketStep == blocks = <<>> /\ (Start \/ Put \/ Clear \/ Stop \/ Describe \/ Get)
Next == BucketStep \/ (gen = 0 /\ StoreStep)
(* Whatever point an upload stops at, the description names chunks that are there. *)
Restorable == \A sh \in DOMAIN latest :
  LatestKey(Net, sh) \in bucket /\ \A q \in 1..Len(latest[sh].chunks) : ChunkKey(latest[sh], q) \in bucket
(* A download that ends with everything has exactly the chunks that were described. *)
Whole == dl # Nothing => dl.at <= Len(dl.d.chunks) + 1
(* The newest block always stays, and what stays is an unbroken end of the chain. *)
Newest == blocks # <<>> => Len(blocks) \in kept
Suffix == \A h \in kept : \A g \in h..Len(blocks) : g \in kept
TypeOK == gen \in 0..MaxUploads
(* Chunking loses nothing and fills parts as far as pieces allow. *)
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE Head(q) + Total(Tail(q))
ASSUME \A n \in 0..4 : \A lens \in [1..n -> {0, 1, 2, 3, 7}] : LET c == Cut(lens, 4) IN
  /\ Total(c) = Total(lens)
  /\ \A q \in 1..Len(c) : c[q] <= 4 \/ \E p \in 1..n : lens[p] = c[q]
ASSUME PartName(7) = "chunk_0007.bin" /\ PartName(12345) = "chunk_12345.bin"
ASSUME Cleared({"N/1/a/x", "N/1/latest.json", "N/10/a/x", "N/10/latest.json", "N/1/b/x"}, "N", 1, "N/1/b") = {"N/1/a/x"}
===============================================================================
