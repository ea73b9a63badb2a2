------------------------------- MODULE Snapshot -------------------------------
(* Backups and pruning.

   Chunked archives: pieces of bytes are appended to a part until the next piece would
   take it past the limit; a piece is never split, so a piece larger than the limit has
   a part of its own.

   Uploads: the bucket is a set of keys.  An upload puts every chunk under a new base
   (named by network, shard and time), in order, then overwrites <dir>/latest.json with
   the base and the chunk names in order; then removes every other key under <dir>/.

   Downloads: the descriptions of all shards are asked for first; then shard by shard
   each chunk in the listed order, each at most six times; the shard's chunks are
   unzipped and joined, and the result is unpacked over the database directory.  A shard
   is unpacked only when all its chunks came and can be read; the first failure ends the
   download.  The scratch directory goes away when everything went well.

   Pruning: a store is a sequence of blocks [h, ts] with times not decreasing.  Pruning
   up to time c removes the blocks below the first block whose time is at least c, and
   nothing when there is none; events go with the block they belong to.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* chunked archives *)
RECURSIVE CutFrom(_, _, _, _)
CutFrom(lens, max, n, open) ==      \* open: <<>> or the size of the part being written
  IF n > Len(lens) THEN open
  ELSE IF open = <<>> THEN CutFrom(lens, max, n + 1, <<lens[n]>>)
  ELSE IF open[1] + lens[n] > max THEN open \o CutFrom(lens, max, n + 1, <<lens[n]>>)
  ELSE CutFrom(lens, max, n + 1, <<open[1] + lens[n]>>)
Cut(lens, max) == CutFrom(lens, max, 1, <<>>)
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN Digits[n + 1] ELSE Dec(n \div 10) \o Digits[(n % 10) + 1]
Pad4(n) == IF n < 10 THEN "000" \o Dec(n) ELSE IF n < 100 THEN "00" \o Dec(n) ELSE IF n < 1000 THEN "0" \o Dec(n) ELSE Dec(n)
PartName(n) == "chunk_" \o Pad4(n) \o ".bin"
PartNames(n) == [q \in 1..n |-> PartName(q)]

(* the bucket *)
Dir(net, shard) == net \o "/" \o Dec(shard)
LatestKey(net, shard) == Dir(net, shard) \o "/latest.json"
Starts(text, p) == Len(text) >= Len(p) /\ SubSeq(text, 1, Len(p)) = p
Under(keys, dir) == {k \in keys : Starts(k, dir \o "/")}
(* What clearing removes: everything of the shard but the current base and its description. *)
Cleared(keys, net, shard, base) ==
  {k \in Under(keys, Dir(net, shard)) : ~Starts(k, base \o "/") /\ k # LatestKey(net, shard)}
(* The puts of an upload, in order: chunks, then the description. *)
Puts(net, shard, base, n) == [q \in 1..n |-> base \o "/" \o PartName(q)] \o <<LatestKey(net, shard)>>

(* a download: `latest` shard -> [base, chunks]; `faults` key -> how many times asking for it fails first;
   `damaged` the keys whose content cannot be read *)
MaxTries == 6
Tries(faults, key) == LET f == IF key \in DOMAIN faults THEN faults[key] ELSE 0 IN IF f >= MaxTries THEN MaxTries ELSE f + 1
Comes(faults, key) == Tries(faults, key) < MaxTries \/ (key \in DOMAIN faults /\ faults[key] = MaxTries - 1)
RECURSIVE Repeat(_, _)
Repeat(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Repeat(x, n - 1)
ChunkKey(d, q) == d.base \o "/" \o d.chunks[q]
RECURSIVE AskChunks(_, _, _)
AskChunks(d, faults, q) ==          \* [asks, ok]
  IF q > Len(d.chunks) THEN [asks |-> <<>>, ok |-> TRUE]
  ELSE LET k == ChunkKey(d, q) asks == Repeat(k, Tries(faults, k)) IN
       IF ~Comes(faults, k) THEN [asks |-> asks, ok |-> FALSE]
       ELSE LET r == AskChunks(d, faults, q + 1) IN [asks |-> asks \o r.asks, ok |-> r.ok]
Readable(d, damaged) == \A q \in 1..Len(d.chunks) : ChunkKey(d, q) \notin damaged
RECURSIVE AskDescriptions(_, _, _, _)
AskDescriptions(net, shards, latest, n) ==
  IF n > Len(shards) THEN [asks |-> <<>>, ok |-> TRUE]
  ELSE IF shards[n] \notin DOMAIN latest THEN [asks |-> <<LatestKey(net, shards[n])>>, ok |-> FALSE]
  ELSE LET r == AskDescriptions(net, shards, latest, n + 1) IN [asks |-> <<LatestKey(net, shards[n])>> \o r.asks, ok |-> r.ok]
RECURSIVE Fetch(_, _, _, _, _)
Fetch(shards, latest, faults, damaged, n) ==   \* [asks, unpacked, ok]
  IF n > Len(shards) THEN [asks |-> <<>>, unpacked |-> <<>>, ok |-> TRUE]
  ELSE LET d == latest[shards[n]] a == AskChunks(d, faults, 1) IN
       IF ~a.ok \/ ~Readable(d, damaged) THEN [asks |-> a.asks, unpacked |-> <<>>, ok |-> FALSE]
       ELSE LET r == Fetch(shards, latest, faults, damaged, n + 1)
            IN [asks |-> a.asks \o r.asks, unpacked |-> <<shards[n]>> \o r.unpacked, ok |-> r.ok]
Download(net, shards, latest, faults, damaged) ==
  LET m == AskDescriptions(net, shards, latest, 1) IN
  IF ~m.ok THEN [asks |-> m.asks, unpacked |-> <<>>, ok |-> FALSE]
  ELSE LET f == Fetch(shards, latest, faults, damaged, 1) IN [asks |-> m.asks \o f.asks, unpacked |-> f.unpacked, ok |-> f.ok]

(* starting a backup job over what an earlier one left *)
JobStart(left, hours) == IF left = {} THEN "go" ELSE IF hours > 12 THEN "go" ELSE "busy"

(* pruning *)
FirstAtOrAfter(blocks, c) == {q \in 1..Len(blocks) : blocks[q].ts >= c /\ \A p \in 1..(q - 1) : blocks[p].ts < c}
Pruned(blocks, c) ==                \* heights removed
  LET f == FirstAtOrAfter(blocks, c) IN
  IF f = {} THEN {} ELSE {blocks[p].h : p \in 1..((CHOOSE q \in f : TRUE) - 1)}
Cutoff(now, retention) == IF retention > now THEN 0 ELSE now - retention
===============================================================================
