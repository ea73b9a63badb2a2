------------------------------- MODULE Merge -------------------------------
(***************************************************************************)
(* Merge rules for user messages: casts, links (with compaction),          *)
(* reactions, profile fields and verifications.                            *)
(*                                                                         *)
(* A message is a record                                                   *)
(*   id    unique number                                                   *)
(*   fid   account          store  "cast" "link" "react" "data" "verif"    *)
(*   kind  "add" "rem" "cmp"                                               *)
(*   key   what it is about (two messages with equal store and key compete)*)
(*   ts    timestamp        hr     rank of its hash among all hashes       *)
(*   lt    link type        tgt    link target      tgts  compaction list  *)
(* A state is the set of live messages.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* a wins over b (same store and key, a # b)
Beats(a, b) ==
  IF a.store = "cast" /\ a.kind # b.kind THEN a.kind = "rem"
  ELSE IF a.ts # b.ts THEN a.ts > b.ts
  ELSE IF a.kind # b.kind THEN a.kind = "rem"
  ELSE a.hr > b.hr

Rivals(live, m) == {x \in live : x.kind # "cmp" /\ x.store = m.store /\ x.key = m.key}

Compacts(live, fid, lt) == {c \in live : c.kind = "cmp" /\ c.fid = fid /\ c.lt = lt}

\* links a compaction c sweeps out of a set
Swept(set, c) ==
  {x \in set : /\ x.store = "link" /\ x.kind # "cmp" /\ x.fid = c.fid /\ x.lt = c.lt
               /\ x.ts <= c.ts
               /\ (x.kind = "rem" \/ x.tgt \notin c.tgts)}

\* Outcome of merging m into live; `stored` is what the last commit left (a compaction
\* sweeps what it finds stored).  res is "ok" or the error class.
Merge(live, stored, m) ==
  IF m.kind = "cmp" THEN
    LET old == Compacts(live, m.fid, m.lt) IN
    IF \E c \in old : c.ts >= m.ts THEN [res |-> "conflict", del |-> {}]
    ELSE [res |-> "ok", del |-> old \cup Swept(stored, m)]
  ELSE
    LET cs == IF m.store = "link" THEN {c \in Compacts(live, m.fid, m.lt) : m.ts < c.ts} ELSE {}
        rs == Rivals(live, m)
    IN
    IF m.kind = "add" /\ \E c \in cs : m.tgt \notin c.tgts THEN [res |-> "conflict", del |-> {}]
    ELSE IF m.kind = "rem" /\ cs # {} THEN [res |-> "prunable", del |-> {}]
    ELSE IF m \in rs THEN [res |-> "duplicate", del |-> {}]
    ELSE IF \E x \in rs : Beats(x, m) THEN [res |-> "conflict", del |-> {}]
    ELSE [res |-> "ok", del |-> rs]

After(live, m, o) == IF o.res = "ok" THEN (live \ o.del) \cup {m} ELSE live

\* One merge per commit: the stored set is the live set.
Apply(live, m) == After(live, m, Merge(live, live, m))

(* Design properties *)
Canonical(sub) == {m \in sub : ~ \E n \in sub : n.store = m.store /\ n.key = m.key /\ n # m /\ Beats(n, m)}

OnePerKey(live) == \A a, b \in live : (a.kind # "cmp" /\ b.kind # "cmp" /\ a.store = b.store /\ a.key = b.key) => a = b

OneCompactPerType(live) == \A a, b \in live : (a.kind = "cmp" /\ b.kind = "cmp" /\ a.fid = b.fid /\ a.lt = b.lt) => a = b

CompactRespected(live) ==
  \A c \in live : c.kind = "cmp" =>
    ~ \E x \in live : /\ x.store = "link" /\ x.kind # "cmp" /\ x.fid = c.fid /\ x.lt = c.lt
                      /\ x.ts < c.ts /\ (x.kind = "rem" \/ x.tgt \notin c.tgts)

(* Queries: the live messages that satisfy a predicate, oldest first *)
RECURSIVE Ordered(_)
Ordered(s) ==
  IF s = {} THEN <<>>
  ELSE LET x == CHOOSE x \in s : \A y \in s : x.ts < y.ts \/ (x.ts = y.ts /\ x.hr <= y.hr)
       IN <<x.id>> \o Ordered(s \ {x})

Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* Storage limits: drop the oldest until at most max are left; compactions count but stay
RECURSIVE Oldest(_, _)
Oldest(s, n) ==
  IF n <= 0 \/ s = {} THEN <<>>
  ELSE LET x == CHOOSE x \in s : \A y \in s : x.ts < y.ts \/ (x.ts = y.ts /\ x.hr <= y.hr)
       IN <<x>> \o Oldest(s \ {x}, n - 1)

=============================================================================
