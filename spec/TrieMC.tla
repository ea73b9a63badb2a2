------------------------------- MODULE TrieMC -------------------------------
(* The tree as it is built: nodes kept as rows in a database with a pending batch on top,
   edited one path at a time by insertion (splitting leaves) and deletion (merging single
   leaves upwards).  Checked: whatever the history, the rows are exactly the nodes that the
   set of keys calls for -- in the pending view for the current set, on disk for the
   committed one -- with their counts and children. *)
EXTENDS Trie, TLC
CONSTANTS Keys, Deep, Batch    \* Keys: the universe; Deep: the uncompacted depth; Batch: most keys per call
VARIABLES mem, disk, rows, txn \* set in memory, committed set, rows on disk, pending writes
MCKeys == <<"0000", "0001", "0010", "0111", "1000", "1011">>
MCWide == <<"00000", "00001", "00010", "00111", "01000", "01011", "10000">>
vars == <<mem, disk, rows, txn>>
Gone == [items |-> 0, kids |-> {}, key |-> ""]
Row(n, kids, key) == [items |-> n, kids |-> kids, key |-> key]
Pre(k, n) == SubSeq(k, 1, n)
Prefixes == UNION {{Pre(Keys[x], n) : n \in 0..Len(Keys[x])} : x \in DOMAIN Keys}
View == TLCEval([p \in Prefixes |-> IF txn[p] # <<>> THEN txn[p][1] ELSE rows[p]])

\* the tree as a function from prefix to row; Gone where there is no node
RECURSIVE Ins(_, _, _)
Ins(t, k, n) ==  \* insert k into the node at depth n of its path; k is not in the tree
  LET p == Pre(k, n)  r == t[p] IN
  IF n >= Deep /\ r.kids = {} /\ r.key = "" THEN TLCEval([t EXCEPT ![p] = Row(1, {}, k)])
  ELSE LET split == n >= Deep /\ r.kids = {}   \* a leaf of another key: push that one down a step
           t1 == IF split THEN [t EXCEPT ![p] = Row(1, {Pre(r.key, n + 1)}, ""), ![Pre(r.key, n + 1)] = Row(1, {}, r.key)] ELSE t
           t2 == Ins(t1, k, n + 1)
       IN [t2 EXCEPT ![p] = Row(t1[p].items + 1, t1[p].kids \cup {Pre(k, n + 1)}, "")]
RECURSIVE Del(_, _, _)
Del(t, k, n) ==  \* delete k, which is in the tree
  LET p == Pre(k, n)  r == t[p] IN
  IF r.kids = {} THEN [t EXCEPT ![p] = Gone]
  ELSE LET t1 == Del(t, k, n + 1)
           kids == IF t1[Pre(k, n + 1)] = Gone THEN r.kids \ {Pre(k, n + 1)} ELSE r.kids
       IN IF r.items = 1 THEN [t1 EXCEPT ![p] = Gone]
          ELSE IF r.items = 2 /\ Cardinality(kids) = 1 /\ n >= Deep
               THEN LET c == CHOOSE c \in kids : TRUE
                    IN IF t1[c].key # "" THEN [t1 EXCEPT ![p] = Row(1, {}, t1[c].key), ![c] = Gone]
                       ELSE [t1 EXCEPT ![p] = Row(1, kids, "")]
               ELSE [t1 EXCEPT ![p] = Row(r.items - 1, kids, "")]

RECURSIVE All(_, _, _)
All(Op(_, _, _), t, ks) == IF ks = {} THEN t ELSE LET x == CHOOSE x \in ks : TRUE IN All(Op, Op(t, Keys[x], 0), ks \ {x})
Write(old, edited) == LET new == TLCEval(edited) IN
  txn' = [p \in Prefixes |-> IF new[p] # old[p] THEN <<new[p]>> ELSE txn[p]]

Init == mem = {} /\ disk = {} /\ rows = [p \in Prefixes |-> Gone] /\ txn = [p \in Prefixes |-> <<>>]
DoInsert == \E ks \in SUBSET (DOMAIN Keys) : Cardinality(ks) \in 1..Batch /\
              LET v == View IN Write(v, All(Ins, v, ks \ mem)) /\ mem' = mem \cup ks /\ UNCHANGED <<disk, rows>>
DoDelete == \E ks \in SUBSET (DOMAIN Keys) : Cardinality(ks) \in 1..Batch /\
              LET v == View IN Write(v, All(Del, v, ks \cap mem)) /\ mem' = mem \ ks /\ UNCHANGED <<disk, rows>>
Commit == rows' = View /\ disk' = mem /\ txn' = [p \in Prefixes |-> <<>>] /\ UNCHANGED mem
Abort == mem' = disk /\ txn' = [p \in Prefixes |-> <<>>] /\ UNCHANGED <<disk, rows>>
Next == DoInsert \/ DoDelete \/ Commit \/ Abort
Spec == Init /\ [][Next]_vars

Canon(S) == [p \in Prefixes |->
  IF p = "" /\ S = {} THEN Gone
  ELSE IF ~IsNode(S, Keys, p, Deep) THEN Gone
  ELSE Row(Cardinality(Below(S, Keys, p)), {p \o c : c \in Steps(S, Keys, p, Deep)},
           IF IsLeaf(S, Keys, p, Deep) THEN Keys[CHOOSE x \in Below(S, Keys, p) : TRUE] ELSE "")]
Canons == TLCEval([S \in SUBSET (DOMAIN Keys) |-> TLCEval(Canon(S))])
PendingIsCanonical == View = Canons[mem]
DiskIsCanonical == rows = Canons[disk]
\* different sets are told apart by what their roots commit to
ASSUME \A S, T \in SUBSET (DOMAIN Keys) : Canons[S] = Canons[T] => S = T
=============================================================================
