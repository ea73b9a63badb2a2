-------------------------------- MODULE Trie --------------------------------
(* The state tree: a commitment to a set of keys.

   A key is a string of hexadecimal digits (one digit per branching step).  The tree
   has a node at prefix p exactly when the set says so: down to the depth that spells
   shard, account and kind of record (Uncompacted) every prefix of a key is a node;
   below it a node is made only where the keys of its parent still have to be told
   apart.  Everything the tree answers -- counts, hashes, membership, listings -- is
   therefore a function of the set, whatever was inserted, deleted, committed, rolled
   back or reloaded on the way. *)
EXTENDS Integers, Sequences, FiniteSets

\* K: the keys that may ever be in the tree, as a sequence of strings in ascending order;
\* a set S of keys is a set of positions of K.
StartsWith(k, p) == Len(k) >= Len(p) /\ SubSeq(k, 1, Len(p)) = p
Below(S, K, p) == {x \in S : StartsWith(K[x], p)}
Cut(p) == SubSeq(p, 1, Len(p) - 1)

IsNode(S, K, p, u) ==
  \/ p = ""
  \/ /\ Below(S, K, p) # {}
     /\ (Len(p) <= u \/ Cardinality(Below(S, K, Cut(p))) >= 2)
IsLeaf(S, K, p, u) == Len(p) >= u /\ Cardinality(Below(S, K, p)) = 1
\* the digits that lead from a node to its children
Steps(S, K, p, u) ==
  IF IsLeaf(S, K, p, u) THEN {} ELSE {SubSeq(K[x], Len(p) + 1, Len(p) + 1) : x \in Below(S, K, p)}
Count(S, K, p, u) == IF IsNode(S, K, p, u) THEN Cardinality(Below(S, K, p)) ELSE 0
\* what a walk below p lists: the keys under p, provided p is a node of the tree
Listing(S, K, p, u) == IF IsNode(S, K, p, u) THEN Below(S, K, p) ELSE {}

\* inserting and deleting: which of the keys were new / were there
Insert(S, ks) == S \cup {ks[j] : j \in DOMAIN ks}
Delete(S, ks) == S \ {ks[j] : j \in DOMAIN ks}
Inserted(S, ks) == [j \in DOMAIN ks |-> ks[j] \notin S]
Deleted(S, ks) == [j \in DOMAIN ks |-> ks[j] \in S]

(* How records are spelled as keys.  A key starts with the account's virtual shard (two
   digits, a hash of the account), its number (eight digits) and the kind of record: chain
   events use their own number, fname registrations 7, messages eight times their number.
   A loan is entered under both accounts; a name is filled up with zeroes to 20 bytes so that
   no name is the beginning of another. *)
HexDigit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
HexByte(n) == HexDigit[(n \div 16) + 1] \o HexDigit[(n % 16) + 1]
RECURSIVE Zeroes(_)
Zeroes(n) == IF n <= 0 THEN "" ELSE "00" \o Zeroes(n - 1)
FnameKind == 7
MessageKind(t) == t * 8
AccountKey(a) == a.vs \o a.fid
MessageKey(a, t, hash) == AccountKey(a) \o HexByte(MessageKind(t)) \o hash
EventKey(a, t, tx, log) == AccountKey(a) \o HexByte(t) \o tx \o log
FnameKey(a, name, bytes) == AccountKey(a) \o HexByte(FnameKind) \o name \o Zeroes(20 - bytes)
\* what a decoded key says: a kind below 8 is a chain event or fname, otherwise a message
DecodedKind(b) == IF b < 8 THEN [on |-> b, msg |-> -1] ELSE [on |-> -1, msg |-> b \div 8]

(* The keys an event of the log adds and removes. e is [kind, adds, drops] with records
   already spelled: only four kinds of events touch the tree. *)
Touches == {"merge", "chain", "prune", "revoke", "name"}

(* A page token is a list of byte strings: four bytes of number of strings, then each string
   after four bytes of its length; nothing may be missing and nothing left over. *)
Big == 1000000
Num(b, o) == IF b[o + 1] # 0 \/ b[o + 2] # 0 THEN Big ELSE b[o + 3] * 256 + b[o + 4]
Bad == <<[at |-> -1, len |-> -1]>>
RECURSIVE Strings(_, _, _)
Strings(b, o, n) ==
  IF n = 0 THEN IF o = Len(b) THEN <<>> ELSE Bad
  ELSE IF o + 4 > Len(b) THEN Bad
  ELSE LET l == Num(b, o) IN
       IF o + 4 + l > Len(b) THEN Bad
       ELSE LET rest == Strings(b, o + 4 + l, n - 1) IN
            IF rest = Bad THEN Bad ELSE <<[at |-> o + 4, len |-> l]>> \o rest
Token(b) == IF Len(b) < 4 THEN Bad
            ELSE IF Num(b, 0) > Len(b) THEN Bad ELSE Strings(b, 4, Num(b, 0))
=============================================================================
