------------------------------ MODULE TrieTrace ------------------------------
(* Recorded histories of the real tree, folded over Trie. *)
EXTENDS Trie, TraceLib
VARIABLES i, s, bad
U == 12
Zero == [K |-> <<>>, mem |-> {}, disk |-> {}]
Set(r) == IF r.view = "txn" THEN s.mem ELSE s.disk
Ids(q) == {q[j] : j \in DOMAIN q}

\* one node as the tree reports it: `below` are the keys the recorder computed `want` from
NodeErrs(S, p, r) ==
  Expect(Ids(r.below) = Listing(S, s.K, p, U), "recorder", [at |-> p, below |-> Ids(r.below), spec |-> Listing(S, s.K, p, U)])
  \o Expect(r.count = Count(S, s.K, p, U), "count", [at |-> p, got |-> r.count, want |-> Count(S, s.K, p, U)])
  \o Expect(r.hash = r.want, "hash", [at |-> p, got |-> r.hash, want |-> r.want])

Errs(r) ==
  CASE r.op = "ins" ->
         Expect(r.err = "" /\ r.out = Inserted(s.mem, r.k), "insert-answer", [k |-> r.k, got |-> r.out, want |-> Inserted(s.mem, r.k), err |-> r.err])
    [] r.op = "del" ->
         Expect(r.err = "" /\ r.out = Deleted(s.mem, r.k), "delete-answer", [k |-> r.k, got |-> r.out, want |-> Deleted(s.mem, r.k), err |-> r.err])
    [] r.op = "short" -> Expect(r.err # "", "short-key-taken", [r |-> r])
    [] r.op = "reload" -> Expect(r.err = "", "reload-failed", [err |-> r.err])
    [] r.op = "sum" ->
         Expect(r.items = Cardinality(s.mem), "items", [got |-> r.items, want |-> Cardinality(s.mem)])
         \o Expect(Ids(r.below) = s.mem, "recorder", [got |-> Ids(r.below), spec |-> s.mem])
         \o Expect(r.root = r.want, "root", [got |-> r.root, want |-> r.want])
    [] r.op = "has" -> Expect(r.out = (r.k \in s.mem), "membership", [k |-> r.k, got |-> r.out])
    [] r.op = "node" ->
         LET S == Set(r) IN
         \* known: a node deleted by the pending batch is still answered from the database
         IF r.view = "txn" /\ ~IsNode(s.mem, s.K, r.p, U) /\ IsNode(s.disk, s.K, r.p, U) /\ r.found /\ r.hash = r.dwant
            /\ r.count = Count(s.disk, s.K, r.p, U)
         THEN Expect(FALSE, "KNOWN-pending-deletion-unseen", [at |-> r.p, got |-> r.count])
         ELSE NodeErrs(S, r.p, r)
         \o Expect(r.found = IsNode(S, s.K, r.p, U), "node", [at |-> r.p, got |-> r.found])
         \o (IF r.found /\ IsNode(S, s.K, r.p, U) THEN
               Expect({r.kids[j].c : j \in DOMAIN r.kids} = Steps(S, s.K, r.p, U), "children",
                      [at |-> r.p, got |-> {r.kids[j].c : j \in DOMAIN r.kids}, want |-> Steps(S, s.K, r.p, U)])
               \o Flat([j \in DOMAIN r.kids |-> NodeErrs(S, r.p \o r.kids[j].c, r.kids[j])])
             ELSE <<>>)
    [] r.op = "values" ->
         Expect(r.err = "" /\ Len(r.out) = Cardinality(Ids(r.out)) /\ Ids(r.out) = Listing(s.mem, s.K, r.p, U)
                /\ \A a, b \in DOMAIN r.out : a < b => r.out[a] < r.out[b],
                "values", [at |-> r.p, got |-> r.out, want |-> Listing(s.mem, s.K, r.p, U), err |-> r.err])
    [] r.op = "many" -> \* a subtree larger than one answer holds: a prefix of the ordered listing
         Expect(r.n >= Min(r.all, 1024) /\ r.n <= r.all /\ r.ordered, "many-values", [r |-> r])
    [] r.op = "pages" ->
         LET all == Flat(r.pages) IN
         Expect(r.err = "" /\ Len(all) = Cardinality(Ids(all)) /\ Ids(all) = Listing(s.mem, s.K, r.p, U)
                /\ \A a, b \in DOMAIN all : a < b => all[a] < all[b],
                "pages", [at |-> r.p, got |-> all, want |-> Listing(s.mem, s.K, r.p, U), err |-> r.err])
         \o Expect(\A j \in DOMAIN r.pages : Len(r.pages[j]) <= r.max /\ (j < Len(r.pages) => Len(r.pages[j]) = r.max),
                   "page-size", [max |-> r.max, pages |-> r.pages])
    [] r.op = "key" ->
         LET want == CASE r.kind = "account" -> <<AccountKey(r.a)>>
                       [] r.kind = "kind" -> <<MessageKey(r.a, r.t, "")>>
                       [] r.kind = "message" -> <<MessageKey(r.a, r.t, r.hash)>>
                                                \o (IF Has(r, "to") THEN <<MessageKey(r.to, r.t, r.hash)>> ELSE <<>>)
                       [] r.kind = "chain" -> <<EventKey(r.a, r.t, r.tx, r.log)>>
                       [] r.kind = "fname" -> <<FnameKey(r.a, r.name, r.bytes)>>
         IN Expect(r.out = want, "key", [r |-> r, want |-> want])
    [] r.op = "decode" ->
         LET want == DecodedKind(r.b) IN
         Expect(r.err = "" /\ r.out.vs = r.a.vs /\ r.out.fid = r.a.fid /\ r.out.on = want.on /\ r.out.msg = want.msg /\ r.out.rest = r.rest,
                "decode", [r |-> r, want |-> want])
    [] r.op = "event" ->
         Expect(r.ins = r.adds /\ r.dels = r.drops, "event-keys", [r |-> r])
         \o Expect((r.ins # <<>> \/ r.dels # <<>>) => r.kind \in Touches, "event-touches", [r |-> r])
    [] r.op = "token" ->
         LET t == Token(r.bytes) IN
         Expect(r.err = "" \/ SubSeq(r.err, 1, 5) # "panic", "token-panic", [r |-> r])
         \o Expect(t = Bad => r.err # "", "token-taken", [r |-> r, want |-> t])
    [] OTHER -> <<>>

After(r) ==
  CASE r.op = "reset" -> [K |-> r.keys, mem |-> {}, disk |-> {}]
    [] r.op = "ins" -> [s EXCEPT !.mem = Insert(@, r.k)]
    [] r.op = "del" -> [s EXCEPT !.mem = Delete(@, r.k)]
    [] r.op = "commit" -> [s EXCEPT !.disk = s.mem]
    [] r.op = "reload" -> [s EXCEPT !.mem = s.disk]
    [] OTHER -> s

Init == i = 0 /\ s = Zero /\ bad = 0
Next == /\ i < Len(Trace)
        /\ LET e == Errs(Trace[i + 1])
           IN /\ i' = i + 1 /\ bad' = bad + Len(e) /\ Report(i + 1, e) /\ s' = After(Trace[i + 1])
              /\ (i' = Len(Trace)) => Finish(i', bad')
Spec == Init /\ [][Next]_<<i, s, bad>>
=============================================================================
