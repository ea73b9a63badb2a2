------------------------------- MODULE MeshMC --------------------------------
(* Known nodes: however entries are configured, no key ever belongs to two entries, the newest
   entry is found under every key it carries, and an answer carries the key asked for.
   Crawl: whatever the connections and the answers, every validator but ourselves is
   accounted for exactly once, nobody else is asked, and readers only show up when wanted. *)
EXTENDS Mesh
CONSTANTS Depth, Ids
VARIABLES nodes, k, last, keys, view, replies, only

E0(n, pub, pid) == [name |-> n, pub |-> pub, pid |-> pid]
Builtin == <<E0("A", "a", "a"), E0("B", "b", "b"), E0("C", "", "c")>>
Entries == {E0("X", p, q) : p \in {"", "a", "b", "n"}, q \in {"", "a", "b", "c", "n"}}
Peer(i) == [id |-> i, nt |-> "unknown", pub |-> "-"]
Views(sub) == [self : {<<[id |-> "1", h |-> "9", val |-> FALSE, pub |-> ""]>>}, peers : sub]
RECURSIVE Seqs(_)
Seqs(s) == IF s = {} THEN {<<>>} ELSE {<<>>} \union UNION {{<<Peer(x)>> \o r : r \in Seqs(s \ {x})} : x \in s}
vars == <<nodes, k, last, keys, view, replies, only>>
NoView == [self |-> <<>>, peers |-> <<>>]
Answers == {[kind |-> "silent"], [kind |-> "error", text |-> "x"], [kind |-> "view", view |-> NoView],
            [kind |-> "view", view |-> [self |-> <<[id |-> "2", h |-> "7", val |-> FALSE, pub |-> ""]>>, peers |-> <<Peer("4"), Peer("1")>>]]}
Init == /\ nodes = Builtin /\ k = 0 /\ last = NoNode
        /\ keys \in {[i \in v |-> "k" \o i] : v \in SUBSET Ids}
        /\ view \in Views(Seqs(Ids))
        /\ replies \in [Ids -> Answers]
        /\ only \in BOOLEAN
\* the registry part does not depend on the crawl part: explore it for one crawl only
Narrow == k = 0 \/ (DOMAIN keys = {} /\ view.peers = <<>> /\ only /\ \A i \in Ids : replies[i].kind = "silent")
Next == /\ Narrow /\ k < Depth /\ k' = k + 1
        /\ \E e \in Entries : nodes' = Configure(nodes, e) /\ last' = (IF Known(e) THEN e ELSE last)
        /\ UNCHANGED <<keys, view, replies, only>>
Unique == KeysUnique(nodes)
NewestFound == last # NoNode => (last.pub # "" => Lookup(nodes, "zz", last.pub) = last) /\ (last.pid # "" => Lookup(nodes, last.pid, "zz") = last)
Honest == \A p \in {"a", "b", "n"}, q \in {"a", "b", "c", "n"} :
            LET r == Lookup(nodes, q, p) IN r = NoNode \/ r.pub = p \/ r.pid = q
Asked == LET s == Seed(keys, view) IN {s[j].id : j \in 1..Len(s)}
Reached == {i \in Asked : replies[i].kind = "view"}
Missing == CrawlMissing(keys, view, Seed(keys, view), replies)
Accounted == /\ Asked \subseteq (DOMAIN keys) \ {"1"}
             /\ {m.id : m \in Missing} \intersect Reached = {}
             /\ {m.id : m \in Missing} \union Reached = (DOMAIN keys) \ {"1"}
             /\ Cardinality({m.id : m \in Missing}) = Cardinality(Missing)
             /\ Len(CrawlNodes(keys, Seed(keys, view), replies, only)) = Cardinality(Reached)
OnlyWanted == LET n == CrawlNodes(keys, Seed(keys, view), replies, only) IN
              only => \A j \in 1..Len(n) : \A p \in 1..Len(n[j].peers) : n[j].peers[p].nt = "validator"
Inv == Unique /\ NewestFound /\ Honest /\ (k = 0 => Accounted /\ OnlyWanted)
=============================================================================
