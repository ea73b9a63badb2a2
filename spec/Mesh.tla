-------------------------------- MODULE Mesh --------------------------------
(* The mesh view: who is known, who validates, which gossip links exist, what is shown.

   Known nodes      a list of entries, each with a consensus key and/or a peer id;
                    no two entries share a key.  A configured entry replaces every
                    entry it shares a key with.
   Classification   a peer is a validator iff its peer id is the one its validator
                    key derives.
   Links            in our mesh / explicit peer that subscribes / only subscribed / none.
   Crawl            asks exactly the connected validators; everybody else in the
                    validator set is accounted for as unreachable.
   Cache            an answer is reused until its time is up, per question; failures
                    are not kept; one computation serves all who wait for it.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Topics == <<"consensus", "mempool", "decided-values", "read-node-peers", "contact-info">>
DefaultTopics == <<"consensus", "mempool">>

\* ------------------------------------------------------------------ known nodes
SameNode(a, b) == (a.pub # "" /\ a.pub = b.pub) \/ (a.pid # "" /\ a.pid = b.pid)
Known(e) == e.pub # "" \/ e.pid # ""
Configure(nodes, e) == IF ~Known(e) THEN nodes ELSE Append(SelectSeq(nodes, LAMBDA n : ~SameNode(n, e)), e)
RECURSIVE Registry(_, _)
Registry(nodes, cfg) == IF cfg = <<>> THEN nodes ELSE Registry(Configure(nodes, Head(cfg)), Tail(cfg))
KeysUnique(nodes) == \A i, j \in 1..Len(nodes) : i # j => ~SameNode(nodes[i], nodes[j])
NoNode == [name |-> ""]
Lookup(nodes, pid, pub) ==
  LET byKey == {i \in 1..Len(nodes) : pub # "" /\ nodes[i].pub = pub}
      byPid == {i \in 1..Len(nodes) : pid # "" /\ nodes[i].pid = pid}
  IN IF byKey # {} THEN nodes[CHOOSE i \in byKey : TRUE]
     ELSE IF byPid # {} THEN nodes[CHOOSE i \in byPid : TRUE] ELSE NoNode

\* ------------------------------------------------------------------ addresses
PrivateV4(o) == \/ o[1] = 10
                \/ o[1] = 172 /\ o[2] \in 16..31
                \/ o[1] = 192 /\ o[2] = 168
                \/ o[1] = 127
                \/ o[1] = 169 /\ o[2] = 254
                \/ o = <<0, 0, 0, 0>>
                \/ o = <<255, 255, 255, 255>>
Mapped(s) == (\A k \in 1..5 : s[k] = 0) /\ s[6] = 65535
PrivateV6(s) == IF Mapped(s) THEN PrivateV4(<<s[7] \div 256, s[7] % 256, s[8] \div 256, s[8] % 256>>)
                ELSE \/ (\A k \in 1..7 : s[k] = 0) /\ s[8] \in {0, 1}
                     \/ s[1] \div 512 = 126             \* fc00::/7
                     \/ s[1] \div 64 = 1018             \* fe80::/10
\* the first host of an address: [v |-> 0 (name) | 4 | 6, n |-> numbers, text |-> ...]
Reachable(h) == CASE h.v = 4 -> ~PrivateV4(h.n) [] h.v = 6 -> ~PrivateV6(h.n) [] OTHER -> TRUE
Url(known, hosts) ==
  IF known.name # "" /\ known.off THEN <<"", "">>
  ELSE IF known.name # "" /\ known.url # "" THEN <<known.url, "known">>
  ELSE IF hosts # <<>> /\ Reachable(hosts[1])
       THEN <<"http://" \o (IF hosts[1].v = 6 THEN "[" \o hosts[1].text \o "]" ELSE hosts[1].text) \o ":3381", "observed">>
       ELSE <<"", "">>

\* ------------------------------------------------------------------ classification
\* keys: derived peer id -> consensus key
Validator(keys, p) == p.id \in DOMAIN keys
Classified(keys, p) == [p EXCEPT !.nt = IF Validator(keys, p) THEN "validator" ELSE "non-val",
                                 !.pub = IF Validator(keys, p) THEN keys[p.id] ELSE "-"]
ClassifiedSelf(keys, l, h) == [l EXCEPT !.h = h,
                                        !.val = l.val \/ l.id \in DOMAIN keys,
                                        !.pub = IF l.id \in DOMAIN keys THEN keys[l.id] ELSE l.pub]
RECURSIVE ClassifyPeers(_, _, _)
ClassifyPeers(keys, ps, only) ==
  IF ps = <<>> THEN <<>>
  ELSE (IF only /\ ~Validator(keys, ps[1]) THEN <<>> ELSE <<Classified(keys, ps[1])>>) \o ClassifyPeers(keys, Tail(ps), only)
Classify(keys, view, h, only) ==
  [view EXCEPT !.self = IF view.self = <<>> THEN <<>> ELSE <<ClassifiedSelf(keys, view.self[1], h)>>,
               !.peers = ClassifyPeers(keys, view.peers, only)]

\* ------------------------------------------------------------------ links
Membership(p, t) == LET f == SelectSeq(p.topics, LAMBDA x : x.topic = t)
                    IN IF f = <<>> THEN [sub |-> FALSE, mesh |-> FALSE] ELSE f[1]
Link(p, t) == LET m == Membership(p, t)
              IN IF m.mesh THEN "mesh" ELSE IF p.direct /\ m.sub THEN "direct" ELSE IF m.sub THEN "sub" ELSE "none"
Linked(l) == l \in {"mesh", "direct"}

\* ------------------------------------------------------------------ text pages
RECURSIVE Blank(_)
Blank(n) == IF n <= 0 THEN "" ELSE " " \o Blank(n - 1)
Pad(s, n) == s \o Blank(n - Len(s))
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN "" ELSE ss[1] \o Cat(Tail(ss))
Count(ss, P(_)) == Cardinality({i \in 1..Len(ss) : P(ss[i])})
Cell(l) == CASE l = "mesh" -> "M" [] l = "direct" -> "D" [] l = "sub" -> "S" [] OTHER -> "."
Rate(p, t) == LET f == SelectSeq(p.rates, LAMBDA x : x.topic = t) IN IF f = <<>> THEN "-" ELSE f[1].tenths
IsVal(p) == p.nt = "validator"
PeerRow(p, topics) ==
  Pad(p.short, 12) \o " " \o Pad(p.nt, 13) \o " " \o Pad(IF p.direct THEN "yes" ELSE "no", 4) \o " "
  \o Cat([k \in 1..Len(topics) |-> Pad(Cell(Link(p, topics[k])), 11)])
  \o Pad(p.source, 10) \o " " \o Rate(p, topics[1])
GraphRow(me, p) ==
  LET l == Link(p, "consensus") IN
  CASE l = "mesh"   -> "  " \o me \o " == " \o p.short
    [] l = "direct" -> "  " \o me \o " =D " \o p.short \o "   (direct/explicit peer)"
    [] OTHER        -> "  " \o me \o " X  " \o p.short \o "   (connected, not meshed) < consensus-partition risk"
ViewPage(v, topics) ==
  LET me == IF v.self = <<>> THEN "?" ELSE v.self[1].short
      vals == SelectSeq(v.peers, IsVal)
      role == IF v.self = <<>> THEN "?" ELSE IF v.self[1].val THEN "validator" ELSE "non-validator"
  IN <<"MESH VIEW  self=" \o me \o "  " \o role \o "  height " \o (IF v.self = <<>> THEN "0" ELSE v.self[1].h)
         \o "  net=" \o (IF v.self = <<>> THEN "?" ELSE v.self[1].net) \o "  consensus-mesh "
         \o ToString(Count(vals, LAMBDA p : Linked(Link(p, "consensus")))) \o "/" \o ToString(Len(vals)),
       "PEERS (" \o ToString(Len(v.peers)) \o " shown, " \o ToString(Len(vals))
         \o " validators)   MESH per topic: M in-mesh  D direct/explicit  S sub-only  . none",
       Pad("PEER", 12) \o " " \o Pad("TYPE", 13) \o " " \o Pad("DIR", 4) \o " "
         \o Cat([k \in 1..Len(topics) |-> Pad(topics[k], 11)]) \o Pad("CONTACT", 10) \o " msgs/s(" \o topics[1] \o ")">>
     \o [k \in 1..Len(v.peers) |-> PeerRow(v.peers[k], topics)]
     \o (IF \E k \in 1..Len(topics) : topics[k] = "consensus"
         THEN <<"GRAPH (consensus mesh)">> \o [k \in 1..Len(vals) |-> GraphRow(me, vals[k])]
              \o (IF vals = <<>> THEN <<"  (no validator peers)">> ELSE <<>>)
         ELSE <<>>)

\* the nodes of a crawl that told who they are
Telling(topo) == SelectSeq(topo.nodes, LAMBDA v : v.self # <<>>)
\* the last statement about a peer counts
LinkTo(v, id, t) == LET f == SelectSeq(v.peers, LAMBDA p : p.id = id) IN IF f = <<>> THEN "none" ELSE Link(f[Len(f)], t)
Edge(ns, i, j, t) ==
  LET a == LinkTo(ns[i], ns[j].self[1].id, t) b == LinkTo(ns[j], ns[i].self[1].id, t)
  IN IF i = j THEN "-"
     ELSE IF a = "mesh" /\ b = "mesh" THEN "M"
     ELSE IF Linked(a) /\ Linked(b) THEN "D"
     ELSE IF Linked(a) THEN ">" ELSE IF Linked(b) THEN "<" ELSE "."
Upper(t) == CASE t = "consensus" -> "CONSENSUS" [] t = "mempool" -> "MEMPOOL" [] t = "contact-info" -> "CONTACT-INFO"
              [] t = "decided-values" -> "DECIDED-VALUES" [] OTHER -> "READ-NODE-PEERS"
Tag(t) == CASE t = "consensus" -> "conse" [] t = "mempool" -> "mempo" [] t = "contact-info" -> "conta"
            [] t = "decided-values" -> "decid" [] OTHER -> "read-"
Matrix(ns, t) ==
  <<Upper(t) \o " LINKS (row->col:  M mesh  D direct/explicit  > row->col only  < col->row only  . none)",
    Blank(16) \o Cat([j \in 1..Len(ns) |-> Pad(ns[j].self[1].tag, 6)])>>
  \o [i \in 1..Len(ns) |->
       Pad(ns[i].self[1].short \o " (" \o (IF ns[i].self[1].val THEN "val" ELSE "non") \o ")", 16)
       \o Cat([j \in 1..Len(ns) |-> Pad(Edge(ns, i, j, t), 6)])]
RECURSIVE MatrixAll(_, _)
MatrixAll(ns, ts) == IF ts = <<>> THEN <<>> ELSE Matrix(ns, ts[1]) \o MatrixAll(ns, Tail(ts))
PeersOf(v) == {v.peers[k].id : k \in 1..Len(v.peers)}
NodeRow(v, ts) ==
  Pad(v.self[1].short, 12) \o " " \o Pad(IF v.self[1].val THEN "validator" ELSE "non-val", 11) \o " "
  \o Cat([k \in 1..Len(ts) |-> Pad(ToString(Cardinality({id \in PeersOf(v) : Linked(LinkTo(v, id, ts[k]))})), 6)])
  \o v.self[1].ver
\* readers: who reports them, in order; spokes are listed by peer id
Readers(ns) == UNION {{[id |-> ns[i].peers[k].id, short |-> ns[i].peers[k].short] : k \in {k \in 1..Len(ns[i].peers) : ns[i].peers[k].nt = "non-val"}} : i \in 1..Len(ns)}
RECURSIVE Reporters(_, _)
Reporters(ns, id) ==
  IF ns = <<>> THEN <<>>
  ELSE [k \in 1..Count(ns[1].peers, LAMBDA p : p.id = id /\ p.nt = "non-val") |-> ns[1].self[1].short] \o Reporters(Tail(ns), id)
Spoke(ns, r) == "  " \o r.short \o "  < " \o Join(Reporters(ns, r.id), ", ")
TopologyHead(topo, ts) ==
  LET ns == Telling(topo) IN
  <<"MESH TOPOLOGY  nodes=" \o ToString(Len(ns)) \o "  unreachable=" \o ToString(Len(topo.unreachable))
      \o "  net=" \o (IF ns = <<>> THEN "?" ELSE ns[1].self[1].net)>>
  \o MatrixAll(ns, ts)
  \o <<"NODES (links per topic: mesh + direct)",
       Pad("PEER", 12) \o " " \o Pad("ROLE", 11) \o " " \o Cat([k \in 1..Len(ts) |-> Pad(Tag(ts[k]), 6)]) \o "VERSION">>
  \o [i \in 1..Len(ns) |-> NodeRow(ns[i], ts)]
  \o (IF topo.unreachable = <<>> THEN <<"unreachable: (none)">>
      ELSE <<"UNREACHABLE (" \o ToString(Len(topo.unreachable)) \o ")">>
           \o [k \in 1..Len(topo.unreachable) |-> "  " \o Pad(topo.unreachable[k].short, 12) \o " " \o topo.unreachable[k].reason])
  \o (IF Readers(ns) = {} THEN <<>> ELSE <<"READER SPOKES (" \o ToString(Cardinality(Readers(ns))) \o ")">>)

\* ------------------------------------------------------------------ JSON pages
S(p, x) == <<p, "s:" \o x>>
B(p, x) == <<p, IF x THEN "z:true" ELSE "z:false">>
N(p, x) == <<p, "n:" \o x>>
Maybe(p, x) == IF x = "" THEN {} ELSE {S(p, x)}
At(p, k) == p \o "[" \o ToString(k - 1) \o "]"
Annotated(path, reg, id, pub, hosts) ==
  LET k == Lookup(reg, id, pub) u == Url(k, hosts) IN
  {B(path \o ".known_offline", k.name # "" /\ k.off)}
  \union Maybe(path \o ".http_api_url", u[1]) \union Maybe(path \o ".http_api_url_source", u[2])
  \union (IF k.name = "" THEN {}
          ELSE {S(path \o ".name", k.name)} \union Maybe(path \o ".operator", k.op)
               \union Maybe(path \o ".role", k.role) \union (IF k.hasnote THEN {S(path \o ".note", k.note)} ELSE {}))
SelfJson(path, l, reg) ==
  {S(path \o ".peer_id", l.id), B(path \o ".is_validator", l.val), S(path \o ".gossip_address", l.gossip),
   S(path \o ".rpc_address", l.rpc), S(path \o ".snapchain_version", l.ver), S(path \o ".network", l.net),
   N(path \o ".consensus_mesh_size", l.size), N(path \o ".current_height", l.h)}
  \union Maybe(path \o ".consensus_public_key", l.pub)
  \union {S(At(path \o ".subscribed_topics", k), l.topics[k]) : k \in 1..Len(l.topics)}
  \union Annotated(path, reg, l.id, l.pub, l.hosts)
PeerJson(path, p, reg) ==
  {S(path \o ".peer_id", p.id), S(path \o ".node_type", p.nt), B(path \o ".connected", p.conn), B(path \o ".direct_peer", p.direct),
   S(path \o ".contact_source", p.source), S(path \o ".observed_address", p.addr)}
  \union (IF p.pub = "-" THEN {} ELSE {S(path \o ".consensus_public_key", p.pub)})
  \union (IF p.contact = <<>> THEN {}
          ELSE LET c == p.contact[1] q == path \o ".contact_info" IN
               {S(q \o ".gossip_address", c.gossip), S(q \o ".announce_rpc_address", c.rpc), S(q \o ".snapchain_version", c.ver),
                S(q \o ".network", c.net), N(q \o ".timestamp", c.ts)})
  \union UNION {LET q == At(path \o ".topics", k) m == p.topics[k] IN
                {S(q \o ".topic", m.topic), B(q \o ".subscribed", m.sub), B(q \o ".in_mesh", m.mesh)} : k \in 1..Len(p.topics)}
  \union UNION {LET q == At(path \o ".gossip_rates", k) m == p.rates[k] IN
                {S(q \o ".topic", m.topic), N(q \o ".msgs_per_sec", m.mps), N(q \o ".bytes_per_sec", m.bps),
                 N(q \o ".total_msgs", m.tm), N(q \o ".total_bytes", m.tb)} : k \in 1..Len(p.rates)}
  \union Annotated(path, reg, p.id, IF p.pub = "-" THEN "" ELSE p.pub, p.hosts)
ViewJson(path, v, reg) ==
  {N(path \o ".generated_at", v.at)}
  \union (IF v.self = <<>> THEN {} ELSE SelfJson(path \o ".self", v.self[1], reg))
  \union UNION {PeerJson(At(path \o ".peers", k), v.peers[k], reg) : k \in 1..Len(v.peers)}
TopologyJson(topo, reg) ==
  {N(".generated_at", topo.at)}
  \union UNION {ViewJson(At(".nodes", k), topo.nodes[k], reg) : k \in 1..Len(topo.nodes)}
  \union UNION {LET q == At(".unreachable", k) u == topo.unreachable[k] IN
                {S(q \o ".peer_id", u.id), S(q \o ".reason", u.reason)} \union Maybe(q \o ".consensus_public_key", u.pub)
                \union Annotated(q, reg, u.id, u.pub, <<>>) : k \in 1..Len(topo.unreachable)}

\* ------------------------------------------------------------------ topics asked for
\* parts: the comma-separated parts of the parameter, trimmed; all: one of them says "all"
Chosen(parts, all) ==
  LET known == SelectSeq(parts, LAMBDA t : \E k \in 1..Len(Topics) : Topics[k] = t)
  IN IF all THEN Topics ELSE IF known = <<>> THEN DefaultTopics ELSE known

\* ------------------------------------------------------------------ crawl
\* replies: peer id -> [kind |-> "view", view |-> v] | [kind |-> "error", text |-> s] | "silent" | "closed"
Seed(keys, view) ==
  LET me == IF view.self = <<>> THEN "" ELSE view.self[1].id IN
  SelectSeq(view.peers, LAMBDA p : Validator(keys, p) /\ p.id # me)
RECURSIVE CrawlNodes(_, _, _, _)
CrawlNodes(keys, seed, replies, only) ==
  IF seed = <<>> THEN <<>>
  ELSE (IF replies[seed[1].id].kind = "view" THEN <<Classify(keys, replies[seed[1].id].view, "0", only)>> ELSE <<>>)
       \o CrawlNodes(keys, Tail(seed), replies, only)
Reason(r) == CASE r.kind = "error" -> "error: " \o r.text
               [] r.kind = "closed" -> "error: response channel closed"
               [] r.kind = "silent" -> "timeout"
CrawlMissing(keys, view, seed, replies) ==
  LET ids == {seed[k].id : k \in 1..Len(seed)}
      me == IF view.self = <<>> THEN "" ELSE view.self[1].id
  IN {[id |-> i, pub |-> keys[i], reason |-> Reason(replies[i])] : i \in {i \in ids : replies[i].kind # "view"}}
     \union {[id |-> i, pub |-> keys[i], reason |-> "not_connected"] : i \in (DOMAIN keys) \ (ids \union {me})}

\* ------------------------------------------------------------------ gossip rates
NoCount == [m |-> 0, b |-> 0]
Counted(s, k) == IF k \in DOMAIN s.count THEN s.count[k] ELSE NoCount
Record(s, k, bytes) == [s EXCEPT !.count = (k :> [m |-> Counted(s, k).m + 1, b |-> Counted(s, k).b + bytes]) @@ @]
\* a refresh takes a sample and derives the rate since the previous sample
Refresh(s, ks, lo, hi) ==
  [s EXCEPT !.sample = [k \in ks |-> [c |-> Counted(s, k), lo |-> lo, hi |-> hi]] @@ @,
            !.rate = [k \in ks |-> [total |-> Counted(s, k),
                                    since |-> IF k \in DOMAIN s.sample
                                              THEN <<[m |-> Counted(s, k).m - s.sample[k].c.m, b |-> Counted(s, k).b - s.sample[k].c.b,
                                                      lo |-> lo - s.sample[k].hi, hi |-> hi - s.sample[k].lo]>>
                                              ELSE <<>>]] @@ @]
Without(f, ks) == [k \in DOMAIN f \ ks |-> f[k]]
Forget(s, ks) == [count |-> Without(s.count, ks), sample |-> Without(s.sample, ks), rate |-> Without(s.rate, ks)]
\* per-second figure f (rounded down / up: f, f + 1) against a difference over lo..hi milliseconds
Fits(f, d, lo, hi) == IF d = 0 THEN f = 0 ELSE (f + 1) * hi >= d * 1000 /\ f * lo <= d * 1000

\* ------------------------------------------------------------------ cache
\* kept: question -> [val, lo, hi] (the entry was stored between lo and hi)
\* Served from the store if certainly fresh, computed if certainly stale or absent.
MustServe(kept, q, t0, t1, ttl) == ttl > 0 /\ q \in DOMAIN kept /\ t1 - kept[q].lo < ttl
MustAsk(kept, q, t0, t1, ttl) == ttl = 0 \/ q \notin DOMAIN kept \/ t0 - kept[q].hi > ttl
=============================================================================
