------------------------------ MODULE MeshTrace ------------------------------
EXTENDS Mesh, TraceLib
VARIABLES i, s, bad
Zero == [count |-> <<>>, sample |-> <<>>, rate |-> <<>>]

RegistryStep(r) ==
  LET ns == Registry(r.builtin, r.cfg) IN
  Expect(r.len = Len(SelectSeq(ns, Known)), "known-node-count", <<r.len, Len(ns), r.cfg>>) \o
  Flat([q \in 1..Len(r.asks) |-> LET a == r.asks[q] IN
     Expect(a.got = Lookup(ns, a.pid, a.pub), "known-node", <<a, Lookup(ns, a.pid, a.pub), r.cfg>>)])
KeyMap(ks) == LET ok == SelectSeq(ks, LAMBDA x : x.ok) IN [x \in {ok[q].id : q \in 1..Len(ok)} |-> (CHOOSE q \in Range(ok) : q.id = x).pub]
Pairs(ps) == {<<ps[q][1], ps[q][2]>> : q \in 1..Len(ps)}
JsonStep(kind, got, exp, r) ==
  LET g == Pairs(got) IN
  Expect(g = exp /\ Cardinality(g) = Len(got), kind, [extra |-> g \ exp, missing |-> exp \ g])
Lines(got, exp, kind) ==
  Expect(got = exp, kind,
         IF Len(got) # Len(exp) THEN <<Len(got), Len(exp)>>
         ELSE LET d == CHOOSE q \in 1..Len(got) : got[q] # exp[q] IN <<got[d], exp[d]>>)
TopologyPage(r, topics) ==
  LET h == TopologyHead(r.topo, topics)
      ns == Telling(r.topo)
      rs == Readers(ns)
      n == Len(h)
  IN IF Len(r.text) < n THEN Expect(FALSE, "topology-page", <<Len(r.text), n>>)
     ELSE Lines(SubSeq(r.text, 1, n), h, "topology-page") \o
          Expect(Len(r.text) = n + Cardinality(rs) /\ {r.text[q] : q \in (n + 1)..Len(r.text)} = {Spoke(ns, x) : x \in rs},
                 "reader-spokes", SubSeq(r.text, n + 1, Len(r.text)))
CrawlStep(r) ==
  LET keys == KeyMap(r.keys) local == Classify(keys, r.view, r.h, r.only)
      seed == Seed(keys, local)
      rep == [q \in {r.replies[z].id : z \in 1..Len(r.replies)} |-> (CHOOSE z \in Range(r.replies) : z.id = q).reply]
      exp == <<local>> \o CrawlNodes(keys, seed, rep, r.only)
  IN Expect(r.nodes = exp, "crawl-nodes", <<r.nodes, exp>>) \o
     Expect(Range(r.missing) = CrawlMissing(keys, local, seed, rep) /\ Len(r.missing) = Cardinality(Range(r.missing)),
            "crawl-unreachable", <<r.missing, CrawlMissing(keys, local, seed, rep)>>) \o
     Expect(r.asked = [q \in 1..Len(seed) |-> [id |-> seed[q].id, only |-> r.only]], "crawl-asked", r.asked)
RECURSIVE CacheFold(_, _, _, _)
CacheFold(kept, steps, ttl, n) ==
  IF n > Len(steps) THEN <<>>
  ELSE LET c == steps[n]
           serve == MustServe(kept, c.q, c.lo, c.hi, ttl) ask == MustAsk(kept, c.q, c.lo, c.hi, ttl)
       IN Expect(~(serve /\ c.ran), "recomputed-while-fresh", c) \o Expect(~(ask /\ ~c.ran), "served-stale", <<c, kept>>) \o
          Expect(c.got = IF c.ran THEN c.fresh ELSE IF c.q \in DOMAIN kept THEN kept[c.q].val ELSE "?", "cached-answer", <<c, kept>>) \o
          CacheFold(IF c.ran /\ c.ok THEN (c.q :> [val |-> c.got, lo |-> c.lo, hi |-> c.hi]) @@ kept ELSE kept, steps, ttl, n + 1)
Keys(ps, ts) == {p \o "|" \o t : p \in Range(ps), t \in Range(ts)}
RatesStep(r) ==
  LET exp == SelectSeq(r.topics, LAMBDA t : (r.peer \o "|" \o t) \in DOMAIN s.rate) IN
  Expect([q \in 1..Len(r.got) |-> r.got[q].topic] = exp, "rate-topics", <<r, exp>>) \o
  (IF [q \in 1..Len(r.got) |-> r.got[q].topic] # exp THEN <<>>
   ELSE Flat([q \in 1..Len(r.got) |->
     LET g == r.got[q] e == s.rate[r.peer \o "|" \o g.topic] d == e.since IN
     Expect(g.tm = e.total.m /\ g.tb = e.total.b, "gossip-totals", <<g, e>>) \o
     (IF d = <<>> THEN Expect(g.zero, "rate-without-history", g)
      ELSE Expect(Fits(g.mps, d[1].m, d[1].lo, d[1].hi) /\ Fits(g.bps, d[1].b, d[1].lo, d[1].hi), "gossip-rate", <<g, e>>))]))
Errs(r) ==
  CASE r.op = "registry" -> RegistryStep(r)
    [] r.op = "url" -> Expect(r.got = Url(r.known, r.hosts), "browser-address", <<r, Url(r.known, r.hosts)>>)
    [] r.op = "topics" -> Expect(r.got = Chosen(r.parts, r.all), "topics", r)
    [] r.op = "keys" -> Expect(Pairs(r.got) = {<<x.id, x.pub>> : x \in {x \in Range(r.keys) : x.ok}}, "validator-keys", r)
    [] r.op = "classify" -> Expect(r.out = Classify(KeyMap(r.keys), r.view, r.h, r.only), "classification", <<r.out, Classify(KeyMap(r.keys), r.view, r.h, r.only)>>)
    [] r.op = "view" -> Lines(r.text, ViewPage(r.view, r.topics), "view-page") \o JsonStep("view-json", r.json, ViewJson("", r.view, Registry(r.builtin, r.cfg)), r)
    [] r.op = "topology" -> TopologyPage(r, r.topics) \o JsonStep("topology-json", r.json, TopologyJson(r.topo, Registry(r.builtin, r.cfg)), r)
    [] r.op = "crawl" -> CrawlStep(r)
    [] r.op = "codec" -> Expect(r.res = r.want, "wire-form", r)
    [] r.op = "cache" -> CacheFold(<<>>, r.steps, r.ttl, 1)
    [] r.op = "flight" -> Expect(r.ran = 1 /\ Cardinality(Range(r.got)) = 1, "single-flight", r)
    [] r.op = "rates" -> RatesStep(r)
    [] OTHER -> <<>>
After(r) ==
  CASE r.op = "reset" -> Zero
    [] r.op = "record" -> Record(s, r.peer \o "|" \o r.topic, r.bytes)
    [] r.op = "refresh" -> Refresh(s, Keys(r.peers, r.topics), r.lo, r.hi)
    [] r.op = "forget" -> Forget(s, Keys(<<r.peer>>, r.topics))
    [] OTHER -> s
Init == i = 0 /\ s = Zero /\ bad = 0
Next == /\ i < Len(Trace)
        /\ LET e == Errs(Trace[i + 1])
           IN /\ i' = i + 1 /\ bad' = bad + Len(e) /\ Report(i + 1, e) /\ s' = After(Trace[i + 1])
              /\ (i' = Len(Trace)) => Finish(i', bad')
Spec == Init /\ [][Next]_<<i, s, bad>>
=============================================================================
