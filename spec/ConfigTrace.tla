----------------------------- MODULE ConfigTrace -----------------------------
EXTENDS Config, TraceLib
VARIABLES i, bad
Init == i = 1 /\ bad = 0

Diff(all, exp) == [p \in {p \in Paths : (IF p \in DOMAIN all THEN all[p] ELSE "-") # exp[p]} |->
                    <<IF p \in DOMAIN all THEN all[p] ELSE "-", exp[p]>>]
LoadStep(r) ==
  LET file == LayerOf(r.file) env == LayerOf(r.env)
      ok == LoadOk(r.cli, r.filestate, file, env)
      exp == Effective(file, env, r.cli)
      d == Diff(r.res.all, exp)
  IN Expect(r.res.ok = ok, "load-outcome", <<r.cli, r.filestate, r.file, r.env, r.res.err>>) \o
     (IF ok /\ r.res.ok
      THEN Expect(DOMAIN d = {}, "setting", <<d, r.file, r.env, r.cli>>) \o
           Expect(DOMAIN r.res.all \ Paths = {}, "unknown-setting", DOMAIN r.res.all \ Paths) \o
           Expect(r.res.clear = r.cli.clear /\ r.res.check = r.cli.check, "command-line-only", <<r.cli, r.res.clear, r.res.check, r.file, r.env>>)
      ELSE <<>>) \o
     Expect(~r.res.leak, "secret-shown", r.res.err) \o
     (IF r.run # "-" THEN Expect((r.run = "ok") = (ok /\ StartOk(exp)), "start-outcome", <<r.run, r.cli, r.file, r.env>>) \o
                          Expect(r.untouched, "check-touched-database", <<r.cli, r.file>>) \o Expect(~r.runleak, "secret-shown", "program")
      ELSE <<>>)
SetsStep(r) ==
  LET fit == Seeded(r.sets, r.shard) /\ Unambiguous(r.sets, r.shard)
  IN Expect(r.given = r.sets, "sets-read", r) \o
     (IF fit THEN Flat([k \in 1..Len(r.at) |->
        LET q == r.at[k] IN Expect(Range(q.keys) = InForce(r.sets, r.shard, q.h), "validators-in-force", <<r.sets, r.shard, q>>) \o
                            Expect(Len(q.keys) = Cardinality(Range(q.keys)), "validator-twice", q) \o
                            Expect(\A z \in 1..Len(q.props) : q.props[z].who = Proposer(InForce(r.sets, r.shard, q.h), q.h, q.props[z].r), "proposer", <<r.sets, q>>)])
      ELSE <<>>) \o
     (IF Ordered(r.sets) /\ \A sh \in UNION {Range(r.sets[k].shards) : k \in DOMAIN r.sets} : Unambiguous(r.sets, sh)
      THEN Expect(Range(r.latest) = Latest(r.sets), "latest-validators", <<r.sets, r.latest>>) ELSE <<>>) \o
     Expect(r.with.num = Len(r.with.shards) /\ r.with.got = r.with.shards, "node-shards", r.with)
AddressesStep(r) == Expect(r.got = <<[at |-> 0, shards |-> <<r.shard>>, keys |-> r.keys]>>, "deprecated-addresses", r)
Step(r) ==
  CASE r.op = "load" -> LoadStep(r)
    [] r.op = "sets" -> SetsStep(r)
    [] r.op = "addresses" -> AddressesStep(r)
    [] r.op = "none" -> Expect(r.refused, "no-validators", r)
    [] r.op = "keypair" -> Expect(r.same, "keypair", r)
    [] r.op = "peers" -> Expect(r.got = r.want, "peer-list", r)

Next == /\ i <= Len(Trace)
        /\ LET z == Step(Trace[i]) IN
             /\ Report(i, z)
             /\ bad' = bad + Len(z)
             /\ i' = i + 1
             /\ (i = Len(Trace)) => Finish(i, bad + Len(z))
Spec == Init /\ [][Next]_<<i, bad>>
=============================================================================
