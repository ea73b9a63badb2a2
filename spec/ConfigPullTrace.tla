---------------------------- MODULE ConfigPullTrace ----------------------------
EXTENDS ConfigPull, TraceLib
VARIABLES i, s, bad
Init == i = 1 /\ s = [file |-> <<>>, parses |-> TRUE] /\ bad = 0

Where(r) == [args |-> r.a, env |-> r.env, server |-> r.sv]
Requests(r, file) ==
  \* only when something was asked of the endpoint
  IF r.res.url = "-" THEN <<>>
  ELSE Expect(r.res.url = Endpoint(r.a.net, r.a.rpc, r.env, file), "endpoint", <<Where(r), r.res.url>>) \o
       Expect(r.res.to = "-" \/ r.res.to = Registry(r.a.net, r.a.registry), "registry-address", <<Where(r), r.res.to>>)
PullStep(r) ==
  LET file == s.file
      ok == PullOk(r.a, r.env, r.sv, file, s.parses, r.doc)
      after == IF ok /\ ~r.a.dry THEN Merge(file, r.doc, r.a.keep) ELSE file
      tried == r.sv.fault = "edit" /\ r.res.edited
      final == IF tried THEN r.res.file ELSE after
  IN [s |-> [file |-> r.res.file, parses |-> r.res.parses],
      errs |-> Expect(r.res.ok = ok, "pull-outcome", <<Where(r), r.doc, r.res.ok, r.res.err>>) \o
               (IF tried THEN Expect(r.res.kept, "edit-lost", Where(r)) ELSE Expect(r.res.parses = s.parses /\ r.res.file = final, "file-content", <<Where(r), [was |-> file, is |-> r.res.file, expected |-> final]>>)) \o
               Expect(ok \/ r.res.same \/ tried, "file-touched-on-error", Where(r)) \o
               Expect(~r.a.dry \/ r.res.same \/ tried, "dry-run-wrote", Where(r)) \o
               (IF ok /\ r.a.dry THEN Expect(r.res.shown = Shown(Merge(file, r.doc, r.a.keep)), "dry-run-output", <<Where(r), r.res.shown>>) ELSE <<>>) \o
               (IF r.a.report /\ ~(r.a.dry) THEN Expect(r.res.report = (IF ok THEN r.ver ELSE "-"), "version-report", <<Where(r), r.res.report, r.ver>>) ELSE Expect(r.res.report = "-", "version-report", Where(r))) \o
               (IF ok /\ r.a.report THEN Expect(r.res.pin = "same", "reads-not-pinned", <<Where(r), r.res.pin>>) ELSE <<>>) \o
               Expect(r.res.left = <<>>, "left-behind", <<Where(r), r.res.left>>) \o
               Expect(r.res.mode, "permissions", Where(r)) \o Expect(r.res.link, "symlink-replaced", Where(r)) \o
               Expect(~r.res.leak, "secret-shown", <<Where(r), r.res.err>>) \o Requests(r, file)]
VersionStep(r) ==
  LET ok == VersionOk(r.a, r.env, r.sv, s.file, s.parses)
  IN [s |-> s,
      errs |-> Expect(r.res.ok = ok, "version-outcome", <<Where(r), r.res.ok, r.res.err>>) \o
               (IF ok THEN Expect(r.res.out = r.ver, "version-output", <<Where(r), r.res.out, r.ver>>) ELSE <<>>) \o
               Expect(r.res.same, "file-touched-on-error", Where(r)) \o
               Expect(~r.res.leak, "secret-shown", Where(r)) \o Requests(r, s.file)]
\* the node's own key: environment first
SlotStep(r) ==
  LET keys == Range(r.keys)
      key == IF r.env # "-" THEN r.env ELSE r.file
      ok == s.parses /\ key \notin {"-", "bad"} /\ r.sets = "ok" /\ keys # {}
      slot == Slot(IF r.env # "-" THEN r.envrank ELSE r.filerank, keys)
  IN [s |-> s,
      errs |-> Expect(r.vs = CP_Get(s.file, "consensus.validator_sets", "-"), "slot-input", r) \o
               Expect(r.res.ok = ok, "slot-outcome", r) \o
               (IF ok /\ r.res.ok THEN Expect(r.res.index = slot.index /\ r.res.count = slot.count, "slot", <<r, slot>>) ELSE <<>>) \o
               Expect(~r.res.leak, "secret-shown", r)]
Step(r) ==
  CASE r.op = "reset" -> [s |-> [file |-> r.file, parses |-> r.parses], errs |-> <<>>]
    [] r.op = "pull" -> PullStep(r)
    [] r.op = "version" -> VersionStep(r)
    [] r.op = "slot" -> SlotStep(r)

Next == /\ i <= Len(Trace)
        /\ LET z == Step(Trace[i]) IN
             /\ Report(i, z.errs)
             /\ s' = z.s
             /\ bad' = bad + Len(z.errs)
             /\ i' = i + 1
             /\ (i = Len(Trace)) => Finish(i, bad + Len(z.errs))
Spec == Init /\ [][Next]_<<i, s, bad>>
=============================================================================
