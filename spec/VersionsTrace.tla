--------------------------- MODULE VersionsTrace ---------------------------
(* What the code says at a time, against Versions.tla *)
EXTENDS Versions, TraceLib
VARIABLES i, bad

Errs(r) ==
  CASE r.op = "reset" -> <<>>
    [] r.op = "at" ->
         LET v == VersionAt(r.net, r.t) IN
         Expect(r.v = v, "version", [rec |-> r, want |-> v]) \o
         Expect(r.next = NextAt(r.net, r.t), "next-version-time", [rec |-> r, want |-> NextAt(r.net, r.t)]) \o
         Expect(r.chan = Enabled("ChannelMessages", v), "channel-snapshot", r)
    [] r.op = "features" ->
         Expect(r.protocol = ProtocolOf(r.v), "protocol-version", [rec |-> r, want |-> ProtocolOf(r.v)]) \o
         Expect(Range(r.on) = {f \in Features : Enabled(f, r.v)}, "features",
                [v |-> r.v, missing |-> {f \in Features : Enabled(f, r.v)} \ Range(r.on), extra |-> Range(r.on) \ {f \in Features : Enabled(f, r.v)}])
    [] r.op = "latest" -> Expect(r.v = Latest /\ r.devnet = Latest /\ r.protocol = ProtocolOf(Latest), "latest", r)
    \* clock conversions: seconds since 2021-01-01
    [] r.op = "to_time" -> \* milliseconds relative to the epoch = s * 1000 + ms
         Expect(r.ok = (r.s >= 0) /\ (r.ok => r.got = r.s), "to-farcaster-time", r)
    [] r.op = "from_time" -> Expect(r.s = r.t /\ r.ms = 0, "from-farcaster-time", r)
    [] r.op = "clock" -> Expect(r.unix = r.t + 1609459200 /\ r.back = r.t /\ r.incr = r.t + r.d /\ r.decr = r.t - r.d, "clock", r)
    [] r.op = "beyond" -> Expect(~r.ok, "time-beyond-32-bits", r)
Init == i = 0 /\ bad = 0
Next == /\ i < Len(Trace)
        /\ LET e == Errs(Trace[i + 1])
           IN /\ i' = i + 1 /\ bad' = bad + Len(e) /\ Report(i + 1, e)
              /\ (i + 1 = Len(Trace) => Finish(i + 1, bad'))
Spec == Init /\ [][Next]_<<i, bad>>
=============================================================================
