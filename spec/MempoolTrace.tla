----------------------------- MODULE MempoolTrace -----------------------------
(* Checks recorded runs of the real mempool against Mempool.tla.

   s : st  - queue state;   n, net, now, limits - the configuration of the run;
       units (fid -> units2025), gen (fid -> [taken, t0]) general rate, live, keys likewise;
       read - TRUE for a node without a queue                                     *)
EXTENDS Mempool, TraceLib
VARIABLES i, s, bad

NoUnits == [legacy |-> 0, u2024 |-> 0, u2025 |-> 0]
Fresh(r) == [st |-> [q |-> {}, stored |-> {}, seq |-> [k \in 0..r.n |-> 0]], n |-> r.n, v |-> VersionAt(r.net, r.now),
             limits |-> r.limits, read |-> r.read, units |-> <<>>, gen |-> <<>>, live |-> <<>>, keys |-> <<>>, msgs |-> <<>>]
Look(f, k, d) == LET h == {j \in DOMAIN f : f[j][1] = k} IN IF h = {} THEN d ELSE f[CHOOSE j \in h : TRUE][2]
Put(f, k, x) == Append(SelectSeq(f, LAMBDA e : e[1] # k), <<k, x>>)
Drop(f, k) == SelectSeq(f, LAMBDA e : e[1] # k)
UnitsOf(t, fid) == [NoUnits EXCEPT !.u2025 = Look(t.units, fid, 0)]

(* message as the specification sees it *)
M(t, id) == t.msgs[id]
AsMsg(r, t) == [id |-> r.id, kind |-> r.kind, fid |-> r.fid, ts |-> r.ts, sh |-> AccountShard(r.hi, r.lo, t.n), type |-> r.type,
                live |-> r.live, hash |-> r.hash, seq |-> r.seq, for |-> r.for, bad |-> r.bad]

(***************************************************************************)
(* Rates: outcome "ok", "limited" and the new bookkeeping, given what was   *)
(* observed where the clock makes both possible                             *)
(***************************************************************************)
Hour == 3600000
\* the limiters a message has to pass, in order: <<name, n>>; n = 0 refuses outright
Gates(t, m) ==
  IF m.kind # "user" THEN <<>>
  ELSE (IF m.type = "KeyAdd" THEN <<<<"keys", 1>>>> ELSE <<>>)
       \o (IF m.live THEN <<<<"live", IF HasStorage(UnitsOf(t, m.fid)) THEN LiveRate(UnitsOf(t, m.fid)) ELSE 0>>>>
           ELSE IF t.limits THEN <<<<"gen", IF HasStorage(UnitsOf(t, m.fid)) THEN HourlyRate(UnitsOf(t, m.fid)) ELSE 0>>>>
           ELSE <<>>)
Table(t, g) == CASE g = "keys" -> t.keys [] g = "live" -> t.live [] g = "gen" -> t.gen
SetTable(t, g, x) == CASE g = "keys" -> [t EXCEPT !.keys = x] [] g = "live" -> [t EXCEPT !.live = x] [] g = "gen" -> [t EXCEPT !.gen = x]
\* the rate in force is fixed when the limiter is created
GateN(t, m, g) == LET e == Look(Table(t, g[1]), m.fid, <<>>) IN IF e = <<>> THEN g[2] ELSE e.n
Pass(t, m, g, ms) ==
  LET n == GateN(t, m, g)
      hour == IF g[1] = "keys" THEN 60000 ELSE Hour
      e == Look(Table(t, g[1]), m.fid, [taken |-> 0, t0 |-> ms[1], n |-> n])
  IN IF n = 0 THEN [must |-> FALSE, may |-> FALSE, yes |-> t, no |-> t]
     ELSE [must |-> MustGrant(n, e.taken), may |-> MayGrant(n, e.taken, ms[2] - e.t0, hour),
           yes |-> SetTable(t, g[1], Put(Table(t, g[1]), m.fid, [e EXCEPT !.taken = @ + 1])),
           no |-> SetTable(t, g[1], Put(Table(t, g[1]), m.fid, e))]
\* set of [res, t] outcomes of all gates
RECURSIVE Rates(_, _, _, _)
Rates(t, m, gs, ms) ==
  IF gs = <<>> THEN {[res |-> "ok", t |-> t]}
  ELSE LET p == Pass(t, m, Head(gs), ms)
       IN (IF p.may THEN Rates(p.yes, m, Tail(gs), ms) ELSE {})
          \cup (IF ~p.must THEN {[res |-> "limited", t |-> p.no]} ELSE {})

(***************************************************************************)
(* A submission: shard after shard; the first refusal is the answer         *)
(***************************************************************************)
\* ghosts: queued messages that became undeliverable may have left already
Views(st, v) == {st, [st EXCEPT !.q = {e \in @ : Valid(st, e.s, e.m, v)}]}
Into(t, sh, m, ms) ==
  LET As == {Admission(w, sh, m, t.v) : w \in Views(t.st, t.v)}
  IN {[res |-> a, t |-> t] : a \in As \ {"ok"}}
     \cup (IF "ok" \in As
           THEN {[res |-> o.res, t |-> IF o.res = "ok" THEN [o.t EXCEPT !.st = Enqueue(t.st, sh, m)] ELSE o.t] : o \in Rates(t, m, Gates(t, m), ms)}
           ELSE {})
RECURSIVE IntoAll(_, _, _, _, _)
IntoAll(t, shs, m, ms, acc) ==
  IF shs = <<>> THEN {[res |-> IF acc.errs = <<>> THEN "ok" ELSE acc.errs[1], t |-> t, sent |-> acc.sent]}
  ELSE UNION {IntoAll(o.t, Tail(shs), m, ms, [errs |-> IF o.res = "ok" THEN acc.errs ELSE Append(acc.errs, o.res),
                                               sent |-> acc.sent + (IF o.res = "ok" THEN 1 ELSE 0)]) : o \in Into(t, Head(shs), m, ms)}
Outcomes(t, r) ==
  LET m == M(t, r.id)
  IN IF m.bad THEN {[res |-> "refused", t |-> t, sent |-> 0]}
     ELSE IF t.read THEN
       LET rs == {s0 \in Range(Route(m, t.n, t.v)) : ~(m.kind = "user" /\ Stored(t.st, s0, m))}
       IN {[res |-> IF rs # {} THEN "ok" ELSE "duplicate", t |-> t, sent |-> IF rs # {} THEN 1 ELSE 0]}
     ELSE IntoAll(t, Route(m, t.n, t.v), m, r.ms, [errs |-> <<>>, sent |-> 0])
\* what other nodes are told: user messages that were not heard from them
Told(m, o, source) == IF m.kind = "user" /\ source # "gossip" THEN o.sent ELSE 0

Submit(t, r) ==
  LET os == Outcomes(t, r)
      good == {o \in os : o.res = r.res /\ Told(M(t, r.id), o, r.source) = r.told}
  IN IF good # {} THEN [s |-> (CHOOSE o \in good : TRUE).t, errs |-> <<>>]
     ELSE [s |-> (CHOOSE o \in os : TRUE).t,
           errs |-> Expect(FALSE, "submit", [id |-> r.id, m |-> M(t, r.id), got |-> r.res, told |-> r.told, source |-> r.source, want |-> {<<o.res, o.sent>> : o \in os}])]

Pull(t, r) ==
  LET out == [k \in 1..Len(r.ids) |-> M(t, r.ids[k])]
  IN [s |-> [t EXCEPT !.st = AfterPull(t.st, r.s, t.v, r.max, out)],
      errs |-> Expect(GoodPull(t.st, r.s, r.max, t.v, out), "pull",
                      [shard |-> r.s, max |-> r.max, got |-> r.ids, queue |-> {<<m.id, m.kind, m.ts, m.seq>> : m \in Deliverable(t.st, r.s, t.v)}])]

Raise(tab, fids) == SelectSeq(tab, LAMBDA e : e[1] \notin fids)
Commit(t, r) == [s |-> [t EXCEPT !.st = AfterCommit(t.st, r.s, Range(r.ids)), !.gen = Raise(@, Range(r.raise)), !.live = Raise(@, Range(r.raise))], errs |-> <<>>]

Size(t, r) ==
  LET lo == {e \in t.st.q : Valid(t.st, e.s, e.m, t.v)}
      N(q, sh) == Cardinality({e \in q : e.s = sh})
      Got(sh) == IF sh + 1 \in DOMAIN r.sizes THEN r.sizes[sh + 1] ELSE 0
      ok == \A sh \in 0..t.n : N(lo, sh) <= Got(sh) /\ Got(sh) <= N(t.st.q, sh)
  IN [s |-> t, errs |-> Expect(IF t.read THEN \A k \in DOMAIN r.sizes : r.sizes[k] = 0 ELSE ok, "size",
                              [got |-> r.sizes, want |-> {<<e.s, e.m.id>> : e \in t.st.q}])]

(* one account spending its allowance at once: how many of `tries` pass *)
BurstOk(r) ==
  LET u == [NoUnits EXCEPT !.u2025 = r.units]
      n == CASE r.which = "keys" -> 1 [] r.which = "live" -> LiveRate(u) [] r.which = "gen" -> IF HasStorage(u) THEN HourlyRate(u) ELSE 0
      hour == IF r.which = "keys" THEN 60000 ELSE Hour
      low == Min(r.tries, n)
  IN /\ r.granted >= low
     /\ n = 0 => r.granted = 0
     /\ n > 0 => r.granted <= Min(r.tries, n + (((r.ms \div 1000) + 1) * n) \div (hour \div 1000) + 1)

RouteOk(r) == r.got = UserShard(r.type, AccountShard(r.hi, r.lo, r.n), r.v)

Step(t, r) ==
  CASE r.op = "begin" -> [s |-> Fresh(r), errs |-> <<>>]
    [] r.op = "msg" -> [s |-> [t EXCEPT !.msgs = Append(@, AsMsg(r, t))], errs |-> Expect(r.id = Len(t.msgs) + 1, "harness", r.id)]
    [] r.op = "submit" -> Submit(t, r)
    [] r.op = "pull" -> Pull(t, r)
    [] r.op = "commit" -> Commit(t, r)
    [] r.op = "stored" -> [s |-> [t EXCEPT !.st.stored = @ \cup {<<r.s, r.id>>}], errs |-> <<>>]
    [] r.op = "blockseq" -> [s |-> [t EXCEPT !.st.seq[r.s] = r.seq], errs |-> <<>>]
    [] r.op = "rent" -> [s |-> [t EXCEPT !.units = Put(@, r.fid, Look(@, r.fid, 0) + r.units)], errs |-> <<>>]
    [] r.op = "size" -> Size(t, r)
    [] r.op = "dead" -> [s |-> t, errs |-> Expect(FALSE, "stopped", r)]
    [] r.op = "burst" -> [s |-> t, errs |-> Expect(BurstOk(r), "rate", r)]
    [] r.op = "route" -> [s |-> t, errs |-> Expect(RouteOk(r), "route", r)]

Init == i = 0 /\ s = <<>> /\ bad = 0
Next == /\ i < Len(Trace)
        /\ i' = i + 1
        /\ LET o == Step(s, Trace[i']) IN /\ s' = o.s /\ bad' = bad + Len(o.errs) /\ Report(i', o.errs)
        /\ (i' = Len(Trace) => Finish(i', bad'))
Spec == Init /\ [][Next]_<<i, s, bad>>
=============================================================================
