------------------------------ MODULE KeysTrace -------------------------------
(* Judges histories recorded from the code: requests to add and remove keys, their use, what is kept. *)
EXTENDS Keys, TraceLib
VARIABLES i, s, bad

\* cur: with what the block under way has done; base: as committed
Zero == [cur |-> Empty, base |-> Empty]

Request(m) == [m EXCEPT !.scopes = Range(m.scopes)]
State(st, r) ==
  [recs |-> {[f |-> p[1], key |-> p[2], h |-> st.recs[p].h, app |-> st.recs[p].req, over |-> FALSE, one |-> TRUE] : p \in DOMAIN st.recs},
   n |-> Cardinality(DOMAIN st.recs),
   counts |-> {[f |-> c.f, n |-> Count(st, c.f), un |-> Get(st.un, c.f, 0)] : c \in Range(r.counts)},
   used |-> {[f |-> p[1], key |-> p[2], at |-> st.used[p]] : p \in DOMAIN st.used},
   owners |-> {[f |-> p[1], key |-> p[2]] : p \in DOMAIN st.recs},
   apps |-> {[app |-> a.app, an |-> Get(st.an, a.app, 0)] : a \in Range(r.apps)}]
Kept(r) == [recs |-> Range(r.recs), n |-> Len(r.recs), counts |-> Range(r.counts), used |-> Range(r.used), owners |-> Range(r.owners), apps |-> Range(r.apps)]

\* a request whose signer's deadline has passed, and that has nothing else against it
Decided(r, errs, kind) ==
  IF r.ok /\ errs = {"deadline"} THEN Expect(FALSE, "KNOWN-custody-deadline-not-enforced", [m |-> r.m])
  ELSE Expect(r.ok = (errs = {}), kind, [want |-> errs, got |-> r.why, m |-> r.m, replay |-> r.replay])
Prior(st, m) == IF <<m.f, m.key>> \in DOMAIN st.recs THEN <<st.recs[<<m.f, m.key>>].h>> ELSE <<>>

Errs(r) ==
  CASE r.op \in {"reset", "custody", "chain", "commit", "discard", "fill"} -> <<>>
    [] r.op = "add" ->
         LET m == Request(r.m)
         IN Decided(r, AddErrors(s.cur, m, r.replay), "key-add")
            \o Expect(r.ok => r.out.said /\ r.out.gone = Prior(s.cur, m), "key-add-event", [out |-> r.out, want |-> Prior(s.cur, m)])
    [] r.op = "remove" ->
         Decided(r, RemoveErrors(s.cur, r.m), "key-remove")
         \o Expect(r.ok => r.out.said /\ r.out.gone = Prior(s.cur, r.m), "key-remove-event", [out |-> r.out, want |-> Prior(s.cur, r.m)])
    [] r.op = "use" ->
         LET errs == UseErrors(s.cur, r.f, r.key, r.type, r.now)
         IN Expect(r.ok = (errs = {}), "key-use", [want |-> errs, got |-> r.why, r |-> r])
    [] r.op = "active" ->
         LET P == <<r.f, r.key>>
         IN Expect(CASE P \in s.cur.chain -> r.got.k = "chain" /\ {1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 14, 15} \subseteq Range(r.got.scopes)
                     [] P \notin s.cur.chain /\ P \in DOMAIN s.cur.recs -> r.got.k = "key" /\ r.got.ttl = s.cur.recs[P].ttl /\ Range(r.got.scopes) = s.cur.recs[P].scopes
                     [] OTHER -> r.got.k = "none", "active-key", [r |-> r])
    [] r.op = "state" -> Expect(Kept(r) = State(s.base, r), "kept", [got |-> Kept(r), want |-> State(s.base, r)])
    [] OTHER -> Expect(FALSE, "unknown-op", [op |-> r.op])

Step(st, r) ==
  CASE r.op = "custody" -> [st EXCEPT !.cust = Put(@, r.f, r.by)]
    [] r.op = "chain" -> [st EXCEPT !.chain = IF r.on THEN @ \cup {<<r.f, r.key>>} ELSE @ \ {<<r.f, r.key>>}]
    [] r.op = "fill" -> [st EXCEPT !.extra = Put(@, r.f, Get(@, r.f, 0) + r.n)]
    [] r.op = "add" /\ r.ok -> Add(st, Request(r.m))
    [] r.op = "remove" /\ r.ok /\ <<r.m.f, r.m.key>> \in DOMAIN st.recs -> Remove(st, r.m)
    [] r.op = "use" /\ r.ok /\ <<r.f, r.key>> \in st.chain \cup DOMAIN st.recs -> Use(st, r.f, r.key, r.ts)
    [] OTHER -> st
After(r) ==
  CASE r.op = "reset" -> Zero
    [] r.op = "commit" -> [s EXCEPT !.base = s.cur]
    [] r.op = "discard" -> [s EXCEPT !.cur = s.base]
    [] OTHER -> [s EXCEPT !.cur = Step(@, r)]

Init == i = 0 /\ s = Zero /\ bad = 0
Next == /\ i < Len(Trace)
        /\ LET e == Errs(Trace[i + 1])
           IN /\ i' = i + 1 /\ bad' = bad + Len(e) /\ Report(i + 1, e) /\ s' = After(Trace[i + 1])
              /\ (i' = Len(Trace)) => Finish(i', bad')
Spec == Init /\ [][Next]_<<i, s, bad>>
=============================================================================
