------------------------------- MODULE KeysMC --------------------------------
(* Requests of every kind in any order, with time passing and custody changing hands. *)
EXTENDS Keys, TLC
CONSTANTS Depth, Ttl
VARIABLES st, now, done, last, k
vars == <<st, now, done, last, k>>

F == {1, 2}
Keys2 == {"a", "b"}
Addr == {"x", "y"}
Apps == {2, 3}
Init == st = [Empty EXCEPT !.cust = (1 :> "x" @@ 2 :> "y" @@ 3 :> "y")] /\ now = 1 /\ done = {} /\ last = <<>> /\ k = 0
\* requests that were signed at some time, each available for ever after
Adds == {[f |-> f, key |-> key, by |-> by, dl |-> 3, nonce |-> n, ttl |-> Ttl, scopes |-> {1}, ts |-> 1, h |-> 0, aok |-> TRUE, app |-> app, asigner |-> "y", adl |-> 4]
         : f \in F, key \in Keys2, by \in Addr, n \in {1, 2}, app \in Apps}
Removes == {[f |-> f, key |-> key, mode |-> mode, by |-> by, env |-> env, dl |-> 4, nonce |-> n, ts |-> 1, h |-> 0]
            : f \in F, key \in Keys2, mode \in {"custody", "self"}, by \in {"x"}, env \in {"a"}, n \in {2, 3}}
DoAdd == \E m \in Adds : LET q == [m EXCEPT !.ts = now] IN
  AddErrors(st, q, FALSE) = {} /\ st' = Add(st, q) /\ last' = <<[a |-> "add", m |-> m]>> /\ done' = done \cup {m} /\ UNCHANGED now
DoRemove == \E m \in Removes : LET q == [m EXCEPT !.ts = now] IN
  RemoveErrors(st, q) = {} /\ st' = Remove(st, q) /\ last' = <<[a |-> "remove", m |-> m]>> /\ done' = done \cup {m} /\ UNCHANGED now
DoUse == \E f \in F, key \in Keys2 : UseErrors(st, f, key, 1, now) = {} /\ st' = Use(st, f, key, now)
  /\ last' = <<[a |-> "use", m |-> [f |-> f, key |-> key]]>> /\ UNCHANGED <<now, done>>
Chain == \E f \in F, key \in Keys2 :
  /\ st' = [st EXCEPT !.chain = IF <<f, key>> \in @ THEN @ \ {<<f, key>>} ELSE @ \cup {<<f, key>>}]
  /\ last' = <<>> /\ UNCHANGED <<now, done>>
Transfer == \E f \in {1}, a \in Addr : Custody(st, f) # a /\ st' = [st EXCEPT !.cust[f] = a] /\ last' = <<>> /\ UNCHANGED <<now, done>>
Tick == now < 5 /\ now' = now + 1 /\ last' = <<>> /\ UNCHANGED <<st, done>>
Next == k < Depth /\ k' = k + 1 /\ (DoAdd \/ DoRemove \/ DoUse \/ Chain \/ Transfer \/ Tick)

\* a key acts offchain for one account only, and has a time of use exactly while it is registered
OneOwner == \A key \in Keys2 : Cardinality(Owners(st, key)) <= 1
InStep == DOMAIN st.recs = DOMAIN st.used
\* each request signed by custody is taken at most once; a key's own request to go, once for each app it came by
Signed(l) == IF l = <<>> \/ l[1].a \notin {"add", "remove"} THEN {}
             ELSE IF l[1].a = "remove" /\ l[1].m.mode = "self" THEN {} ELSE {l[1].m}
Once == [][k' # k => Signed(last') \cap done = {}]_vars
\* requests are used up in order
NonceForward == [][(\A f \in F : Get(st'.un, f, 0) >= Get(st.un, f, 0)) /\ \A a \in Apps : Get(st'.an, a, 0) >= Get(st.an, a, 0)]_vars
\* nothing is added after the deadline its signer gave, nor by who no longer holds the account
Timely == [][(last' # <<>> /\ last'[1].a = "add") => last'[1].m.dl >= now /\ last'[1].m.adl >= now /\ Custody(st, last'[1].m.f) = last'[1].m.by]_vars
\* what acts is registered, and was used recently enough
ActsOnlyActive == [][(last' # <<>> /\ last'[1].a = "use") =>
    LET P == <<last'[1].m.f, last'[1].m.key>> IN P \in st.chain \/ (P \in DOMAIN st.recs /\ now <= st.used[P] + Ttl)]_vars
\* a registered key is forgotten only through a request to remove it
Lasting == [][\A p \in DOMAIN st.recs : p \in DOMAIN st'.recs \/ (last' # <<>> /\ last'[1].a = "remove" /\ last'[1].m.f = p[1] /\ last'[1].m.key = p[2])]_vars
Spec == Init /\ [][Next]_vars
=============================================================================
