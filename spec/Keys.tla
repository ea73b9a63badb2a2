-------------------------------- MODULE Keys ---------------------------------
(* Who may act for an account: keys added on chain, and keys added offchain ("gasless") by a request that
   the account's custody address signs.

   State
     cust    : account -> custody address in force ("" when the account is not registered)
     chain   : set of <<account, key>> that are active on chain
     recs    : <<account, key>> -> [scopes, ttl, req, h]: offchain keys (req: the app account that asked)
     used    : <<account, key>> -> when the key last counted as used
     un, an  : highest nonce used by an account / for an app
     extra   : account -> offchain keys counted beyond those of the run (lets a run start near the limit)

   A request to add m : f, key, by (the address that signed exactly this request, "" if none did), dl, nonce, ttl,
     scopes, ts, h, and the app's part: aok (it is signed by the address it names, over this key and deadline),
     app, asigner, adl.
   A request to remove m : f, key, mode ("custody" or "self"), by, env (the key that sealed the message), dl, nonce, ts, h *)
EXTENDS Integers, Sequences, FiniteSets

KeyLimit == 1000
Throttle == 300
Put(fn, k, x) == [y \in DOMAIN fn \cup {k} |-> IF y = k THEN x ELSE fn[y]]
Drop(fn, k) == [y \in DOMAIN fn \ {k} |-> fn[y]]
Get(fn, k, d) == IF k \in DOMAIN fn THEN fn[k] ELSE d

Empty == [cust |-> <<>>, chain |-> {}, recs |-> <<>>, used |-> <<>>, un |-> <<>>, an |-> <<>>, extra |-> <<>>]

Custody(st, f) == Get(st.cust, f, "")
Owners(st, key) == {p[1] : p \in {p \in DOMAIN st.recs : p[2] = key}}
Count(st, f) == Cardinality({p \in DOMAIN st.recs : p[1] = f}) + Get(st.extra, f, 0)

(* why a request to add is refused; empty: it is taken.  replay: another shard has decided, and the app's
   account may not be known here *)
AddErrors(st, m, replay) ==
  LET P == <<m.f, m.key>>
      R(c, e) == IF c THEN {e} ELSE {}
  IN R(~m.aok \/ m.adl < m.ts, "app-request")
     \cup R(~replay /\ (Custody(st, m.app) = "" \/ Custody(st, m.app) # m.asigner), "app-custody")
     \cup R(m.by = "" \/ Custody(st, m.f) # m.by, "custody")
     \cup R(m.dl < m.ts, "deadline")
     \cup R(P \in st.chain, "on-chain")
     \cup R(Owners(st, m.key) \ {m.f} # {}, "other-account")
     \cup R(P \in DOMAIN st.recs /\ st.recs[P].req # m.app, "other-app")
     \cup R(P \notin DOMAIN st.recs /\ Count(st, m.f) >= KeyLimit, "limit")
     \cup R(m.nonce <= Get(st.un, m.f, 0), "nonce")
Add(st, m) ==
  LET P == <<m.f, m.key>>
  IN [st EXCEPT !.recs = Put(@, P, [scopes |-> m.scopes, ttl |-> m.ttl, req |-> m.app, h |-> m.h]),
                !.used = Put(@, P, m.ts), !.un = Put(@, m.f, m.nonce)]

RemoveErrors(st, m) ==
  LET P == <<m.f, m.key>>
      R(c, e) == IF c THEN {e} ELSE {}
  IN IF P \notin DOMAIN st.recs THEN {"not-registered"}
     ELSE R(m.dl < m.ts, "deadline")
          \cup (IF m.mode = "custody"
                THEN R(m.by = "" \/ Custody(st, m.f) # m.by, "custody") \cup R(m.nonce <= Get(st.un, m.f, 0), "nonce")
                ELSE R(m.env # m.key, "not-this-key") \cup R(m.nonce <= Get(st.an, st.recs[P].req, 0), "nonce"))
Remove(st, m) ==
  LET P == <<m.f, m.key>>
      x == [st EXCEPT !.recs = Drop(@, P), !.used = Drop(@, P)]
  IN IF m.mode = "custody" THEN [x EXCEPT !.un = Put(@, m.f, m.nonce)]
     ELSE [x EXCEPT !.an = Put(@, st.recs[P].req, m.nonce)]

(* a message of account f, of a type, signed by key, made at ts, in a block made at now *)
UseErrors(st, f, key, type, now) ==
  LET P == <<f, key>>
  IN IF P \in st.chain THEN {}
     ELSE IF P \notin DOMAIN st.recs THEN {"no-key"}
     ELSE (IF type \notin st.recs[P].scopes THEN {"scope"} ELSE {})
          \cup (IF st.used[P] + st.recs[P].ttl < now THEN {"expired"} ELSE {})
Use(st, f, key, ts) ==
  LET P == <<f, key>>
  IN IF P \notin st.chain /\ ts > st.used[P] + Throttle THEN [st EXCEPT !.used = Put(@, P, ts)] ELSE st
=============================================================================
