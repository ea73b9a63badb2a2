------------------------------- MODULE Ingest -------------------------------
(* Reading chains and the name server.

   A log g: c contract, b block, x transaction index, l log index, ts, bh, th, kind and arguments,
   flaw "" when it can be decoded.  Map(ch, g) is the event it must become.
   The reader of one chain has a recorded position; it submits events.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

First(ch) == IF ch = "op" THEN 108864739 ELSE 31180908
ChainId(ch) == IF ch = "op" THEN 10 ELSE 8453
Year == 31536000

Blank(ch, g, tn, f, k) ==
  [tn |-> tn, f |-> f, k |-> k, b |-> g.b, x |-> g.x, l |-> g.l, ts |-> g.ts, bh |-> g.bh, th |-> g.th, cid |-> ChainId(ch),
   a1 |-> "", a2 |-> "", rec |-> "", key |-> "", kt |-> 0, meta |-> "", mt |-> 0, units |-> 0, exp |-> 0, tier |-> 0, days |-> 0,
   ck |-> "", lab |-> "", at |-> 0]

Map(ch, g) ==
  LET E(tn, f, k) == Blank(ch, g, tn, f, k) IN
  CASE g.kind = "Rent" -> [E(4, g.fid, "") EXCEPT !.a1 = g.a1, !.units = g.units, !.exp = g.ts + Year]
    [] g.kind = "Register" -> [E(3, g.fid, "register") EXCEPT !.a1 = g.a1, !.rec = g.rec]
    [] g.kind = "Transfer" /\ ch = "op" -> [E(3, g.fid, "transfer") EXCEPT !.a1 = g.a1, !.a2 = g.a2]
    [] g.kind = "Transfer" /\ ch = "base" -> [E(6, "0", "transfer") EXCEPT !.a1 = g.a1, !.lab = g.lab]
    [] g.kind = "ChangeRecoveryAddress" -> [E(3, g.fid, "recovery") EXCEPT !.rec = g.rec]
    [] g.kind = "Add" -> [E(1, g.fid, "add") EXCEPT !.key = g.key, !.kt = g.kt, !.meta = g.meta, !.mt = g.mt]
    [] g.kind = "Remove" -> [E(1, g.fid, "remove") EXCEPT !.key = g.key]
    [] g.kind = "AdminReset" -> [E(1, g.fid, "reset") EXCEPT !.key = g.key]
    [] g.kind = "Migrated" -> [E(2, "0", "") EXCEPT !.at = g.at]
    [] g.kind = "PurchasedTier" -> [E(5, g.fid, "") EXCEPT !.tier = g.tier, !.days = g.days, !.a1 = g.a1]
    [] g.kind = "NameRegistered" -> [E(6, "0", "register") EXCEPT !.ck = g.ck, !.exp = g.exp, !.a1 = g.a1, !.lab = g.lab]
    [] g.kind = "NameRenewed" -> [E(6, "0", "renew") EXCEPT !.ck = g.ck, !.exp = g.exp, !.lab = g.lab]
Fine(g) == g.flaw = "" /\ g.kind # "Unknown"

Watched(w) == IF w.chain = "op" THEN {"storage", "key", "id"}
              ELSE {"tier"} \cup (IF w.ctrl THEN {"ctrl"} ELSE {}) \cup (IF w.ctrl /\ w.resolves THEN {"token"} ELSE {})
\* what of a world's logs must be submitted from the blocks lo..hi
Due(w, lo, hi) == {Map(w.chain, g) : g \in {h \in w.logs : h.c \in Watched(w) /\ Fine(h) /\ h.b >= lo /\ h.b <= hi}}

RetryKinds == {"Rent", "Register", "Transfer", "Add", "Remove", "PurchasedTier"}
DueForFid(w, f) == {Map(w.chain, g) : g \in {h \in w.logs : h.c \in Watched(w) /\ Fine(h) /\ h.kind \in RetryKinds /\ h.fid = f
                                                            /\ ~(w.chain = "base" /\ h.c # "tier") /\ h.b >= First(w.chain)}}

\* --- name transfers --------------------------------------------------------------------------------
\* t: id, from, to, name, ts, owner, sig (as text), okowner / oksig: "0x" and an even number (at least two) of hex digits
GoodTransfer(t) == t.okowner /\ t.oksig
Sent(t) == [id |-> t.id, from |-> t.from, to |-> t.to, name |-> t.name, ts |-> t.ts, owner |-> t.ownerhex, sig |-> t.sighex]
=============================================================================
