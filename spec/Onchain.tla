------------------------------- MODULE Onchain -------------------------------
(* The store of events read from chains, and the facts derived from them.

   An event e: tn (kind number 1 signer, 2 migration, 3 id register, 4 rent, 5 tier purchase,
   6 channel register), f fid, b block, x transaction index, l log index, ts block timestamp,
   and by kind: k ("register" "transfer" "recovery" / "add" "remove" "reset" / "register" "renew"
   "transfer" "none"), key, kt key type, tier, days, ck channel key, lab label, labok (32 bytes),
   own owner address, ownok (20 bytes), kc (the label is the keccak hash of the key), exp.
   id names the event's full content.

   m = [evs, idx, sig, chan, lab]: the events stored, the custody event in force per fid, the signer
   event in force per <<fid, key>>, the owner record per channel key and the channel key per label. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == [evs |-> {}, idx |-> <<>>, sig |-> <<>>, chan |-> <<>>, lab |-> <<>>]
Primary(e) == <<e.tn, e.f, e.b, e.l>>

RECURSIVE LexLess(_, _)
LexLess(p, q) == IF p = <<>> THEN q # <<>>
                 ELSE IF q = <<>> THEN FALSE
                 ELSE IF Head(p) # Head(q) THEN Head(p) < Head(q) ELSE LexLess(Tail(p), Tail(q))
EvLess(a, b) == LexLess(Primary(a), Primary(b))
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE e \in S : TRUE IN <<e>> \o Listed(S \ {e})
InOrder(S) == SortSeq(Listed(S), EvLess)

Known(m, e) == \E o \in m.evs : Primary(o) = Primary(e)
Put(fn, key, v) == (key :> v) @@ fn
Drop(fn, key) == [k \in DOMAIN fn \ {key} |-> fn[k]]
Get(fn, key, none) == IF key \in DOMAIN fn THEN fn[key] ELSE none

\* --- custody -----------------------------------------------------------------------------------
IdApply(m, e) ==
  IF e.k = "recovery" THEN m
  ELSE IF e.f \in DOMAIN m.idx /\ m.idx[e.f].b > e.b THEN m
  ELSE [m EXCEPT !.idx = Put(m.idx, e.f, e)]

\* --- keys; com is what was committed before the transaction ------------------------------------
SigApply(m, com, e) ==
  LET sk == <<e.f, e.key>>
      adds == {o \in com : o.tn = 1 /\ o.f = e.f /\ o.k = "add" /\ o.key = e.key}
  IN IF sk \in DOMAIN m.sig /\ m.sig[sk].b > e.b THEN m
     ELSE IF e.k = "reset" THEN IF adds = {} THEN m ELSE [m EXCEPT !.sig = Put(m.sig, sk, InOrder(adds)[1])]
     ELSE [m EXCEPT !.sig = Put(m.sig, sk, e)]
Active(m, f, key) == /\ <<f, key>> \in DOMAIN m.sig
                     /\ m.sig[<<f, key>>].k = "add" /\ m.sig[<<f, key>>].kt = 1

\* --- channels ------------------------------------------------------------------------------------
Pos(e) == <<e.b, e.x, e.l>>
Older(e, rec) == LexLess(Pos(e), rec.at)
ChanApply(m, e) ==
  IF ~e.labok THEN m
  ELSE CASE e.k = "register" ->
              IF ~e.ownok \/ ~e.kc \/ (e.ck \in DOMAIN m.chan /\ Older(e, m.chan[e.ck])) THEN m
              ELSE [m EXCEPT !.chan = Put(m.chan, e.ck, [own |-> e.own, exp |-> e.exp, at |-> Pos(e)]),
                             !.lab = Put(m.lab, e.lab, e.ck)]
         [] e.k = "renew" ->
              IF ~e.kc \/ e.ck \notin DOMAIN m.chan THEN m
              ELSE IF Older(e, m.chan[e.ck]) THEN m
              ELSE [m EXCEPT !.chan = Put(m.chan, e.ck, [m.chan[e.ck] EXCEPT !.exp = e.exp, !.at = Pos(e)])]
         [] e.k = "transfer" ->
              IF ~e.ownok \/ e.lab \notin DOMAIN m.lab THEN m
              ELSE LET ck == m.lab[e.lab]
                   IN IF Older(e, m.chan[ck]) THEN m
                      ELSE [m EXCEPT !.chan = Put(m.chan, ck, [m.chan[ck] EXCEPT !.own = e.own, !.at = Pos(e)])]
         [] OTHER -> m

Merge(m, com, e) ==
  LET n == [m EXCEPT !.evs = @ \cup {e}]
  IN CASE e.tn = 3 -> IdApply(n, e)
       [] e.tn = 1 -> SigApply(n, com, e)
       [] e.tn = 6 -> ChanApply(n, e)
       [] OTHER -> n

\* An event older within its block replaced a newer one of the same block.
Reversed(m, e) ==
  \/ e.tn = 3 /\ e.k # "recovery" /\ e.f \in DOMAIN m.idx /\ m.idx[e.f].b = e.b /\ m.idx[e.f].l > e.l
  \/ e.tn = 1 /\ e.k # "reset" /\ <<e.f, e.key>> \in DOMAIN m.sig
     /\ m.sig[<<e.f, e.key>>].b = e.b /\ m.sig[<<e.f, e.key>>].l > e.l

\* --- derived facts ---------------------------------------------------------------------------------
OfKind(m, tn) == {e \in m.evs : e.tn = tn}
OfFid(m, tn, f) == {e \in m.evs : e.tn = tn /\ e.f = f}
Ids(s) == [i \in 1..Len(s) |-> s[i].id]
Signers(S, m) == SelectSeq(InOrder(S), LAMBDA e : Active(m, e.f, e.key))
Registered(m) == SelectSeq(InOrder(OfKind(m, 3)), LAMBDA e : e.k = "register")
Fids(m) == [i \in 1..Len(Registered(m)) |-> Registered(m)[i].f]
Ascending(S) == SortSeq(Listed(S), LAMBDA x, y : x < y)
FidsAfter(m, start) == Ascending({e.f : e \in {o \in OfKind(m, 3) : o.k = "register" /\ o.f > start}})

\* paid time accumulates; purchases after asof (and any later in block order) do not count
RECURSIVE TierWalk(_, _, _)
TierWalk(s, asof, exp) ==
  IF s = <<>> \/ (asof >= 0 /\ Head(s).ts > asof) THEN exp
  ELSE TierWalk(Tail(s), asof, (IF Head(s).ts > exp THEN Head(s).ts ELSE exp) + (Head(s).days * 86400))
TierUntil(m, f, tier, asof) == TierWalk(InOrder({e \in OfFid(m, 5, f) : e.tier = tier}), asof, 0)
TierActive(m, f, tier, at) == TierUntil(m, f, tier, at) >= at

Owned(m, a) == {ck \in DOMAIN m.chan : m.chan[ck].own = a}
=============================================================================
