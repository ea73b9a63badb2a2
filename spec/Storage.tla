------------------------------- MODULE Storage -------------------------------
(* Storage units: renting, lending, expiry and the limits that follow from them.

   A rent  : id, f account, units, ts (unix seconds).  Its kind and how long it counts depend on when it
             was bought and on whether the extension of 2026 is in force.
   A loan  : from, to, units, kind, ts, h.  One per lender and borrower; a newer one replaces it and a
             loan of no units ends it.
   State   : rents (a set), loans and ended, functions of <<from, to>>.                              *)
EXTENDS Versions, FiniteSets

Kinds == <<"legacy", "2024", "2025">>
KindSet == {"legacy", "2024", "2025"}
Year == 31536000
Forever == 2147483647
LegacyEnd == 1724889600
End2024(net) == IF net = "mainnet" THEN 1752685200 ELSE 1752426000
End2025(net) == IF net = "mainnet" THEN 1782147600 ELSE 1781283600

RentKind(net, ts) == IF ts < LegacyEnd THEN "legacy" ELSE IF ts < End2024(net) THEN "2024" ELSE "2025"
Years(net, ts, v) ==
  LET more == IF Enabled("StorageExpiryExtension2026", v) THEN 1 ELSE 0
  IN IF ts < LegacyEnd THEN 3 + more ELSE IF ts < End2024(net) THEN 2 + more ELSE IF ts < End2025(net) THEN 1 + more ELSE 1
Expiry(net, ts, v) == ts + Years(net, ts, v) * Year
Active(net, r, v, now) == now < Expiry(net, r.ts, v)

Nothing == [st \in KindSet |-> 0]
SumOf(S, U(_)) ==
  LET RECURSIVE go(_)
      go(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN U(x) + go(T \ {x})
  IN go(S)

\* what an account bought and still has
Bought(net, rents, f, v, now) ==
  [k \in KindSet |-> SumOf({r \in rents : r.f = f /\ RentKind(net, r.ts) = k /\ Active(net, r, v, now)}, LAMBDA r : r.units)]
FirstExpiry(net, rents, f, v, now) ==
  LET e == {Expiry(net, r.ts, v) : r \in {q \in rents : q.f = f /\ Active(net, q, v, now)}}
  IN IF e = {} THEN 0 ELSE CHOOSE x \in e : \A y \in e : x <= y

LentBy(loans, f) == {p \in DOMAIN loans : p[1] = f}
LentTo(loans, f) == {p \in DOMAIN loans : p[2] = f}
Units(loans, S) == [k \in KindSet |-> SumOf({p \in S : loans[p].kind = k}, LAMBDA p : loans[p].units)]
Less(a, b) == [k \in KindSet |-> IF a[k] > b[k] THEN a[k] - b[k] ELSE 0]
Plus(a, b) == [k \in KindSet |-> a[k] + b[k]]

\* the storage an account can use; lent and borrowed: whether loans are counted
Slot(net, rents, loans, f, v, now, lent, borrowed) ==
  LET own == Less(Bought(net, rents, f, v, now), IF lent THEN Units(loans, LentBy(loans, f)) ELSE Nothing)
      exp == FirstExpiry(net, rents, f, v, now)
      some == LentTo(loans, f) # {}
  IN [u |-> Plus(own, IF borrowed THEN Units(loans, LentTo(loans, f)) ELSE Nothing),
      exp |-> IF exp > 0 THEN exp ELSE IF some \/ ~borrowed THEN Forever ELSE 0]

Newer(a, b) == a.ts > b.ts \/ (a.ts = b.ts /\ a.h > b.h)
Key(m) == <<m.from, m.to>>
\* a loan is taken when it is newer than what the lender said to that borrower before
Fresh(loans, m) == Key(m) \in DOMAIN loans => Newer(m, loans[Key(m)])
\* ... including that an earlier loan was ended
Unended(ended, m) == Key(m) \in DOMAIN ended => Newer(m, ended[Key(m)])
Put(fn, k, x) == [y \in DOMAIN fn \cup {k} |-> IF y = k THEN x ELSE fn[y]]
Drop(fn, k) == [y \in DOMAIN fn \ {k} |-> fn[y]]
Lend(loans, m) == IF m.units = 0 THEN Drop(loans, Key(m)) ELSE Put(loans, Key(m), m)
EndOf(ended, m) == IF m.units = 0 /\ Unended(ended, m) THEN Put(ended, Key(m), m) ELSE ended

\* whether the block engine may take a loan: pend are the lender's rents of the same block
\* at is when the block is made: a loan is not taken more than ten minutes late, since an ended loan is forgotten
MayLend(net, rents, pend, loans, m, v, now, at) ==
  /\ m.ts >= at - 600
  /\ m.units <= 5000
  /\ net = "mainnet" => Bought(net, rents, m.from, v, now)[m.kind] >= 1000
  /\ Slot(net, rents \cup pend, loans, m.from, v, now, TRUE, FALSE).u[m.kind]
       >= m.units + (IF Enabled("StorageLendingLimitFix", v) THEN 1 ELSE 0)

\* limits per unit: casts links reactions userdata verifications proofs lends
PerUnit == [k \in KindSet |-> CASE k = "legacy" -> <<5000, 2500, 2500, 50, 25, 5, 1>>
                               [] k = "2024" -> <<2000, 1000, 1000, 50, 25, 5, 1>>
                               [] OTHER -> <<100, 200, 200, 25, 5, 2, 1>>]
Limit(u, n) == u["legacy"] * PerUnit["legacy"][n] + u["2024"] * PerUnit["2024"][n] + u["2025"] * PerUnit["2025"][n]

\* two slots put together / one taken from another, at a time
On(x, now) == now < x.exp
Merged(a, b, now) == IF ~On(b, now) THEN a ELSE IF ~On(a, now) THEN b
                     ELSE [u |-> Plus(a.u, b.u), exp |-> IF a.exp < b.exp THEN a.exp ELSE b.exp]
Taken(a, b, now) == IF On(b, now) THEN [a EXCEPT !.u = Less(a.u, b.u)] ELSE a
=============================================================================
