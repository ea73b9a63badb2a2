------------------------------ MODULE StorageMC ------------------------------
(* Renting, lending and waiting, in any order, around every cutoff and expiry. *)
EXTENDS Storage, TLC
CONSTANTS Accounts, Depth, Ver, Net
VARIABLES rents, loans, ended, now, last, k

RentTimes == {LegacyEnd - 1, LegacyEnd, End2024(Net), End2025(Net)}
\* the moments at which something changes
Moments == RentTimes \cup {Expiry(Net, t, Ver) - 1 : t \in RentTimes} \cup {Expiry(Net, t, Ver) : t \in RentTimes}
Big == IF Net = "mainnet" THEN 1001 ELSE 3
Stage == <<rents, loans, ended, now, last, k>>

Init == rents = {} /\ loans = <<>> /\ ended = <<>> /\ now = LegacyEnd - 1 /\ last = <<>> /\ k = 0
Rent == \E f \in Accounts : rents' = rents \cup {[id |-> k, f |-> f, units |-> Big, ts |-> now]}
          /\ last' = <<>> /\ UNCHANGED <<loans, ended, now>>
\* the time of a loan is what its signer says, up to ten minutes back
Loan == \E f, t \in Accounts, u \in {0, 1, Big - 1}, back \in {0, 600}, kind \in {RentKind(Net, r.ts) : r \in rents} :
  LET m == [from |-> f, to |-> t, units |-> u, kind |-> kind, ts |-> now - back, h |-> k]
  IN /\ f # t /\ MayLend(Net, rents, {}, loans, m, Ver, now, now) /\ Fresh(loans, m) /\ Unended(ended, m)
     /\ loans' = Lend(loans, m) /\ ended' = EndOf(ended, m) /\ last' = <<m>> /\ UNCHANGED <<rents, now>>
Wait == \E t \in Moments : t > now /\ (\A x \in Moments : x > now => t <= x) /\ now' = t /\ last' = <<>> /\ UNCHANGED <<rents, loans, ended>>
Next == k < Depth /\ k' = k + 1 /\ (Rent \/ Loan \/ Wait)

All(U(_)) == [kind \in KindSet |-> SumOf(Accounts, LAMBDA f : U(f)[kind])]
Own(f) == Bought(Net, rents, f, Ver, now)
Out(f) == Units(loans, LentBy(loans, f))
In(f) == Units(loans, LentTo(loans, f))
Net1(f) == Slot(Net, rents, loans, f, Ver, now, TRUE, TRUE).u
Ever(f) == [kind \in KindSet |-> SumOf({r \in rents : r.f = f /\ RentKind(Net, r.ts) = kind}, LAMBDA r : r.units)]
\* as long as no lender's own storage has lapsed, units are only moved
Conserved == (\A f \in Accounts : \A kind \in KindSet : Out(f)[kind] <= Own(f)[kind])
               => \A kind \in KindSet : All(Net1)[kind] = All(Own)[kind]
\* nothing is ever created by lending: not more than what was ever bought
Bounded == \A f \in Accounts : \A kind \in KindSet : Out(f)[kind] <= Ever(f)[kind]
NonNegative == \A f \in Accounts : \A kind \in KindSet : Net1(f)[kind] >= 0
\* what is lent out counts for exactly one borrower
OneHome == \A kind \in KindSet : All(Out)[kind] = All(In)[kind]
Ends == \A p \in DOMAIN loans : loans[p].units > 0 /\ p[1] # p[2]
\* an account that bought nothing lends nothing, whatever it has borrowed
NoSublet == \A f \in Accounts : Ever(f) = Nothing => LentBy(loans, f) = {}
\* lapsed storage is gone once nobody lends to the account
Lapses == \A f \in Accounts : (\A r \in rents : r.f = f => now >= Expiry(Net, r.ts, Ver)) /\ LentTo(loans, f) = {}
            => Net1(f) = Nothing /\ Slot(Net, rents, loans, f, Ver, now, TRUE, TRUE).exp = 0
\* a lender keeps a unit of what it lends
Keeps == [][last' # <<>> => Slot(Net, rents, loans', last'[1].from, Ver, now, TRUE, FALSE).u[last'[1].kind] >= (IF Enabled("StorageLendingLimitFix", Ver) THEN 1 ELSE 0)]_Stage
\* only a lender's word or the end of its term takes units from an account
TakesBack == [][\A f \in Accounts : now' = now /\ (last' = <<>> \/ f \notin {last'[1].from, last'[1].to}) =>
                 \A kind \in KindSet : Slot(Net, rents', loans', f, Ver, now', TRUE, TRUE).u[kind] >= Net1(f)[kind]]_Stage
Forward == [][\A p \in DOMAIN loans \cap DOMAIN loans' : loans'[p] = loans[p] \/ Newer(loans'[p], loans[p])]_Stage
Spec == Init /\ [][Next]_Stage
=============================================================================
