----------------------------- MODULE RestoreMC -----------------------------
(* Every interleaving of units, crashes and forged pages on a small shard.          *)
EXTENDS Restore, Integers, FiniteSets, TLC
CONSTANTS Units, Len, Size, Crashes, Forgeries
\* unit u holds records 1..Len; records of one account: Account(n)
Account(n) == (n + 1) \div 2
VARIABLES disk,     \* what is on disk: state of Restore plus the records themselves
          held,     \* held[u]: set of records of u on disk (a forged page may leave one out)
          up,       \* a session is running
          left, evil, where   \* crashes and forgeries left; where: "side" | "main"
vars == <<disk, held, up, left, evil, where>>
All == 1..Len

Init == /\ disk = Nothing(Units) /\ held = [u \in Units |-> {}]
        /\ up = FALSE /\ left = Crashes /\ evil = Forgeries /\ where = "side"
Go == where = "side" /\ ~up /\ up' = TRUE /\ UNCHANGED <<disk, held, left, evil, where>>
Least(a, b) == IF a < b THEN a ELSE b
\* are the accounts that end in (from, to] whole?
Whole(h, from, to, last) == \A n \in 1..to : (n > from - 2 /\ (Account(n) # Account(to) \/ last)) => n \in h
Fetch(u, gone) ==
  /\ up /\ ~disk.done[u] /\ disk.have[u] < Len
  /\ LET from == disk.have[u]
         to == Least(from + Size, Len)
         got == held[u] \cup {n \in (from + 1)..to : n \notin gone}
     IN IF Whole(got, from, to, FALSE)
        THEN disk' = Page(disk, u, to) /\ held' = [held EXCEPT ![u] = got] /\ up' = up
        ELSE up' = FALSE /\ UNCHANGED <<disk, held>>
  /\ UNCHANGED <<left, where>>
Honestly(u) == Fetch(u, {}) /\ evil' = evil
Forge(u) == evil > 0 /\ evil' = evil - 1 /\ \E n \in All : Fetch(u, {n})
\* the list of a unit is said to end early
Cut(u) == /\ up /\ ~disk.done[u] /\ evil > 0 /\ evil' = evil - 1
          /\ IF disk.have[u] = 0 \/ Whole(held[u], disk.have[u], disk.have[u], TRUE)
             THEN disk' = Mark(disk, u) /\ up' = up ELSE up' = FALSE /\ disk' = disk
          /\ UNCHANGED <<held, left, where>>
Close(u) == /\ up /\ ~disk.done[u] /\ disk.have[u] = Len
            /\ IF Whole(held[u], Len, Len, TRUE) THEN disk' = Mark(disk, u) /\ up' = up ELSE up' = FALSE /\ disk' = disk
            /\ UNCHANGED <<held, left, evil, where>>
Crash == up /\ left > 0 /\ left' = left - 1 /\ up' = FALSE /\ UNCHANGED <<disk, held, evil, where>>
Settle == /\ up /\ \A u \in Units : disk.done[u]
          /\ up' = FALSE
          /\ where' = IF \A u \in Units : held[u] = All THEN "main" ELSE where
          /\ UNCHANGED <<disk, held, left, evil>>
Next == Go \/ Crash \/ Settle \/ \E u \in Units : Honestly(u) \/ Forge(u) \/ Cut(u) \/ Close(u)
Spec == Init /\ [][Next]_vars /\ WF_vars(Go) /\ WF_vars(Settle) /\ \A u \in Units : WF_vars(Honestly(u)) /\ WF_vars(Close(u))

\* only a whole copy takes the place of the database
Faithful == where = "main" => \A u \in Units : held[u] = All
\* the position never runs ahead of the records, nor behind them
InStep == \A u \in Units : held[u] \subseteq 1..disk.have[u]
Exact == (evil = Forgeries) => \A u \in Units : held[u] = 1..disk.have[u]
\* work that was finished is not lost
Kept == [][\A u \in Units : disk.have[u] <= disk'.have[u] /\ (disk.done[u] => disk'.done[u])]_vars
\* whatever the crashes, an honest source is copied in the end
Copied == (evil = Forgeries) ~> (where = "main" \/ evil < Forgeries)
=============================================================================
