------------------------------ MODULE FanOutMC ------------------------------
(* The way of the root shard's events to a data shard with everything that can go wrong:
   announcements that are not heard, announcements that overtake a slow receiver, blocks the
   archive does not have for a while or that do not pass their checks, events that get lost,
   doubled or reordered on their way into the shard's blocks, receivers that stop and start.  *)
EXTENDS FanOut, TLC, FiniteSets
CONSTANTS Blocks, Batch, Cap, Faults
VARIABLES s, pool, faults, sent, log
vars == <<s, pool, faults, sent, log>>

Events(st) == LET k == {b \in 1..Len(st.made) : st.made[b][2] > 0} IN IF k = {} THEN 0 ELSE st.made[CHOOSE b \in k : \A c \in k : c <= b][2]
Handed(st) == {st.out[k][2] : k \in {j \in DOMAIN st.out : st.out[j][1] = "s"}}

\* every rest of the receiver: what it handed over is on its way
Rest(st) == /\ s' = Fresh(st) /\ pool' = pool \cup Handed(st) /\ sent' = sent \cup Handed(st)
            /\ log' = Append(<<>>, [stored |-> s.stored, out |-> st.out, up |-> s.up])
Fault == faults > 0 /\ faults' = faults - 1

Init == s = [Start(Begin(Batch, Cap)) EXCEPT !.up = TRUE] /\ pool = {} /\ faults = Faults /\ sent = {} /\ log = <<>>

Decide(n, heard, ok) ==
  /\ Len(s.made) < Blocks
  /\ LET e == Events(s)
         m == Make(s, IF n = 0 THEN 0 ELSE e + 1, IF n = 0 THEN 0 ELSE e + n)
     IN Rest(IF heard THEN Settle(Tell(m, Len(m.made), ok)) ELSE m)
  /\ IF heard /\ ok THEN UNCHANGED faults ELSE Fault
\* one block of the shard takes some of what is on its way, in some order
Commit(x, d) ==
  /\ pool # {} /\ x \subseteq pool /\ x # {}
  /\ LET RECURSIVE Up(_)
         Up(q) == IF q = {} THEN <<>> ELSE LET m == CHOOSE e \in q : \A f \in q : e <= f IN <<m>> \o Up(q \ {m})
         RECURSIVE Down(_)
         Down(q) == IF q = {} THEN <<>> ELSE LET m == CHOOSE e \in q : \A f \in q : f <= e IN <<m>> \o Down(q \ {m})
         st == Settle([s EXCEPT !.stored = Stored(@, IF d THEN Up(x) ELSE Down(x))])
     IN /\ s' = Fresh(st) /\ sent' = sent \cup Handed(st) /\ pool' = (pool \ x) \cup Handed(st)
        /\ log' = <<[stored |-> st.stored, out |-> st.out, up |-> s.up]>>
  /\ IF d THEN UNCHANGED faults ELSE Fault
Lose == Fault /\ \E e \in pool : pool' = pool \ {e} /\ UNCHANGED <<s, sent>> /\ log' = <<>>
Late == s.up /\ s.ph.k = "wait" /\ Fault /\ Rest(Settle(Over(s)))
Crash == s.up /\ Fault /\ s' = Stop(s) /\ UNCHANGED <<pool, sent>> /\ log' = <<>>
Return == ~s.up /\ Rest(Settle(Start(s))) /\ UNCHANGED faults
Archive(a) == Fault /\ \E b \in 1..Len(s.made) : s.made[b][2] > 0 /\ s.arch[b] # a /\ s' = [s EXCEPT !.arch[b] = a] /\ UNCHANGED <<pool, sent>> /\ log' = <<>>

Next == \/ \E n \in 0..2, heard, ok \in BOOLEAN : Decide(n, heard, ok)
        \/ \E x \in SUBSET pool, d \in BOOLEAN : Commit(x, d)
        \/ Lose \/ Late \/ Crash \/ Return
        \/ \E a \in {"none", "bad"} : Archive(a)
Spec == Init /\ [][Next]_vars

\* The shard has stored only what was decided and handed over
Sane == s.stored <= Events(s) /\ \A e \in 1..s.stored : e \in sent
\* Nothing of a block is handed over before everything in front of the block is stored or was handed
\* over in the same catch-up: what a receiver hands over continues what is stored, unless the archive is wrong
Bad(st) == \E b \in 1..Len(st.made) : st.arch[b] # "ok"
InOrder == (log # <<>> /\ ~Bad(s)) =>
   LET o == log[1].out
       hs == {k \in DOMAIN o : o[k][1] = "s"}
   IN \A k \in hs : \A e \in 1..(o[k][2] - 1) : e <= s.stored \/ e \in sent
\* Never rests with nothing to do while it has news to look at
Awake == ~s.up \/ Blocked(s)

\* When the faults end, one more block brings everything
RECURSIVE Quiet(_, _, _)
Quiet(st, p, n) ==
  LET h == p \cup Handed(st)
      RECURSIVE Up(_)
      Up(q) == IF q = {} THEN <<>> ELSE LET m == CHOOSE e \in q : \A f \in q : e <= f IN <<m>> \o Up(q \ {m})
  IN IF n = 0 THEN st
     ELSE IF h # {} THEN Quiet(Settle(Fresh([st EXCEPT !.stored = Stored(@, Up(h))])), {}, n - 1)
     ELSE IF st.ph.k = "wait" THEN Quiet(Settle(Over(Fresh(st))), {}, n - 1)
     ELSE st
Healed ==
  LET a == [s EXCEPT !.arch = [b \in DOMAIN s.arch |-> "ok"], !.out = <<>>]
      b == Quiet(Settle(Start(a)), pool, 60)
      c == Make(b, Events(b) + 1, Events(b) + 1)
      d == Quiet(Settle(Tell(Fresh(c), Len(c.made), TRUE)), {}, 60)
  IN d.stored = Events(d)
View == <<s, pool, faults, sent, log>>
=============================================================================
