------------------------------ MODULE EngineMC ------------------------------
(***************************************************************************)
(* The nodes of a shard around one chain: proposing and validating prepare *)
(* a state ahead of the decision, committing uses what was prepared when   *)
(* it was prepared for that very block, and a crash may fall between the   *)
(* writes of a commit.                                                     *)
(*                                                                         *)
(* A transaction either takes effect or, if its effect is there already,   *)
(* fails; either way it leaves an event.  Two blocks with the same         *)
(* transactions in another order lead to the same root but other events.   *)
(*                                                                         *)
(* CacheBy  what a prepared state is recognised by: "txs" or "root"        *)
(* Writes   1: state, events and block are written at once                 *)
(*          2: the state and its events first, then the block              *)
(* "root" and 2 are how this was before it was repaired; both break Agree. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Nodes, Txs, Heights, CacheBy, Writes
VARIABLES chain, node
vars == <<chain, node>>

RECURSIVE Run(_, _)
Run(S, ts) == IF ts = <<>> THEN [st |-> S, ev |-> <<>>]
              ELSE LET x == Head(ts)
                       r == Run(S \cup {x}, Tail(ts))
                   IN [r EXCEPT !.ev = <<IF x \in S THEN <<"fail", x>> ELSE <<"ok", x>>>> \o @]
Seqs == UNION {[1..n -> Txs] : n \in 0..2}
RECURSIVE Fold(_, _, _)
Fold(S, ev, bs) == IF bs = <<>> THEN [st |-> S, ev |-> ev]
                   ELSE LET r == Run(S, Head(bs)) IN Fold(r.st, ev \o <<r.ev>>, Tail(bs))
Canon(h) == Fold({}, <<>>, SubSeq(chain, 1, h))

None == [on |-> FALSE, root |-> {}, txs |-> <<>>, r |-> [st |-> {}, ev |-> <<>>]]
Init == chain = <<>> /\ node = [n \in Nodes |-> [h |-> 0, st |-> {}, ev |-> <<>>, pend |-> None, half |-> FALSE, up |-> TRUE]]

Decide == /\ Len(chain) < Heights
          /\ \E ts \in Seqs : chain' = Append(chain, ts)
          /\ UNCHANGED node
\* a proposal is made or judged; it need not be the one that is decided
Prepare(n) == /\ node[n].up /\ ~node[n].half
              /\ \E ts \in Seqs :
                   LET r == Run(node[n].st, ts)
                   IN node' = [node EXCEPT ![n].pend = [on |-> TRUE, root |-> r.st, txs |-> ts, r |-> r]]
              /\ UNCHANGED chain
Result(x, ts) ==
  LET r == Run(x.st, ts)
      hit == x.pend.on /\ x.pend.root = r.st /\ (CacheBy = "root" \/ x.pend.txs = ts)
  IN IF hit THEN x.pend.r ELSE r
Commit(n) ==
  LET x == node[n] IN
  /\ x.up /\ ~x.half /\ x.h < Len(chain)
  /\ LET r == Result(x, chain[x.h + 1])
         y == [x EXCEPT !.st = r.st, !.ev = Append(@, r.ev), !.pend = None]
     IN node' = [node EXCEPT ![n] = IF Writes = 1 THEN [y EXCEPT !.h = @ + 1] ELSE [y EXCEPT !.half = TRUE]]
  /\ UNCHANGED chain
Second(n) == /\ node[n].up /\ node[n].half
             /\ node' = [node EXCEPT ![n].half = FALSE, ![n].h = @ + 1]
             /\ UNCHANGED chain
\* what is written stays, what was prepared goes
Crash(n) == /\ node[n].up /\ node' = [node EXCEPT ![n].up = FALSE, ![n].pend = None, ![n].half = FALSE] /\ UNCHANGED chain
Restart(n) == /\ ~node[n].up /\ node' = [node EXCEPT ![n].up = TRUE] /\ UNCHANGED chain
Next == Decide \/ \E n \in Nodes : Prepare(n) \/ Commit(n) \/ Second(n) \/ Crash(n) \/ Restart(n)
Spec == Init /\ [][Next]_vars /\ \A n \in Nodes : WF_vars(Commit(n)) /\ WF_vars(Restart(n)) /\ WF_vars(Second(n))

Agree == \A n \in Nodes : LET x == node[n] c == Canon(x.h) IN x.half \/ (x.st = c.st /\ x.ev = c.ev)
Shape == \A n \in Nodes : node[n].h <= Len(chain)
\* a commit loses or repeats no block
OneStep == [][\A n \in Nodes : node'[n].h \in {node[n].h, node[n].h + 1}]_vars
Inv == Agree /\ Shape
=============================================================================
