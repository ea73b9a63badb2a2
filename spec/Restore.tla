------------------------------ MODULE Restore ------------------------------
(* Bootstrapping a data shard from the account transactions of other nodes.
   The state tree of the source is cut into virtual shards (units of work); each is
   fetched page by page, in the order of the tree.  A page is written in one atomic
   write together with the position reached; the last page of a unit also marks it
   done in a write of its own.  When an account has been fetched whole its root is
   compared with the one the source gave; when every unit is done the root of the
   shard is compared with the header of the snapshot's chunk, and only then the copy
   takes the place of the node's database.

   A state is [have, done]: have[u] = the part of unit u that is on disk (a length of
   the list of its records), done[u] = the unit is marked finished.                  *)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences

Nothing(units) == [have |-> [u \in units |-> 0], done |-> [u \in units |-> FALSE]]

\* a page of unit u that ends after n records is written
Page(st, u, n) == [st EXCEPT !.have[u] = n]
\* unit u is marked finished
Mark(st, u) == [st EXCEPT !.done[u] = TRUE]

Complete(st, len) == \A u \in DOMAIN st.have : st.done[u] /\ st.have[u] = len[u]

\* how a session ends: "finished" (the copy became the node's database), or "error"
\* what the server does to a session
Honest == {"clean", "flaky", "twice", "late"}     \* faults a client has to live with
Broken == {"down", "empty"}                  \* the server goes away / has nothing to give
Forged == {"drop", "text", "signature", "signer", "key", "root", "noroot", "shardroot", "extra",
           "skip", "short", "hole", "stranger", "resigned", "double"}
Ends(plan) == IF plan \in Honest THEN "finished" ELSE "error"
=============================================================================
