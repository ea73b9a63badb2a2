-------------------------------- MODULE Shard --------------------------------
(***************************************************************************)
(* A data shard: what a block does to the accounts of the shard and which  *)
(* events it leaves behind.                                                *)
(*                                                                         *)
(* Messages are those of Merge, plus stores "proof" (ENS names) and fields *)
(*   signer, mt (type number), pr (place within a transaction 1..5),       *)
(*   need ("" "name" "addr" "addr2") with val, addr (a verification's     *)
(*   address as shown to users)                                            *)
(* Chain events are those of Onchain; rents have units and on (not yet     *)
(* expired).  Transfers of registry names are proofs of Names with from,   *)
(* ok (signed by the registry).  Block events have seq, m (a message or 0) *)
(*                                                                         *)
(* State                                                                   *)
(*   live    messages            chain   as in Onchain                     *)
(*   nm      as in Names         ens     ENS name -> account that proved it*)
(*   units   account -> storage units it may use                           *)
(*   seq     last block event                                              *)
(*                                                                         *)
(* A block is a sequence of transactions, one account each.  `com` is the  *)
(* state before the block.                                                 *)
(***************************************************************************)
EXTENDS Names, Versions, TLC

G == INSTANCE Merge
O == INSTANCE Onchain

Fresh0 == [live |-> {}, chain |-> O!Empty, nm |-> [names |-> <<>>, by |-> <<>>], ens |-> <<>>, units |-> <<>>, seq |-> 0]
UnitsOf(s, f) == IF f \in DOMAIN s.units THEN s.units[f] ELSE 0

Stores == {"cast", "link", "react", "data", "verif", "proof"}
StoreOf(mt) == CASE mt \in {1, 2} -> "cast" [] mt \in {3, 4} -> "react" [] mt \in {5, 6, 14} -> "link"
                 [] mt \in {7, 8} -> "verif" [] mt = 11 -> "data" [] OTHER -> "proof"
TypesOf(st) == CASE st = "cast" -> {1, 2} [] st = "react" -> {3, 4} [] st = "link" -> {5, 6, 14}
                 [] st = "verif" -> {7, 8} [] st = "data" -> {11} [] OTHER -> {12}
Max0(s, f, st, limits) == UnitsOf(s, f) * limits[st]

Ev(k, m, d) == [k |-> k, m |-> m, d |-> d]

RECURSIVE Lex(_, _)
Lex(p, q) == IF p = <<>> THEN q # <<>>
             ELSE IF q = <<>> THEN FALSE
             ELSE IF Head(p) # Head(q) THEN Head(p) < Head(q) ELSE Lex(Tail(p), Tail(q))
\* stable sort of pairs <<key, value>>
RECURSIVE Ins(_, _)
Ins(s, p) == IF s = <<>> THEN <<p>> ELSE IF Lex(p[1], Head(s)[1]) THEN <<p>> \o s ELSE <<Head(s)>> \o Ins(Tail(s), p)
RECURSIVE SortPairs(_, _)
SortPairs(s, acc) == IF s = <<>> THEN acc ELSE SortPairs(Tail(s), Ins(acc, Head(s)))
SortBy(s, K(_)) == LET p == SortPairs([i \in 1..Len(s) |-> <<K(s[i]), s[i]>>], <<>>) IN [i \in 1..Len(p) |-> p[i][2]]
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Aged(S) == SortBy(SeqOf(S), LAMBDA m : <<m.ts, m.hr>>)

(***************************************************************************)
(* An accumulator carries the state, the events so far and `odd`: what the *)
(* block did that the properties do not allow (see the trace module).      *)
(***************************************************************************)
Say(a, e) == [a EXCEPT !.ev = Append(@, e)]
Odd(a, k) == [a EXCEPT !.odd = @ \cup {k}]

\* taking messages of the committed state away again, in order
RECURSIVE Take(_, _, _)
Take(a, k, ms) ==
  IF ms = <<>> THEN a
  ELSE LET m == Head(ms)
           \* a name's proof says so in an event of its own
           b == Say([a EXCEPT !.s.live = @ \ {m}], Ev(IF m.store = "proof" THEN "unproof" ELSE k, m.id, {}))
       IN Take(IF m \in a.s.live THEN b ELSE Odd(b, "stale"), k, Tail(ms))

RevokeOn(v) == ~Enabled("SignerRevokeBug", v) /\ ~Enabled("StopRevokingExistingMessages", v)

\* --- system messages ----------------------------------------------------------------------------
OnChain(a, com, e, v) ==
  IF e.tn = 5 /\ ~Enabled("FarcasterPro", v) THEN a
  ELSE IF O!Known(a.s.chain, e) THEN a
  ELSE LET c == O!Merge(a.s.chain, com.chain.evs, e)
           u == IF e.tn = 4 /\ e.on THEN NamePut(a.s.units, e.f, UnitsOf(a.s, e.f) + e.units) ELSE a.s.units
           b == Say([a EXCEPT !.s.chain = c, !.s.units = u], Ev("onchain", e.id, {}))
       IN IF e.tn = 1 /\ e.k = "remove" /\ RevokeOn(v) THEN [b EXCEPT !.gone = @ \cup {e.key}] ELSE b

UsernameOf(s, f) == {m \in s.live : m.store = "data" /\ m.fid = f /\ m.need = "name"}
Transfer(a, com, p) ==
  IF ~p.ok THEN a
  ELSE LET v == NameVerdict(a.s.nm.names, p)
           had == p.name \in DOMAIN a.s.nm.names
           b == IF v # "ok" THEN a
                ELSE Say([a EXCEPT !.s.nm = NameApply(a.s.nm, p)],
                         Ev("name", p.id, IF had THEN {a.s.nm.names[p.name].id} ELSE {}))
           owner == IF had THEN a.s.nm.names[p.name].fid ELSE 0
           \* the registry names another last owner than this node knows: a transfer is missing
           b1 == IF v = "ok" /\ owner # p.from THEN Odd(b, "gap") ELSE b
           c == IF v = "ok" /\ had /\ owner = p.fid THEN Odd(b1, "reproof") ELSE b1
           set == IF p.from = 0 THEN {} ELSE UsernameOf(com, p.from)
           d == Take(c, "revoke", Aged(set))
           other == \E m \in set : m.val # p.name
       IN IF set = {} THEN c
          ELSE IF v # "ok" THEN Odd(d, "rejected-transfer-withdraws")
          ELSE IF other THEN Odd(d, "other-name-withdrawn") ELSE d

\* shard 0 decided this message: it replaces whatever it competes with
Forced(a, m) ==
  LET rs == G!Rivals(a.s.live, m) \ {m}
  IN Say([a EXCEPT !.s.live = (@ \ rs) \cup {m}, !.types = @ \cup {m.mt}, !.dels = @ \cup {x \in rs : x.kind = "add"}],
         Ev("merge", m.id, {x.id : x \in rs}))
\* from: the version in force when shard 0 made the event
BlockEvent(a, b, v) ==
  IF ~Enabled("ReadDataFromShardZero", v) \/ b.seq # a.s.seq + 1 THEN a
  ELSE LET c == [a EXCEPT !.s.seq = b.seq]
       IN IF b.m.id = 0 \/ ~Enabled("VerificationsOnShardZero", b.v) THEN c
          ELSE Forced(c, b.m)

System(a, com, x, v) ==
  CASE x.t = "on" -> OnChain(a, com, x.e, v)
    [] x.t = "name" -> Transfer(a, com, x.e)
    [] OTHER -> BlockEvent(a, x.e, v)
SysKey(x) == IF x.t = "on" THEN <<0, x.e.b, x.e.l>> ELSE <<1>>
RECURSIVE Systems(_, _, _, _)
Systems(a, com, xs, v) == IF xs = <<>> THEN a ELSE Systems(System(a, com, Head(xs), v), com, Tail(xs), v)

\* keys that were removed take the messages they signed with them, proofs excepted
Signed(s, f, key, st) == {m \in s.live : m.fid = f /\ m.signer = key /\ m.store = st}
Compacted(S) == {m \in S : m.kind = "cmp"}
RevokeKey(a, com, f, key) ==
  LET part(st) == Aged(Signed(com, f, key, st) \ Compacted(Signed(com, f, key, st)))
  IN Take(a, "revoke", part("cast") \o part("link") \o part("react") \o part("data") \o part("verif"))
RECURSIVE RevokeKeys(_, _, _, _)
RevokeKeys(a, com, f, keys) == IF keys = <<>> THEN a ELSE RevokeKeys(RevokeKey(a, com, f, Head(keys)), com, f, Tail(keys))

\* --- user messages ------------------------------------------------------------------------------
Owns(s, f, n) == IF Len(n) > 4 /\ SubSeq(n, Len(n) - 3, Len(n)) = ".eth"
                 THEN n \in DOMAIN s.ens /\ s.ens[n] = f
                 ELSE n \in DOMAIN s.nm.names /\ s.nm.names[n].fid = f
Verified(s, f, addr) == \E m \in s.live : m.store = "verif" /\ m.kind = "add" /\ m.fid = f /\ m.addr = addr
Accept(a, com, m, v, wf) ==
  LET s == IF Enabled("DependentMessagesInBulkSubmit", v) THEN a.s ELSE com
  IN IF m.id \notin wf THEN "malformed"
     ELSE IF m.fid \notin DOMAIN s.chain.idx THEN "fid"
     ELSE IF ~O!Active(s.chain, m.fid, m.signer) THEN "signer"
     ELSE IF m.store = "verif" /\ Enabled("VerificationsOnShardZero", v) THEN "type"
     ELSE IF m.need = "name" /\ m.val # "" /\ ~Owns(s, m.fid, m.val) THEN "name"
     ELSE IF m.need \in {"addr", "addr2"} /\ m.val # "" /\ ~Verified(s, m.fid, m.val) THEN "address"
     ELSE "ok"

\* before BlockLinks a compaction swept links of every type
MergeAt(live, stored, m, v) ==
  LET o == G!Merge(live, stored, m)
      swept == {x \in stored : /\ x.store = "link" /\ x.kind # "cmp" /\ x.fid = m.fid /\ x.ts <= m.ts
                               /\ (x.kind = "rem" \/ x.tgt \notin m.tgts)}
  IN IF m.kind = "cmp" /\ ~Enabled("BlockLinks", v) /\ o.res = "ok" THEN [o EXCEPT !.del = @ \cup swept] ELSE o

User(a, com, m, v, wf) ==
  LET w == Accept(a, com, m, v, wf)
      o == MergeAt(a.s.live, com.live, m, v)
  IN IF w # "ok" THEN Say(a, Ev("fail", m.id, {w}))
     ELSE IF o.res # "ok" THEN Say(a, Ev("fail", m.id, {o.res}))
     ELSE LET l == (a.s.live \ o.del) \cup {m}
              e == IF m.store = "proof" THEN NamePut(a.s.ens, m.val, m.fid) ELSE a.s.ens
              \* a compaction counts what it swept from the committed state even if it went in this block
              b == Say([a EXCEPT !.s.live = l, !.s.ens = e, !.types = @ \cup {m.mt}],
                       Ev("merge", m.id, {x.id : x \in o.del}))
          IN [b EXCEPT !.dels = @ \cup {x \in o.del : x.store = "verif" /\ x.kind = "add"},
                       !.odd = @ \cup (IF o.del \subseteq a.s.live THEN {} ELSE {"stale"})]
RECURSIVE Users(_, _, _, _, _)
Users(a, com, ms, v, wf) == IF ms = <<>> THEN a ELSE Users(User(a, com, Head(ms), v, wf), com, Tail(ms), v, wf)

\* --- limits ---------------------------------------------------------------------------------------
OfType(s, f, mt) == {m \in s.live : m.fid = f /\ m.mt = mt}
\* the count of a type that the block emptied is read from the state before the block
Emptied(a, com, f, st) == \E mt \in TypesOf(st) : OfType(a.s, f, mt) = {} /\ OfType(com, f, mt) # {}
Count(a, com, f, st) ==
  LET n(mt) == LET l == Cardinality(OfType(a.s, f, mt)) IN IF l > 0 THEN l ELSE Cardinality(OfType(com, f, mt))
      RECURSIVE sum(_)
      sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN n(x) + sum(S \ {x})
  IN sum(TypesOf(st))
First(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
PruneType(a, com, f, mt, v, limits) ==
  LET st == StoreOf(mt)
      cnt == Count(a, com, f, st)
      over == cnt - Max0(com, f, st, limits)
      all == Aged({m \in com.live : m.fid = f /\ m.store = st /\ m.kind # "cmp"})
      out == First(all, over)
      b == Take(a, "prune", out)
      c == [b EXCEPT !.s.ens = [n \in DOMAIN @ \ {out[i].val : i \in {j \in 1..Len(out) : out[j].store = "proof"}} |-> @[n]]]
      \* the property asks for the oldest of all
      keep == {m \in a.s.live : m.fid = f /\ m.store = st /\ m.kind # "cmp"}
      need == cnt - Max0(a.s, f, st, limits)
      rule == {Aged(keep)[i].id : i \in 1..(IF need < Cardinality(keep) THEN need ELSE Cardinality(keep))}
      odd == IF Emptied(a, com, f, st) THEN {"emptied"}
             ELSE IF UnitsOf(a.s, f) # UnitsOf(com, f) /\ Len(out) > 0 /\ need < Len(out) THEN {"prune-misses-rent"}
             ELSE IF {out[i].id : i \in 1..Len(out)} # rule THEN {"prune-committed-only"} ELSE {}
  IN IF st = "proof" /\ ~Enabled("EnsValidation", v) THEN a
     ELSE IF over <= 0 THEN a
     ELSE [c EXCEPT !.odd = @ \cup odd]
RECURSIVE Prunes(_, _, _, _, _, _)
Prunes(a, com, f, mts, v, limits) ==
  IF mts = <<>> THEN a ELSE Prunes(PruneType(a, com, f, Head(mts), v, limits), com, f, Tail(mts), v, limits)

\* --- a verification that goes takes the primary address with it ------------------------------------
RECURSIVE Addresses(_, _, _)
Addresses(a, com, vs) ==
  IF vs = <<>> THEN a
  ELSE LET x == Head(vs)
           set == {m \in com.live : m.fid = x.fid /\ m.store = "data" /\ m.need = x.prim /\ m.val = x.addr}
       IN Addresses(Take(a, "revoke", Aged(set)), com, Tail(vs))

Start(s) == [s |-> s, ev |-> <<>>, odd |-> {}, gone |-> {}, types |-> {}, dels |-> {}]
\* deleted verifications in the order of the events that deleted them
DelSeq(a) == LET es == SelectSeq(a.ev, LAMBDA e : e.k = "merge" /\ \E x \in a.dels : x.id \in e.d)
             IN [i \in 1..Len(es) |-> CHOOSE x \in a.dels : x.id \in es[i].d]
\* keys : the revoked keys in the order of their bytes
Txn(s, com, t, v, wf, limits, keyrank) ==
  LET a0 == Start(s)
      a1 == Systems(a0, com, SortBy(t.sys, SysKey), v)
      a2 == RevokeKeys(a1, com, t.fid, SortBy(SeqOf(a1.gone), LAMBDA k : <<keyrank[k]>>))
      a3 == Users(a2, com, SortBy(t.user, LAMBDA m : <<m.pr, m.ts>>), v, wf)
      a4 == Prunes(a3, com, t.fid, SortBy(SeqOf(a3.types), LAMBDA x : <<x>>), v, limits)
  IN IF Enabled("PrimaryAddresses", v) THEN Addresses(a4, com, DelSeq(a4)) ELSE a4

RECURSIVE Block(_, _, _, _, _, _, _)
Block(acc, com, ts, v, wf, limits, keyrank) ==
  IF ts = <<>> THEN acc
  ELSE LET a == Txn(acc.s, com, Head(ts), v, wf, limits, keyrank)
       IN Block([s |-> a.s, ev |-> acc.ev \o a.ev, odd |-> acc.odd \cup a.odd], com, Tail(ts), v, wf, limits, keyrank)

\* registry names shown without being owned
Ens(n) == Len(n) > 4 /\ SubSeq(n, Len(n) - 3, Len(n)) = ".eth"
Unowned(s) == {m \in s.live : m.store = "data" /\ m.need = "name" /\ m.val # "" /\ ~Ens(m.val) /\ ~Owns(s, m.fid, m.val)}
\* a block; set in the very block that moves the name, a username stays behind
Whole(s, ts, v, wf, limits, keyrank) ==
  LET x == Block([s |-> s, ev |-> <<>>, odd |-> {}], s, ts, v, wf, limits, keyrank)
  IN IF Unowned(x.s) \ s.live = {} THEN x ELSE [x EXCEPT !.odd = @ \cup {"set-late"}]

(***************************************************************************)
(* What the properties ask of every block                                  *)
(***************************************************************************)
\* replaying the events of a block on a copy of the live messages
Replay1(L, e) == CASE e.k = "merge" -> (L \ e.d) \cup {e.m}
                   [] e.k \in {"revoke", "prune", "unproof"} -> L \ {e.m}
                   [] OTHER -> L
RECURSIVE Replay(_, _)
Replay(L, es) == IF es = <<>> THEN L ELSE Replay(Replay1(L, Head(es)), Tail(es))

OverLimit(s, limits) ==
  {f \in {m.fid : m \in s.live} : \E st \in Stores : Cardinality({m \in s.live : m.fid = f /\ m.store = st}) > Max0(s, f, st, limits)}
=============================================================================
