---------------------------- MODULE ChannelsTrace ----------------------------
(* What the real block engine, shard engine and follow index did, against       *)
(* Channels.                                                                    *)
EXTENDS Channels, TraceLib, TLC
VARIABLES i, s, bad

Zero == [Zero0 EXCEPT !.own = <<>>] @@ [caps |-> [member |-> 0, mod |-> 0], rows |-> {}, net |-> "devnet"]
Fresh(r) == Zero0 @@ [caps |-> r.caps, rows |-> {}, net |-> IF Has(r, "net") THEN r.net ELSE "devnet"]

Step(st, j) == CASE j.t = "own" -> Own(st, j.c, j.a)
                 [] j.t = "ver" -> IF j.taken THEN Verify(st, j.f, j.a, j.add, j.ts, j.h) ELSE st
                 [] j.t = "shape" -> st
                 [] OTHER -> IF Taken(st, j, st.caps) THEN Act(st, j) ELSE st
Wrong(st, j) == CASE j.t \in {"own", "ver"} -> <<>>
                  [] j.t = "shape" -> Expect(~ j.taken, "malformed-taken", j)
                  [] OTHER -> Expect(j.taken = Taken(st, j, st.caps), IF j.taken THEN "taken-against-rules" ELSE "refused-against-rules", j)
RECURSIVE Walk(_, _, _, _)
Walk(st, js, k, e) == IF k > Len(js) THEN [st |-> st, e |-> e]
                      ELSE Walk(Step(st, js[k]), js, k + 1, e \o Wrong(st, js[k]))

SimOk(j) == CASE j.t = "shape" -> FALSE [] OTHER -> Taken(s, j, s.caps)

Sorted(S, key(_)) == SortSeq(SetToSeq(S), LAMBDA a, b : key(a) < key(b))
(* cast hashes are one repeated byte, written in hex: ordered by their spelling *)
HexDigit == [d \in {"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f"} |->
              CASE d = "a" -> 10 [] d = "b" -> 11 [] d = "c" -> 12 [] d = "d" -> 13 [] d = "e" -> 14 [] d = "f" -> 15 [] OTHER -> Digit[d]]
CastKey(x) == HexDigit[At(x, 1)] * 16 + HexDigit[At(x, 2)]

ReadErrs(r) ==
    LET c == r.c
        M == {x \in s.mem : x.c = c /\ (r.filter = "" \/ x.st = r.filter)}
        ms == Sorted(M, LAMBDA x : x.f)
        D == {x \in s.mod : x.c = c}
        ds == Sorted(D, LAMBDA x : CastKey(x.cast))
        P == {x \in s.pin : x.c = c}
        U == {x \in s.upd : x.c = c}
        F == {x \in s.mem : x.c = c /\ x.f = r.f}
        K == Sorted({x \in s.mem : x.f = r.f}, LAMBDA x : x.c)
    IN Expect(r.members = [k \in 1 .. Len(ms) |-> <<ms[k].f, ms[k].st, ms[k].ts>>], "members", r)
       \o Expect(r.mods = [k \in 1 .. Len(ds) |-> <<ds[k].cast, ds[k].act, ds[k].by>>], "moderations", r)
       \o Expect(r.pin = SetToSeq({<<c, x.cast, x.by>> : x \in P}), "pin", r)
       \o Expect(r.body = SetToSeq({<<c, x.cast>> : x \in P}), "pin-body", r)
       \o Expect(r.one = SetToSeq({<<x.f, x.st, x.ts>> : x \in F}), "member", r)
       \o Expect(r.state = StateOf(s, c, r.f), "member-state", r)
       \o Expect(r.of = [k \in 1 .. Len(K) |-> <<K[k].c, K[k].st>>], "memberships", r)
       \o Expect(r.shown = LET X == {x \in D : x.cast = r.cast} IN IF X = {} THEN "none" ELSE (CHOOSE x \in X : TRUE).act, "moderation-state", r)
       \o Expect(r.counts = <<Cardinality(Rows(s, c)), Moderators(s, c), Cardinality(D)>>, "counts", r)
       \o Expect(Len(r.update) = Cardinality(U)
                 /\ \A x \in U : LET g == r.update[1]
                                 IN g.id = c /\ g.casting = x.body.casting /\ g.membership = x.body.membership /\ g.texts = x.body.texts
                                    /\ g.means = <<Casting(x.body), Membership(x.body)>>, "settings", r)

Indexes(v) == v >= 21 /\ s.net # "mainnet"
FollowErrs(r) ==
    LET W == Sorted(Followers(s.rows, r.u), LAMBDA x : x.f)
        mine == {x \in s.rows : x.f = r.f /\ x.k = "like" /\ x.seen}
        N(u) == CASE u = "c1" -> 1 [] u = "c2" -> 2 [] u = "c3" -> 3 [] OTHER -> 0
        F == Sorted({x \in mine : N(x.u) # 0}, LAMBDA x : N(x.u))
    IN Expect(r.count = Len(W), "follower-count", r)
       \o Expect(r.who = [k \in 1 .. Len(W) |-> <<W[k].f, W[k].ts>>], "followers", r)
       \o Expect(r.what = [k \in 1 .. Len(F) |-> <<N(F[k].u), F[k].ts>>], "followed", r)
       \o Expect(r.is = SetToSeq({x.ts : x \in {y \in mine : y.u = r.u}}), "is-following", r)

Registrar == <<"11155111", "7dd80c661ded9bfc8d4440224a0b39b345a91be4">>

Errs(r) ==
    CASE r.op = "block" -> Expect(r.valid, "proposal-not-valid", r) \o Expect(r.all, "offer-lost", r)
                           \o Expect(r.order, "told-in-another-order", r) \o Walk(s, r.steps, 1, <<>>).e
      [] r.op = "sim" -> Expect(r.ok = SimOk(r.m), "simulation", r)
      [] r.op = "begin" -> Expect(Cardinality(s.ver) = r.ver, "setup", r)
      [] r.op = "sims" -> Flat([k \in 1 .. Len(r.all) |-> Expect(r.all[k][2] = SimOk(r.all[k][1]), "authority", r.all[k])])
      [] r.op = "read" -> ReadErrs(r)
      [] r.op = "registrar" -> Expect(r.got = IF r.net \in {"none", "mainnet"} THEN <<>> ELSE <<Registrar>>, "registrar", r)
      [] r.op = "for" -> Expect(r.ok, "address-of-channel", r)
      [] r.op = "uri" ->
           LET ok == IsChannelAddress(r.len, r.seg, r.sum)
               in == ok /\ r.seg[1] = "eip155:" \o r.reg[1] /\ r.low = r.reg[2]
           IN Expect(r.got = IF ok THEN <<[chain |-> Rest(r.seg[1], "eip155:"), contract |-> r.low, token |-> r.seg[3], again |-> r.uri, in |-> in]>>
                             ELSE <<>>, "channel-address", r)
              \o Expect(r.target = IF in THEN <<r.seg[3]>> ELSE <<>>, "follow-target", r)
      [] r.op = "follows" -> FollowErrs(r)
      [] OTHER -> <<>>

After(r) ==
    CASE r.op = "reset" -> Fresh(r)
      [] r.op = "block" -> Walk(s, r.steps, 1, <<>>).st
      [] r.op = "react" ->
           IF ~ r.taken THEN s
           ELSE [s EXCEPT !.rows = {x \in @ : ~ (x.f = r.f /\ x.u = r.u /\ x.k = r.k)}
                                   \cup IF r.add THEN {[f |-> r.f, u |-> r.u, k |-> r.k, ts |-> r.ts, by |-> r.by, id |-> r.id, seen |-> Indexes(r.v)]} ELSE {}]
      [] r.op = "revoke" -> [s EXCEPT !.rows = {x \in @ : ~ (x.f = r.f /\ x.by = r.by)}]
      [] r.op = "pruned" -> [s EXCEPT !.rows = {x \in @ : ~ \E k \in 1 .. Len(r.gone) : r.gone[k] = x.id}]
      [] OTHER -> s

Init == i = 0 /\ s = Zero /\ bad = 0
Next == /\ i < Len(Trace)
        /\ LET e == Errs(Trace[i + 1])
           IN /\ i' = i + 1 /\ bad' = bad + Len(e) /\ Report(i + 1, e) /\ s' = After(Trace[i + 1])
              /\ (i' = Len(Trace)) => Finish(i', bad')
Spec == Init /\ [][Next]_<<i, s, bad>>
=============================================================================
