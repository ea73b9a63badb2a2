------------------------------- MODULE Channels -------------------------------
(* Channels: who owns one, what its members, moderators and settings are, which *)
(* messages about it are taken, and what each of them does.                     *)
(*                                                                              *)
(* State: own   - channel -> address of its owner (the chain's registry says)   *)
(*        ver   - the live address verifications of shard 0: [f, a, ts, h]      *)
(*        mem   - one row for each channel and account ever acted on            *)
(*        upd, pin, mod - the settings, pin and moderated casts of a channel    *)
(* Every row keeps the message that made it (author, time, identity): rows are  *)
(* replaced in the order of shard 0, never by the time the message claims.      *)
EXTENDS Integers, Sequences, FiniteSets

Zero0 == [own |-> <<>>, ver |-> {}, mem |-> {}, upd |-> {}, pin |-> {}, mod |-> {}]

ModeratorCap == 10

(* The owner's account: of all live verifications of the owner's address the    *)
(* latest one; of two equally late ones the greater hash, and then the lower    *)
(* account. 0: nobody can be shown to own it, the channel is parked.            *)
Later(x, y) == \/ x.ts > y.ts
               \/ x.ts = y.ts /\ x.h > y.h
               \/ x.ts = y.ts /\ x.h = y.h /\ x.f < y.f
Winner(S) == IF S = {} THEN 0 ELSE (CHOOSE x \in S : \A y \in S \ {x} : Later(x, y)).f
Known(s, c) == c \in DOMAIN s.own
Owner(s, c) == Winner({x \in s.ver : x.a = s.own[c]})

Rows(s, c) == {x \in s.mem : x.c = c}
StateOf(s, c, f) == LET R == {x \in s.mem : x.c = c /\ x.f = f}
                    IN IF R = {} THEN "none" ELSE (CHOOSE x \in R : TRUE).st
Moderators(s, c) == Cardinality({x \in s.mem : x.c = c /\ x.st = "moderator"})

(* What settings mean when a mode is not given: the strictest one.              *)
Casting(b) == IF b.casting = "" \/ b.casting = "none" THEN "members" ELSE b.casting
Membership(b) == IF b.membership = "" \/ b.membership = "none" THEN "approval" ELSE b.membership
Default == [casting |-> "", membership |-> ""]
Settings(s, c) == LET R == {x \in s.upd : x.c = c} IN IF R = {} THEN Default ELSE (CHOOSE x \in R : TRUE).body
Open(s, c) == Membership(Settings(s, c)) = "open"

Role(s, c, f) == IF Owner(s, c) # 0 /\ Owner(s, c) = f THEN "owner"
                 ELSE CASE StateOf(s, c, f) = "moderator" -> "moderator"
                        [] StateOf(s, c, f) = "member" -> "member"
                        [] OTHER -> "other"

Actions == {"add", "remove", "addmod", "removemod", "ban", "unban"}
Becomes(act) == CASE act \in {"add", "removemod"} -> "member"
                  [] act = "addmod" -> "moderator"
                  [] act \in {"remove", "unban"} -> "removed"
                  [] act = "ban" -> "banned"

(* Who may do what to whom.                                                     *)
Authority(s, c, f, target, act) ==
    LET role == Role(s, c, f)
        st == StateOf(s, c, target)
        self == f = target
        staff == role \in {"owner", "moderator"}
    IN CASE act = "ban" /\ Owner(s, c) = target -> FALSE
         [] st = "banned" /\ act # "unban" -> FALSE
         [] act = "add" -> st \in {"none", "removed"} /\ (staff \/ (self /\ Open(s, c)))
         [] act = "remove" -> \/ st = "member" /\ (staff \/ self)
                              \/ st = "moderator" /\ self
         [] act = "addmod" -> st \in {"none", "removed", "member"} /\ role = "owner" /\ Moderators(s, c) < ModeratorCap
         [] act = "removemod" -> st = "moderator" /\ role = "owner"
         [] act = "ban" -> IF st = "moderator" THEN role = "owner" ELSE staff
         [] act = "unban" -> st = "banned" /\ staff
         [] OTHER -> FALSE

(* May this message be acted on?                                                *)
Allowed(s, m) ==
    /\ m.t \in {"member", "update", "pin", "mod"}
    /\ Known(s, m.c)
    /\ Owner(s, m.c) = 0 => m.t = "member" /\ m.act = "remove" /\ m.target = m.f
    /\ CASE m.t = "member" -> Authority(s, m.c, m.f, m.target, m.act)
         [] m.t = "update" -> Role(s, m.c, m.f) = "owner"
         [] OTHER -> Role(s, m.c, m.f) \in {"owner", "moderator"}

(* The row a message writes, and whether it still fits.                         *)
Row(m) == CASE m.t = "member" -> [c |-> m.c, f |-> m.target, st |-> Becomes(m.act), by |-> m.f, ts |-> m.ts, id |-> m.id]
            [] m.t = "update" -> [c |-> m.c, body |-> m.body, by |-> m.f, id |-> m.id]
            [] m.t = "pin" -> [c |-> m.c, cast |-> m.cast, by |-> m.f, id |-> m.id]
            [] m.t = "mod" -> [c |-> m.c, cast |-> m.cast, act |-> m.act, by |-> m.f, id |-> m.id]
Same(s, m) == CASE m.t = "member" -> {x \in s.mem : x.c = m.c /\ x.f = m.target}
                [] m.t = "update" -> {x \in s.upd : x.c = m.c}
                [] m.t = "pin" -> {x \in s.pin : x.c = m.c}
                [] m.t = "mod" -> {x \in s.mod : x.c = m.c /\ x.cast = m.cast}
Fits(s, m, caps) ==
    /\ ~ \E x \in Same(s, m) : x.id = m.id
    /\ Same(s, m) = {} => CASE m.t = "member" -> Cardinality(Rows(s, m.c)) < caps.member
                            [] m.t = "mod" -> Cardinality({x \in s.mod : x.c = m.c}) < caps.mod
                            [] OTHER -> TRUE
Taken(s, m, caps) == Allowed(s, m) /\ Fits(s, m, caps)

Act(s, m) == CASE m.t = "member" -> [s EXCEPT !.mem = (@ \ Same(s, m)) \cup {Row(m)}]
               [] m.t = "update" -> [s EXCEPT !.upd = (@ \ Same(s, m)) \cup {Row(m)}]
               [] m.t = "pin" -> [s EXCEPT !.pin = (@ \ Same(s, m)) \cup {Row(m)}]
               [] m.t = "mod" -> [s EXCEPT !.mod = (@ \ Same(s, m)) \cup {Row(m)}]

Own(s, c, a) == [s EXCEPT !.own = [x \in DOMAIN @ \cup {c} |-> IF x = c THEN a ELSE @[x]]]
Verify(s, f, a, add, ts, h) ==
    [s EXCEPT !.ver = {x \in @ : x.f # f \/ x.a # a} \cup (IF add THEN {[f |-> f, a |-> a, ts |-> ts, h |-> h]} ELSE {})]

(* ---------------------------------------------------------------- following *)
(* An account follows a channel while its like of the channel's address is      *)
(* live. rows: [f, u, k, ts, seen] - seen: merged under a version that indexes. *)
Digit == [d \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
            CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3 [] d = "4" -> 4
              [] d = "5" -> 5 [] d = "6" -> 6 [] d = "7" -> 7 [] d = "8" -> 8 [] d = "9" -> 9]
At(x, n) == SubSeq(x, n, n)
IsNumber(x) == /\ Len(x) > 0
               /\ \A n \in 1 .. Len(x) : At(x, n) \in DOMAIN Digit
               /\ Len(x) > 1 => At(x, 1) # "0"
(* numbers of equal length, digit by digit                                      *)
NotAbove(x, most) ==
    \/ Len(x) < Len(most)
    \/ /\ Len(x) = Len(most)
       /\ \/ x = most
          \/ \E n \in 1 .. Len(x) : /\ Digit[At(x, n)] < Digit[At(most, n)]
                                    /\ SubSeq(x, 1, n - 1) = SubSeq(most, 1, n - 1)
MaxChain == "18446744073709551615"
MaxToken == "115792089237316195423570985008687907853269984665640564039457584007913129639935"
Starts(x, p) == Len(x) >= Len(p) /\ SubSeq(x, 1, Len(p)) = p
Rest(x, p) == SubSeq(x, Len(p) + 1, Len(x))
(* seg: the parts between slashes; sum: the address is spelled with its checksum *)
IsChannelAddress(len, seg, sum) ==
    /\ len <= 256
    /\ Len(seg) = 3
    /\ Starts(seg[1], "eip155:") /\ IsNumber(Rest(seg[1], "eip155:")) /\ NotAbove(Rest(seg[1], "eip155:"), MaxChain)
    /\ Starts(seg[2], "erc721:") /\ sum
    /\ IsNumber(seg[3]) /\ NotAbove(seg[3], MaxToken)

Followers(rows, u) == {x \in rows : x.u = u /\ x.k = "like" /\ x.seen}
=============================================================================
