------------------------------ MODULE MergeMC ------------------------------
(* Every order and repetition of a small universe of competing messages. *)
EXTENDS Merge, TLC
CONSTANTS Mode   \* "lww": casts, links, reactions...; "compact": links with compactions
Msg(id, store, kind, key, ts, hr, lt, tgt, tgts) ==
  [id |-> id, fid |-> 1, store |-> store, kind |-> kind, key |-> key, ts |-> ts, hr |-> hr,
   lt |-> lt, tgt |-> tgt, tgts |-> tgts]
LwwStores == {"cast", "link"}
U == IF Mode = "lww"
     THEN {Msg(<<s, k, t, kd, h>>, s, kd, k, t, h * 2 + (IF kd = "rem" THEN 1 ELSE 0), "l", 7, {}) :
             s \in {"cast"}, k \in {1}, t \in {1, 2}, kd \in {"add", "rem"}, h \in {1, 2}}
          \cup
          {Msg(<<s, k, t, kd, h>>, s, kd, k, t, h * 2 + (IF kd = "rem" THEN 1 ELSE 0), "l", 7, {}) :
             s \in {"link"}, k \in {1}, t \in {1, 2}, kd \in {"add", "rem"}, h \in {1, 2}}
     ELSE {Msg(<<"link", g, t, kd, l>>, "link", kd, <<l, g>>, t, t * 4 + g, l, g, {}) :
             g \in {1, 2}, t \in {1, 2}, kd \in {"add", "rem"}, l \in {"a"}}
          \cup {Msg(<<"link", 1, 1, "add", "b">>, "link", "add", <<"b", 1>>, 1, 90, "b", 1, {})}
          \cup {Msg(<<"cmp", l, t, ts>>, "link", "cmp", <<l>>, t, 50 + t, l, 0, ts) :
                  l \in {"a"}, t \in {1, 2, 3}, ts \in {{}, {1}}}
VARIABLES live, sub
vars == <<live, sub>>
Init == live = {} /\ sub = {}
Submit(m) == /\ sub' = sub \cup {m} /\ live' = Apply(live, m)
Next == \E m \in U : Submit(m)
Spec == Init /\ [][Next]_vars
\* the point of the rules
Converges == Mode = "lww" => live = Canonical(sub)
Shape == OnePerKey(live) /\ OneCompactPerType(live) /\ CompactRespected(live)
Monotone == [][\A c \in live : c.kind = "cmp" => \E d \in live' : d.kind = "cmp" /\ d.lt = c.lt /\ d.ts >= c.ts]_vars
OtherTypes == [][\A x \in live : (x.lt = "b" /\ x.kind # "cmp") => x \in live']_vars
=============================================================================
