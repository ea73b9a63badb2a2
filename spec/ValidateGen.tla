----------------------------- MODULE ValidateGen -----------------------------
(* Every combination of boundary values of cast bodies, and every short text over a small
   alphabet for the textual profile fields, for replay into the real validation. *)
EXTENDS Text, TLC, Json
CONSTANTS Wide

Lens == IF Wide THEN {0, 1, 319, 320, 321, 1023, 1024, 1025, 9999, 10000, 10001} ELSE {0, 320, 321, 1024, 1025, 10000, 10001}
Casts == {[g |-> "cast", ct |-> ct, tl |-> tl, emb |-> e, dep |-> d, old |-> o, pro |-> p, v |-> v] :
            ct \in 0..3, tl \in Lens, e \in {0, 1, 2, 3, 4, 5}, d \in {0, 1, 2, 3}, o \in BOOLEAN, p \in BOOLEAN, v \in {19, 20}}
CastsQuick == {c \in Casts : (c.dep = 0 /\ ~c.old) \/ (c.emb <= 1 /\ c.tl <= 321)}
\* n mentions; positions: in order / last at the end / past the end / swapped / one short / one more
Mentions == {[g |-> "ment", n |-> n, tl |-> t, shape |-> s] : n \in 0..12, t \in {0, 5, 320},
               s \in {"ok", "end", "past", "swap", "short", "more", "zero"}}

a == 97
Ext(S, A) == S \cup {Append(s, c) : s \in S, c \in A}
RECURSIVE Upto(_, _)
Upto(A, n) == IF n = 0 THEN {<<>>} ELSE Ext(Upto(A, n - 1), A)
NameA == {a, 48, Dash, Dot, 65, 95}
N == IF Wide THEN 5 ELSE 3
DotEth == <<46, 101, 116, 104>>
DotBase == <<46, 98, 97, 115, 101>>
Rep(c, n) == [i \in 1..n |-> c]
LongNames == {Rep(a, n) : n \in 14..18} \cup {Append(Rep(a, n), Dash) : n \in {14, 15, 16}}
Names == {[g |-> "text", ty |-> ty, val |-> s] : ty \in {6, 8, 9}, s \in Upto(NameA, N) \cup LongNames \cup {Rep(a, n) : n \in 36..40}}
Ens == {[g |-> "text", ty |-> 6, val |-> s \o t] : s \in Upto({a, Dash, Dot, 48, 65}, N - 1) \cup LongNames,
          t \in {DotEth, DotBase \o DotEth, DotBase, <<46, 46, 101, 116, 104>>, DotEth \o DotEth}}
Proofs == {[g |-> "proof", ty |-> ty, val |-> s \o t] : ty \in {2, 3}, s \in Upto({a, Dash, Dot, 48}, 2) \cup LongNames,
             t \in {<<>>, DotEth, DotBase \o DotEth, DotBase \o DotEth \o DotEth}}
Nums == {<<>>, <<48>>, <<57>>, <<57, 48>>, <<57, 49>>, <<49, 56, 48>>, <<49, 56, 49>>, <<49, 48, 48, 48>>, <<48, 57, 48>>}
Sign == {<<>>, <<45>>}
Frac == {<<>>, <<48>>, <<48, 48>>, <<48, 49>>, <<48, 48, 48>>}
Lat == {x \o y \o <<Dot>> \o z : x \in Sign, y \in Nums, z \in Frac}
LonB == {<<48, Dot, 48, 48>>}
GeoP == <<103, 101, 111, 58>>
Geos == {[g |-> "text", ty |-> 7, val |-> GeoP \o x \o <<Comma>> \o y] : x \in Lat, y \in LonB}
        \cup {[g |-> "text", ty |-> 7, val |-> GeoP \o x \o <<Comma>> \o y] : x \in LonB, y \in Lat}
        \cup {[g |-> "text", ty |-> 7, val |-> p \o <<48, Dot, 48, 48>> \o s \o <<48, Dot, 48, 48>> \o e] :
                p \in {<<>>, <<103, 101, 111>>, <<71, 69, 79, 58>>, GeoP, GeoP \o <<32>>}, s \in {<<>>, <<Comma>>, <<Comma, 32>>, <<32>>}, e \in {<<>>, <<32>>, <<10>>, <<Comma>>}}
Caips == {[g |-> "text", ty |-> 13, val |-> n \o <<Colon>> \o r \o <<Slash>> \o m \o <<Colon>> \o f \o t] :
            n \in {<<>>, <<a>>, <<65>>, <<a, 48>>, <<a, Dash>>}, r \in {<<>>, <<66, Dash>>, <<a, 66, 57>>},
            m \in {<<a, a>>, <<a, a, a>>, Rep(a, 8), Rep(a, 9), <<a, Dash, a>>, <<a, 66, a>>},
            f \in {<<>>, <<120, Dot, 37, Dash>>, <<120, 95>>, Rep(a, 128), Rep(a, 129)},
            t \in {<<>>, <<Slash>>, <<Slash, a>>, <<Slash, a, Slash, a>>, <<Slash, Dash>>}}
Items == (IF Wide THEN Casts ELSE CastsQuick) \cup Mentions \cup Names \cup Ens \cup Proofs \cup Geos \cup Caips

VARIABLE x
Init == \E i \in Items : x = i /\ PrintT(<<"BEH", ToJson(i)>>)
Next == FALSE /\ UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
