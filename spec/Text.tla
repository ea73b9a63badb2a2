-------------------------------- MODULE Text --------------------------------
(* Byte strings as sequences of character codes *)
EXTENDS Integers, Sequences, FiniteSets

Lower == 97..122
Upper == 65..90
Digit == 48..57
Alnum == Lower \cup Upper \cup Digit
Dash == 45
Dot == 46
Slash == 47
Colon == 58
Comma == 44

AllIn(s, set) == \A i \in 1..Len(s) : s[i] \in set
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Count(s, c) == Cardinality({i \in 1..Len(s) : s[i] = c})
RECURSIVE Split(_, _)
Split(s, c) ==
  IF \A i \in 1..Len(s) : s[i] # c THEN <<s>>
  ELSE LET k == CHOOSE k \in 1..Len(s) : s[k] = c /\ \A j \in 1..(k - 1) : s[j] # c
       IN <<SubSeq(s, 1, k - 1)>> \o Split(SubSeq(s, k + 1, Len(s)), c)
RECURSIVE Number(_)
Number(s) == IF s = <<>> THEN 0 ELSE 10 * Number(SubSeq(s, 1, Len(s) - 1)) + (s[Len(s)] - 48)
=============================================================================
