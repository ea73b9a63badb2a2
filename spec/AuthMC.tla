------------------------------- MODULE AuthMC -------------------------------
(* A node with every small setting, and callers who know some passwords.  Diagnostics
   are kept for a while and answered again from what was kept.  *)
EXTENDS Auth, TLC
CONSTANTS Txt, MaxEntries
Pieces == {<<>>} \cup {<<a>> : a \in Txt} \cup {<<a, b>> : a, b \in Txt} \cup {<<"n", "p", "q">>}
Entries == UNION {[1..n -> Pieces \ {<<>>}] : n \in 0..MaxEntries}
Headers == {NoHeader} \cup [there : {TRUE}, scheme : {"Basic", "Bearer"}, words : 1..3, decodes : BOOLEAN, pieces : Pieces]
VARIABLES setting, kept, done, refused
vars == <<setting, kept, done, refused>>
None == [g \in Guards |-> <<>>]
Init == /\ \E g \in Guards : \E e \in Entries : setting = [None EXCEPT ![g] = e]
        /\ kept = FALSE /\ done = {} /\ refused = {}
Call(c, h) ==
  /\ done = {} /\ refused = {}
  /\ IF Answered(setting, c, h)
     THEN done' = {<<c, h>>} /\ kept' = (kept \/ c \in CallsOf("diagnostics")) /\ refused' = {}
     ELSE refused' = {<<c, h>>} /\ done' = {} /\ UNCHANGED kept
  /\ UNCHANGED setting
Expire == kept /\ kept' = FALSE /\ UNCHANGED <<setting, done, refused>>
Return == done \cup refused # {} /\ done' = {} /\ refused' = {} /\ UNCHANGED <<setting, kept>>
Next == Expire \/ Return \/ \E c \in GuardedCalls \cup OpenCalls : \E h \in Headers : Call(c, h)
Spec == Init /\ [][Next]_vars
\* whoever gets an answer from a guarded call named a pair that stands in the setting, or it names nobody
NoStranger == \A d \in done : d[1] \in GuardedCalls =>
  LET e == setting[GuardOf(d[1])]
  IN (\A k \in DOMAIN e : Len(e[k]) # 2) \/ \E k \in DOMAIN e : Len(e[k]) = 2 /\ d[2].pieces = e[k] /\ d[2].there
\* a password that was replaced by a later entry admits nobody
Replaced == \A d \in done : d[1] \in GuardedCalls =>
  LET e == setting[GuardOf(d[1])]
  IN \A k, l \in DOMAIN e : (k < l /\ Len(e[k]) = 2 /\ Len(e[l]) = 2 /\ e[k][1] = e[l][1] /\ e[k] # e[l]
                              /\ ~\E m \in DOMAIN e : m > l /\ e[m] = e[k]) => d[2].pieces # e[k]
\* settings do not admit to each other's calls, and open calls never ask
Apart == \A r \in refused : r[1] \in GuardedCalls /\ Names(setting[GuardOf(r[1])]) # {}
\* what is kept answers nobody whom the first call would have refused
KeptGuarded == kept => \A h \in Headers : ~Admits(setting["diagnostics"], h) => ~Answered(setting, "view", h)
\* a configured pair is always admitted
NoLockout == \A r \in refused : LET e == setting[GuardOf(r[1])] IN Carries(r[2]) => <<r[2].pieces[1], r[2].pieces[2]>> \notin Configured(e)
=============================================================================
