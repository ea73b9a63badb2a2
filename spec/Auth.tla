-------------------------------- MODULE Auth --------------------------------
(* Which calls a node answers.  Three settings list names and passwords: one guards
   what users submit, one the network diagnostics, one the operator's commands.  A
   setting is a text of entries parted by commas; an entry that is one name and one
   password parted by a colon configures that name, the later of two counting.  With
   nobody configured the calls it guards are open.  *)
EXTENDS Integers, Sequences, FiniteSets

Guards == {"users", "diagnostics", "operator"}
CallsOf(g) == CASE g = "users" -> {"submit", "bulk"}
                [] g = "diagnostics" -> {"view", "crawl"}
                [] g = "operator" -> {"upload", "migrate"}
GuardedCalls == UNION {CallsOf(g) : g \in Guards}
GuardOf(c) == CHOOSE g \in Guards : c \in CallsOf(g)
OpenCalls == {"info", "peers"}

\* an entry is the sequence of its pieces between colons
Counts(e) == Len(e) = 2
Names(entries) == {entries[k][1] : k \in {j \in DOMAIN entries : Counts(entries[j])}}
PasswordOf(entries, n) ==
  LET ks == {j \in DOMAIN entries : Counts(entries[j]) /\ entries[j][1] = n}
  IN entries[CHOOSE k \in ks : \A j \in ks : j <= k][2]
Configured(entries) == {<<n, PasswordOf(entries, n)>> : n \in Names(entries)}

(* A caller's header: there or not; its scheme; how many words it has; whether the
   second word decodes to text; and the pieces between colons of that text.  *)
NoHeader == [there |-> FALSE, scheme |-> "-", words |-> 0, decodes |-> FALSE, pieces |-> <<>>]
Carries(h) == h.there /\ h.scheme = "Basic" /\ h.words = 2 /\ h.decodes /\ Len(h.pieces) = 2
Admits(entries, h) ==
  LET all == Configured(entries)
  IN all = {} \/ (Carries(h) /\ <<h.pieces[1], h.pieces[2]>> \in all)
Answered(setting, call, h) ==
  IF call \in OpenCalls THEN TRUE ELSE Admits(setting[GuardOf(call)], h)
=============================================================================
