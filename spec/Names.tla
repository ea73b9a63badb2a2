-------------------------------- MODULE Names --------------------------------
(* Registry names (fnames): who owns a name.

   A proof p: id, fid (0 gives the name up), name, ts, sr (rank of its signature).
   names : function name -> the proof in force (a name given up keeps its last proof)
   by    : function account -> the name found by looking the account up                        *)
EXTENDS Integers, Sequences, FiniteSets

NameDrop(fn, k) == [x \in DOMAIN fn \ {k} |-> fn[x]]
NamePut(fn, k, v) == [x \in DOMAIN fn \cup {k} |-> IF x = k THEN v ELSE fn[x]]

NameNewer(a, b) == a.ts > b.ts \/ (a.ts = b.ts /\ a.sr > b.sr)

NameVerdict(names, p) ==
  IF p.name \in DOMAIN names
  THEN LET o == names[p.name]
       IN IF o.ts = p.ts /\ o.sr = p.sr THEN "duplicate" ELSE IF NameNewer(o, p) THEN "conflict" ELSE "ok"
  ELSE IF p.fid = 0 THEN "conflict" ELSE "ok"

\* the account's entry goes when it named this name
Unname(by, f, n) == IF f \in DOMAIN by /\ by[f] = n THEN NameDrop(by, f) ELSE by

NameApply(st, p) ==
  IF NameVerdict(st.names, p) # "ok" THEN st
  ELSE LET had == p.name \in DOMAIN st.names
           by0 == IF had THEN Unname(st.by, st.names[p.name].fid, p.name) ELSE st.by
       IN [st EXCEPT !.names = NamePut(st.names, p.name, p),
                     !.by = IF p.fid = 0 THEN by0 ELSE NamePut(by0, p.fid, p.name)]

(* Design properties *)
OwnedBy(st, f) == {n \in DOMAIN st.names : st.names[n].fid = f}
\* an account's entry names a name it owns; an account that owns one name only is found
LookupsAgree(st) == \A f \in DOMAIN st.by : f # 0 /\ st.by[f] \in OwnedBy(st, f)
=============================================================================
