------------------------------ MODULE ConfigMC ------------------------------
(* An operator edits the layers one setting at a time and rotates validators; at every
   point the effective configuration and the validators in force are as promised. *)
EXTENDS Config
CONSTANTS MaxSets, MaxHeight
Probe == {"log_format", "rpc_auth", "consensus.num_shards"}
Vals == {[kind |-> "str", v |-> "a"], [kind |-> "int", v |-> "7"], [kind |-> "str", v |-> "json"]}
VARIABLES file, env, cli, sets, h
vars == <<file, env, cli, sets, h>>
Keys == SUBSET {0, 1, 2} \ {{}}
Init == file = << >> /\ env = << >> /\ cli = "-" /\ sets = <<[at |-> 0, shards |-> <<0, 1>>, keys |-> <<0, 1, 2>>]>> /\ h = 1
Put(f, p, v) == [x \in DOMAIN f \cup {p} |-> IF x = p THEN v ELSE f[x]]
Rem(f, p) == [x \in DOMAIN f \ {p} |-> f[x]]
EditLayers ==
  /\ Len(sets) = 1 /\ h = 1
  /\ \E p \in Probe : \/ \E v \in Vals : file' = Put(file, p, v) /\ UNCHANGED <<env, cli>>
                      \/ \E v \in Vals : env' = Put(env, p, v) /\ UNCHANGED <<file, cli>>
                      \/ env' = Rem(env, p) /\ UNCHANGED <<file, cli>>
                      \/ cli' \in {"-", "x"} /\ UNCHANGED <<file, env>>
  /\ UNCHANGED <<sets, h>>
Rotate ==
  /\ file = << >> /\ env = << >> /\ cli = "-" /\ Len(sets) < MaxSets
  /\ \E at \in (sets[Len(sets)].at + 1)..MaxHeight, sh \in {<<0>>, <<1>>, <<0, 1>>}, k \in Keys :
       sets' = Append(sets, [at |-> at, shards |-> sh, keys |-> Ascending(k)])
  /\ UNCHANGED <<file, env, cli, h>>
Grow == file = << >> /\ env = << >> /\ cli = "-" /\ h < MaxHeight + 1 /\ h' = h + 1 /\ UNCHANGED <<file, env, cli, sets>>
Next == EditLayers \/ Rotate \/ Grow
Spec == Init /\ [][Next]_vars

E == Effective(file, env, [log_format |-> cli])
EnvWins == \A p \in Probe : p \in DOMAIN env /\ (p # "log_format" \/ cli = "-") => E[p] = env[p].v
CliWins == cli # "-" => E["log_format"] = cli
UntouchedDefault == \A p \in Paths : p \notin DOMAIN file \cup DOMAIN env /\ (p # "log_format" \/ cli = "-") => E[p] = Default[p]
\* a bad value hidden by a good one does no harm; a bad effective one is never accepted
HiddenBad == LoadOk([form |-> "ok"], "ok", file, env) <=> \A p \in Probe : LET w == Winner(file, env, p) IN w.kind # "default" => Fits(KindOf[p], w.kind)
Fair == \A sh \in {0, 1} : LET s == InForce(sets, sh, h) IN
          {Proposer(s, h, r) : r \in 0..(Cardinality(s) - 1)} = s
\* rotating one shard leaves the other alone, and a future entry changes nothing yet
Isolation == [][sets' # sets => \A sh \in {0, 1} : (~Governs(sets'[Len(sets')], sh) \/ sets'[Len(sets')].at > h)
                  => InForce(sets', sh, h) = InForce(sets, sh, h)]_vars
LatestCovers == h > MaxHeight => Latest(sets) = InForce(sets, 0, h) \cup InForce(sets, 1, h)
=============================================================================
