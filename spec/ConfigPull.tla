----------------------------- MODULE ConfigPull -----------------------------
(* The operator tool that keeps a node's config file in step with the onchain
   registry (fc config pull / version / slot).

   A file is a flat map from dotted path to value.  The registry is a sequence of
   blocks, each holding a version counter and a document.  A document is described by
   its shape, its validator sets (height, key classes, shards) and the three managed
   values it renders.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Managed == {"consensus.validator_sets", "gossip.bootstrap_peers", "gossip.direct_peers"}
CP_Range(s) == {s[i] : i \in DOMAIN s}
CP_Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d

(* ------------------------------ documents ------------------------------ *)
SetOk(s) == s.shards # <<>> /\ s.keys # <<>> /\ \A k \in CP_Range(s.keys) : k = "good"
\* heights never move backwards for any shard
HeightsOk(sets) ==
  \A i, j \in DOMAIN sets :
    i < j /\ CP_Range(sets[i].shards) \cap CP_Range(sets[j].shards) # {} =>
      sets[i].at <= sets[j].at
GenesisOk(sets) ==
  sets[1].at = 0 /\ UNION {CP_Range(sets[i].shards) : i \in DOMAIN sets} \subseteq CP_Range(sets[1].shards)
DocOk(d) ==
  /\ d.shape = "ok" /\ d.sets # <<>>
  /\ \A i \in DOMAIN d.sets : SetOk(d.sets[i])
  /\ HeightsOk(d.sets) /\ GenesisOk(d.sets)

(* ------------------------------ settings ------------------------------- *)
\* the environment overrides the file
Declared(env, file) == IF env.net # "-" THEN env.net ELSE CP_Get(file, "fc_network", "-")
NetworkOk(net, env, file) == Declared(env, file) = "-" \/ Declared(env, file) \in [Mainnet |-> {"Mainnet", "mainnet", "MAINNET"},
   Testnet |-> {"Testnet", "testnet", "TESTNET"}, Devnet |-> {"Devnet", "devnet", "DEVNET"}][net]
ReadNodeKnown(env) == env.read \in {"-", "true", "false"}
ReadNode(env, file) == IF env.read # "-" THEN env.read = "true" ELSE CP_Get(file, "read_node", "false") = "true"
Baked == "0x00000000fc51aD6eb74EAE89ba4b01b1776fBA85"
Registry(net, flag) == IF flag # "-" THEN flag ELSE IF net = "Devnet" THEN "-" ELSE Baked
NonEmpty(s) == IF s = "" THEN "-" ELSE s
\* where the chain is read from
Endpoint(net, flag, env, file) ==
  IF flag # "-" THEN flag
  ELSE IF net # "Mainnet" THEN "-"
  ELSE IF NonEmpty(env.l1) # "-" THEN env.l1 ELSE NonEmpty(CP_Get(file, "l1_rpc_url", "-"))
ChainOf(net) == IF net = "Mainnet" THEN "1" ELSE IF net = "Testnet" THEN "11155111" ELSE "any"
ChainOk(net, chain) == ChainOf(net) \in {"any", chain}

(* -------------------------------- pull --------------------------------- *)
Blank == {"", " ", "   "}
\* the reads a pull makes
Reads(net, report) == (IF ChainOf(net) = "any" THEN {} ELSE {"chain"}) \cup (IF report THEN {"block", "version"} ELSE {}) \cup {"toml"}
Merge(file, d, keep) ==
  LET kept == keep /\ "gossip.bootstrap_peers" \in DOMAIN file /\ file["gossip.bootstrap_peers"] \notin Blank
      new == [k \in Managed |-> IF k = "gossip.bootstrap_peers" /\ kept THEN file[k] ELSE d.values[k]]
  IN new @@ file
\* a, what was asked; env, the environment; sv, what the endpoint does
CommonOk(a, env, sv, file, parses) ==
  /\ parses
  /\ NetworkOk(a.net, env, file)
  /\ Registry(a.net, a.registry) # "-" /\ a.registry # "bad"
  /\ Endpoint(a.net, a.rpc, env, file) # "-"
  /\ ChainOk(a.net, sv.chain)
PullOk(a, env, sv, file, parses, d) ==
  /\ ~(a.dry /\ a.report)
  /\ CommonOk(a, env, sv, file, parses)
  /\ ReadNodeKnown(env)
  /\ (ReadNode(env, file) => a.dry)
  /\ ~(sv.fault # "none" /\ sv.fault # "edit" /\ sv.at \in Reads(a.net, a.report))
  /\ DocOk(d)
  /\ CP_Get(file, "gossip", "-") = "-" /\ CP_Get(file, "consensus", "-") = "-"  \* both are tables
  /\ (sv.fault = "edit" => a.dry)
VersionOk(a, env, sv, file, parses) ==
  CommonOk(a, env, sv, file, parses) /\ ~(sv.fault # "none" /\ sv.fault # "edit" /\ sv.at \in ((Reads(a.net, FALSE) \ {"toml"}) \cup {"version"}))

(* what a dry run shows: the merge, credentials masked *)
Secrets == {"l1_rpc_url", "rpc_auth", "admin_rpc_auth", "consensus.private_key", "snapshot.aws_access_key_id",
            "snapshot.aws_secret_access_key", "onchain_events.rpc_url", "base_onchain_events.rpc_url"}
Shown(file) == [k \in DOMAIN file |-> IF k \in Secrets /\ file[k] # "" THEN "<redacted>" ELSE file[k]]

(* -------------------------------- slots -------------------------------- *)
\* keys are ranks in text order; the slot is the rank within the set in use
Slot(mine, keys) == [index |-> IF mine \in keys THEN Cardinality({k \in keys : k < mine}) ELSE Cardinality(keys),
                     count |-> Cardinality(keys)]
=============================================================================
