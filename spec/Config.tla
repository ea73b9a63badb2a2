------------------------------- MODULE Config -------------------------------
(* Where a node's settings come from, which configurations it starts with, and which
   validators are in force at a height.

   A setting is named by its path.  Layers are functions from paths to
   [kind, v]; a later layer hides an earlier one completely, so a value of the wrong
   kind only matters in the layer that wins. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* <<path, kind of value, value when nothing else is said>>;  "-" = no value
Table == {
  <<"log_format", "str", "text">>,
  <<"fnames.disable", "bool", "false">>,
  <<"fnames.start_from", "u64", "-">>,
  <<"fnames.url", "str", "https://fnames.farcaster.xyz/transfers">>,
  <<"fnames.stop_at", "u64", "-">>,
  <<"onchain_events.rpc_url", "str", "">>,
  <<"onchain_events.start_block_number", "u64", "-">>,
  <<"onchain_events.stop_block_number", "u64", "-">>,
  <<"onchain_events.override_tier_registry_address", "str", "-">>,
  <<"base_onchain_events.rpc_url", "str", "">>,
  <<"base_onchain_events.start_block_number", "u64", "-">>,
  <<"base_onchain_events.override_channel_registrar_address", "str", "-">>,
  <<"base_onchain_events.override_ens_registry_address", "str", "-">>,
  <<"onchain_events.override_channel_registrar_address", "str", "-">>,
  <<"onchain_events.override_ens_registry_address", "str", "-">>,
  <<"base_onchain_events.stop_block_number", "u64", "-">>,
  <<"base_onchain_events.override_tier_registry_address", "str", "-">>,
  <<"consensus.private_key", "str", "<generated>">>,
  <<"consensus.num_shards", "u32", "1">>,
  <<"consensus.shard_ids", "u32s", "[1]">>,
  <<"consensus.step_delta", "dur", "500ms">>,
  <<"consensus.propose_time", "dur", "1s">>,
  <<"consensus.prevote_time", "dur", "500ms">>,
  <<"consensus.precommit_time", "dur", "500ms">>,
  <<"consensus.block_time", "dur", "1s">>,
  <<"consensus.max_messages_per_block", "u32", "1000">>,
  <<"consensus.consensus_start_delay", "u32", "2">>,
  <<"consensus.sync_request_timeout.secs", "u64", "2">>,
  <<"consensus.sync_request_timeout.nanos", "u32", "0">>,
  <<"consensus.sync_status_update_interval.secs", "u64", "10">>,
  <<"consensus.sync_status_update_interval.nanos", "u32", "0">>,
  <<"consensus.reconcile_heartbeat_event", "u64", "0">>,
  <<"consensus.validator_sets", "sets", "-">>,
  <<"consensus.validator_addresses", "strs", "-">>,
  <<"gossip.address", "str", "/ip4/127.0.0.1/udp/3382/quic-v1">>,
  <<"gossip.announce_address", "str", "">>,
  <<"gossip.announce_rpc_address", "str", "">>,
  <<"gossip.bootstrap_peers", "str", "">>,
  <<"gossip.contact_info_interval.secs", "u64", "300">>,
  <<"gossip.contact_info_interval.nanos", "u32", "0">>,
  <<"gossip.bootstrap_reconnect_interval.secs", "u64", "30">>,
  <<"gossip.bootstrap_reconnect_interval.nanos", "u32", "0">>,
  <<"gossip.enable_autodiscovery", "bool", "false">>,
  <<"gossip.direct_peers", "str", "">>,
  <<"mempool.queue_size", "u32", "5000">>,
  <<"mempool.allow_unlimited_mempool_size", "bool", "false">>,
  <<"mempool.capacity_per_shard", "u64", "1000000">>,
  <<"mempool.rx_poll_interval.secs", "u64", "0">>,
  <<"mempool.rx_poll_interval.nanos", "u32", "1000000">>,
  <<"mempool.enable_rate_limits", "bool", "false">>,
  <<"snapshot.endpoint_url", "str", "">>,
  <<"snapshot.s3_bucket", "str", "snapchain-snapshots">>,
  <<"snapshot.backup_dir", "str", ".rocks.backup">>,
  <<"snapshot.backup_on_startup", "bool", "false">>,
  <<"snapshot.load_db_from_snapshot", "bool", "true">>,
  <<"snapshot.force_load_db_from_snapshot", "bool", "false">>,
  <<"snapshot.snapshot_download_url", "str", "https://pub-d352dd8819104a778e20d08888c5a661.r2.dev">>,
  <<"snapshot.snapshot_download_dir", "str", ".rocks.snapshot">>,
  <<"snapshot.aws_access_key_id", "str", "">>,
  <<"snapshot.aws_secret_access_key", "str", "">>,
  <<"snapshot.bootstrap_method", "method", "Snapshot">>,
  <<"snapshot.replication_peers", "strs", "[]">>,
  <<"rpc_auth", "str", "">>,
  <<"admin_rpc_auth", "str", "">>,
  <<"rpc_address", "str", "0.0.0.0:3383">>,
  <<"http_address", "str", "0.0.0.0:3381">>,
  <<"rocksdb_dir", "str", ".rocks">>,
  <<"statsd.prefix", "str", "">>,
  <<"statsd.addr", "str", "127.0.0.1:8125">>,
  <<"statsd.use_tags", "bool", "true">>,
  <<"l1_rpc_url", "str", "">>,
  <<"fc_network", "net", "Devnet">>,
  <<"read_node", "bool", "false">>,
  <<"pruning.block_retention", "dur", "-">>,
  <<"pruning.event_retention", "dur", "3days">>,
  <<"pruning.event_pruning_schedule", "str", "-">>,
  <<"http_server.cors_origin", "str", "*">>,
  <<"mesh.cache_ttl_secs", "u64", "5">>,
  <<"mesh.nodes", "nodes", "[]">>,
  <<"replication.enable", "bool", "true">>,
  <<"replication.snapshot_interval", "u64", "28800">>,
  <<"replication.snapshot_max_age", "dur", "1day">>,
  <<"block_receiver.single_block_confirmation_timeout", "dur", "5s">>,
  <<"block_receiver.sync_confirmation_timeout", "dur", "10s">>,
  <<"block_receiver.sync_batch_size", "u64", "500">>,
  <<"block_receiver.enabled", "bool", "false">>}

Paths == {t[1] : t \in Table}
KindOf == [p \in Paths |-> (CHOOSE t \in Table : t[1] = p)[2]]
Default == [p \in Paths |-> (CHOOSE t \in Table : t[1] = p)[3]]

\* a value of kind k is acceptable where kind want is needed
Fits(want, k) ==
  CASE want = "str" -> k \in {"str", "dur", "net", "method"}
    [] want \in {"u32", "u64"} -> k = "int" \/ (want = "u64" /\ k = "wide")
    [] want \in {"u32s"} -> k = "ints"
    [] want = "strs" -> k \in {"strs"}
    [] OTHER -> k = want

\* file, env: sequences of <<path, kind, value>>; names outside the table are ignored
LayerOf(s) == [p \in {s[i][1] : i \in DOMAIN s} |-> LET i == CHOOSE i \in DOMAIN s : s[i][1] = p IN [kind |-> s[i][2], v |-> s[i][3]]]
Winner(file, env, p) == IF p \in DOMAIN env THEN env[p] ELSE IF p \in DOMAIN file THEN file[p] ELSE [kind |-> "default", v |-> Default[p]]

Effective(file, env, cli) ==
  [p \in Paths |-> IF p = "log_format" /\ cli.log_format # "-" THEN cli.log_format ELSE Winner(file, env, p).v]
ArgsOk(cli) == cli.form = "ok"
LoadOk(cli, fileState, file, env) ==
  /\ ArgsOk(cli) /\ fileState = "ok"
  /\ \A p \in Paths : LET w == Winner(file, env, p) IN w.kind = "default" \/ Fits(KindOf[p], w.kind)

\* what the program itself insists on before it starts
GoodStatsdAddr == {"127.0.0.1:8125", "statsd.internal:9125", "h:0"}
StartOk(e) == e["log_format"] \in {"text", "json"} /\ e["statsd.prefix"] # "" /\ e["statsd.addr"] \in GoodStatsdAddr

-----------------------------------------------------------------------------
(* Validator sets: [at, shards, keys]; keys are ranks in address order. *)
CF_Range(f) == {f[i] : i \in DOMAIN f}
Governs(e, shard) == shard \in CF_Range(e.shards)
\* lists a deployment may use: seeded from the start for the shard, no two entries for it at one height
Seeded(sets, shard) == sets # <<>> /\ sets[1].at = 0 /\ Governs(sets[1], shard)
Unambiguous(sets, shard) == \A i, j \in DOMAIN sets : (i # j /\ Governs(sets[i], shard) /\ Governs(sets[j], shard)) => sets[i].at # sets[j].at
Ordered(sets) == \A i, j \in DOMAIN sets : i < j => sets[i].at <= sets[j].at
InForce(sets, shard, h) ==
  LET c == {i \in DOMAIN sets : Governs(sets[i], shard) /\ sets[i].at <= h}
      i == CHOOSE i \in c : \A j \in c : sets[j].at <= sets[i].at
  IN CF_Range(sets[i].keys)
\* newest set of every shard that is mentioned
Latest(sets) ==
  LET shards == UNION {CF_Range(sets[i].shards) : i \in DOMAIN sets}
      last(sh) == CHOOSE i \in DOMAIN sets : Governs(sets[i], sh) /\ \A j \in DOMAIN sets : Governs(sets[j], sh) => j <= i
  IN UNION {CF_Range(sets[last(sh)].keys) : sh \in shards}

RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A x \in S : m <= x IN <<m>> \o Ascending(S \ {m})
Proposer(set, h, round) == LET q == Ascending(set) IN q[((h - 1 + round) % Len(q)) + 1]
=============================================================================
