"""What decides each property: models, generators, drivers and trace modules."""

MERGE_KINDS = {"merge-result", "refused-deletes", "superseded", "live-set"}

CHECKS = {
    "C01": dict(
        mc=[("MergeMC", "MergeMC_lww.cfg")],
        parts=[dict(driver="merge", args=["--focus", "lww"], trace="MergeTrace", cfg="MergeTrace.cfg",
                    gen=[("MergeGen", "MergeGen_lww_3.cfg")], gen_thorough=[("MergeGen", "MergeGen_lww_4.cfg")],
                    kinds=MERGE_KINDS)]),
    "C02": dict(
        mc=[("MergeMC", "MergeMC_compact.cfg")],
        parts=[dict(driver="merge", args=["--focus", "compact"], trace="MergeTrace", cfg="MergeTrace.cfg",
                    gen=[("MergeGen", "MergeGen_compact_3.cfg")], gen_thorough=[("MergeGen", "MergeGen_compact_4.cfg")],
                    kinds=MERGE_KINDS | {"KNOWN-compaction-ignores-own-block"})]),
    "C17": dict(
        mc=[],
        parts=[dict(driver="merge", args=["--focus", "query"], trace="MergeTrace", cfg="MergeTrace.cfg",
                    kinds={"query", "query-error", "page-size"}),
               dict(driver="serve", args=[], trace="ServeTrace", cfg="ServeTrace.cfg",
                    kinds={"query", "query-error", "page-size", "routing"})]),
    "C10": dict(
        mc=[],
        parts=[dict(driver="validate", args=["--focus", "message"], trace="ValidateTrace",
                    gen=[("ValidateGen", "ValidateGen_quick.cfg")], gen_thorough=[("ValidateGen", "ValidateGen_wide.cfg")])]),
    "C12": dict(
        mc=[],
        parts=[dict(driver="validate", args=["--focus", "verify"], trace="ValidateTrace")]),
    "C03": dict(
        mc=[("ShardMC", "ShardMC_limits.cfg")], mc_thorough=[("ShardMC", "ShardMC_limits_wide.cfg")],
        parts=[dict(driver="shard", args=["--focus", "limits"], trace="ShardTrace",
                    kinds={"prune-events", "proposal", "proposal-messages", "live", "KNOWN-prune-sees-committed-only",
                           "KNOWN-prune-counts-emptied-type", "KNOWN-prune-misses-new-rent"}),
               dict(driver="shard", args=["--focus", "tables"], trace="ShardTrace", kinds={"allowance"})]),
    "C04": dict(
        mc=[("EngineMC", "EngineMC.cfg")], mc_thorough=[("EngineMC", "EngineMC_wide.cfg")],
        parts=[dict(driver="shard", args=["--focus", "agree"], trace="ShardTrace",
                    kinds={"nodes-differ", "verdict", "tree", "proposal", "proposal-messages", "proposal-left-a-trace",
                           "wrong-root-accepted", "KNOWN-name-proof-leaves-tree"})]),
    "C06": dict(
        mc=[("ShardMC", "ShardMC_stream.cfg")], mc_thorough=[("ShardMC", "ShardMC_stream_wide.cfg")],
        parts=[dict(driver="shard", args=["--focus", "stream"], trace="ShardTrace",
                    kinds={"events", "refusal", "ids", "replay", "pages", "stream", "block-events", "live", "KNOWN-removal-of-superseded"}),
               dict(driver="shard", args=["--focus", "tables"], trace="ShardTrace", kinds={"ids"}),
               dict(driver="serve", args=[], trace="ServeTrace", cfg="ServeTrace.cfg",
                    kinds={"served-events", "served-stream", "ids"})]),
    "C08": dict(
        mc=[("EngineMC", "EngineMC_crash.cfg")], mc_thorough=[("EngineMC", "EngineMC_wide.cfg")],
        parts=[dict(driver="shard", args=["--focus", "crash"], trace="ShardTrace",
                    kinds={"crash-height", "crash-state", "crash-events", "crash-end"})]),
    "C13": dict(
        mc=[("ShardMC", "ShardMC_names.cfg")], mc_thorough=[("ShardMC", "ShardMC_names_wide.cfg")],
        parts=[dict(driver="shard", args=["--focus", "names"], trace="ShardTrace",
                    kinds={"name-events", "name-refusal", "names", "owner-lookup", "KNOWN-owner-of-two-names",
                           "KNOWN-other-name-withdrawn", "KNOWN-rejected-transfer-withdraws", "KNOWN-name-set-as-it-moves"})]),
    "C23": dict(
        mc=[],
        parts=[dict(driver="http", args=[], trace="HttpTrace", gen=[("HttpGen", "HttpGen.cfg", dict(workers=1))])]),
    "C09": dict(
        mc=[("MempoolMC", "MempoolMC.cfg")], mc_thorough=[("MempoolMC", "MempoolMC_wide.cfg")],
        parts=[dict(driver="mempool", args=[], trace="MempoolTrace", gen=[("MempoolGen", "MempoolGen.cfg")])]),
    "C16": dict(
        mc=[("OnchainMC", "OnchainMC.cfg")], mc_thorough=[("OnchainMC", "OnchainMC_wide.cfg")],
        parts=[dict(driver="onchain", args=[], trace="OnchainTrace", gen=[("OnchainGen", "OnchainGen.cfg")]),
               dict(driver="ingest", args=[], trace="IngestTrace")]),
    "C11": dict(
        mc=[("KeysMC", "KeysMC.cfg")], mc_thorough=[("KeysMC", "KeysMC_wide.cfg")],
        parts=[dict(driver="keys", args=[], trace="KeysTrace", gen=[("KeysGen", "KeysGen.cfg")]),
               dict(driver="validate", args=["--focus", "key"], trace="ValidateTrace")]),
    "C05": dict(
        mc=[("TrieMC", "TrieMC.cfg")], mc_thorough=[("TrieMC", "TrieMC_wide.cfg")],
        parts=[dict(driver="trie", args=[], trace="TrieTrace")]),
    "C07": dict(
        mc=[("ConsensusMC", "ConsensusMC_rounds.cfg")], mc_thorough=[("ConsensusMC", "ConsensusMC_both.cfg")],
        parts=[dict(driver="consensus", args=["--focus", "proposals"], trace="ConsensusTrace")]),
    "C20": dict(
        mc=[("ConsensusMC", "ConsensusMC.cfg")], mc_thorough=[("ConsensusMC", "ConsensusMC_wide.cfg")],
        parts=[dict(driver="consensus", args=["--focus", "certificates"], trace="ConsensusTrace")]),
    "C15": dict(
        mc=[("ChannelsMC", "ChannelsMC.cfg")], mc_thorough=[("ChannelsMC", "ChannelsMC_wide.cfg")],
        parts=[dict(driver="channels", args=[], trace="ChannelsTrace", gen=[("ChannelsGen", "ChannelsGen.cfg", dict(workers=1))])]),
    "C14": dict(
        mc=[("StorageMC", "StorageMC.cfg")], mc_thorough=[("StorageMC", "StorageMC_wide.cfg")],
        parts=[dict(driver="storage", args=[], trace="StorageTrace")]),
    "C22": dict(
        mc=[("SnapshotMC", "SnapshotMC.cfg")], mc_thorough=[("SnapshotMC", "SnapshotMC_wide.cfg")],
        parts=[dict(driver="snapshot", args=[], trace="SnapshotTrace", gen=[("SnapshotGen", "SnapshotGen.cfg")])]),
    "C24": dict(
        mc=[("MeshMC", "MeshMC.cfg")], mc_thorough=[("MeshMC", "MeshMC_wide.cfg")],
        parts=[dict(driver="mesh", args=[], trace="MeshTrace", gen=[("MeshGen", "MeshGen.cfg")])]),
    "C25": dict(
        mc=[("ConfigMC", "ConfigMC.cfg")], mc_thorough=[("ConfigMC", "ConfigMC_wide.cfg")],
        parts=[dict(driver="config", args=[], trace="ConfigTrace", gen=[("ConfigPullGen", "ConfigPullGen.cfg")])]),
    "C26": dict(
        mc=[("ConfigPullMC", "ConfigPullMC.cfg")], mc_thorough=[("ConfigPullMC", "ConfigPullMC_wide.cfg")],
        parts=[dict(driver="fc", args=[], trace="ConfigPullTrace", gen=[("ConfigPullGen", "ConfigPullGen.cfg")])]),
    "C19": dict(
        mc=[("FanOutMC", "FanOutMC.cfg")], mc_thorough=[("FanOutMC", "FanOutMC_wide.cfg")],
        parts=[dict(driver="fanout", args=[], trace="FanOutTrace")]),
    "C21": dict(
        mc=[("RestoreMC", "RestoreMC.cfg")], mc_thorough=[("RestoreMC", "RestoreMC_wide.cfg")],
        parts=[dict(driver="restore", args=[], trace="RestoreTrace")]),
    "C18": dict(
        mc=[("VersionsMC", "VersionsMC.cfg")],
        parts=[dict(driver="versions", args=[], trace="VersionsTrace", gen=[("VersionsGen", "VersionsGen.cfg")])]),
    "C27": dict(
        mc=[("AuthMC", "AuthMC.cfg")], mc_thorough=[("AuthMC", "AuthMC_wide.cfg")],
        parts=[dict(driver="auth", args=[], trace="AuthTrace", gen=[("AuthGen", "AuthGen.cfg")])]),
}

TECHNIQUE = "TLA+ specification model-checked with TLC; TLC judges traces of the real code (spec-generated and seeded histories)"
NOTE = ("The specification is explored exhaustively within small bounds; the code is bound to it by replaying every generated "
        "behaviour and by recorded random histories, so the code is tested, not proved. RocksDB is replaced by an in-memory "
        "stand-in and the consensus engine crates by minimal stubs; timestamps and ids are abstracted to ranks and names.")
NOT_CLAIMED = {}
