#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate it)."""
import json, os

P = []


def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=quant),
        why_tests_cant=why,
        anchors=dict(
            files=list(files),
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))


ACC = "src/storage/store/account/"

prop("C01", "User messages merge to one outcome whatever order they arrive in",
     "For every account, the set of live casts, links, reactions and profile fields left after a set of valid add and remove messages has been merged one at a time depends only on that set, never on the order or repetition of the submissions (storage limits aside). For two messages about the same thing the later timestamp wins, then a removal beats an addition, then the larger hash wins; a cast removal always beats the cast. A message that loses, or is already present, is refused with an error and changes nothing.",
     ["inputs", "histories"], "every multiset of messages, every arrival order and duplication",
     "The store tests walk a few hand-written pairs; convergence quantifies over all permutations of all message sets.",
     [ACC + "store.rs", ACC + "cast_store.rs", ACC + "link_store.rs", ACC + "reaction_store.rs", ACC + "user_data_store.rs", ACC + "message.rs"],
     [("merge / get_merge_conflicts / message_compare", ACC + "store.rs"), ("per-type conflict rules", ACC + "cast_store.rs")],
     observe=["store query results after each merge", "hub events"])

prop("C02", "A compaction message leaves exactly the links it names",
     "When a link-compaction message is accepted, every stored link message of that account and type that is not newer than it is dropped, except additions whose target it lists. Afterwards an older addition to an unlisted target or an older removal is refused, newer messages merge normally, other link types and other accounts are untouched, and an older compaction never replaces a newer one.",
     ["inputs", "histories"], "every interleaving of link adds, removes and compactions over accounts, types and targets",
     "The unit tests try one compaction against one or two links.",
     [ACC + "link_store.rs", ACC + "store.rs"],
     [("merge_compact_state, find_conflicts", ACC + "store.rs"), ("compact state handling", ACC + "link_store.rs")])

prop("C03", "Storage limits are enforced by dropping the oldest messages only",
     "The number of messages an account may keep of each type is its active storage units times the per-unit allowance of each unit kind, and an account without storage can store nothing. When a block leaves an account above its limit, the messages with the smallest timestamps of that type are dropped (never compaction messages) until the count is within the limit, and each drop is reported by one event.",
     ["inputs", "histories"], "every sequence of rents, merges and expiries",
     "Tests use one or two limits and one type at a time.",
     [ACC + "store.rs", "src/storage/store/stores.rs", "src/storage/store/engine.rs"],
     [("prune_messages", ACC + "store.rs"), ("StoreLimits::max_messages, is_pruned", "src/storage/store/stores.rs")])

prop("C04", "Proposer, validator and replayer reach the same state from the same block",
     "For every history of blocks, a node that proposes, one that validates and one that only replays committed chunks end each block with the same state root, the same messages and the same events, and its state tree holds exactly the keys of the live records; a proposal that is never committed leaves no trace. A proposal whose claimed root does not match the recomputed one is rejected by validation.",
     ["histories", "schedules", "inputs"], "every mix of user messages, onchain events, fname transfers and cross-shard events, and every abandoned or retried proposal",
     "Engine tests replay single scenarios on one engine; agreement quantifies over all histories and abandoned rounds.",
     ["src/storage/store/engine.rs", "src/storage/store/block_engine.rs"],
     [("propose/validate/commit path", "src/storage/store/engine.rs"), ("cached transaction reuse on commit", "src/storage/store/engine.rs")])

prop("C05", "The state tree is a canonical, order-independent commitment to its key set",
     "The root hash, the hashes, counts and children at every prefix, the membership answers and the (paged) listings of the state tree are a function of the set of keys in it alone: any sequence of inserts and deletes, in any batching, with any commit, rollback, reload or restart in between, that ends in the same set gives the same answers. Inserting a present key or deleting an absent one changes nothing and says so, rolled-back changes vanish, committed ones survive, and different key sets give different roots. A walk in pages lists every key of a subtree once, in order, whoever continues it, and a page token that was tampered with is refused. Every record has its own key: virtual shard, account and kind come first (a loan is entered under lender and borrower, a name is padded to 20 bytes), a key decodes to what it was made from, and every hub event adds and removes exactly the keys of the records it adds and removes.",
     ["inputs", "histories"], "every sequence of insert/delete/commit/rollback/reload over any key set, every page size and token, every kind of event",
     "Tests insert a handful of keys in fixed orders.",
     ["src/storage/trie/merkle_trie.rs", "src/storage/trie/trie_node.rs", "src/storage/trie/util.rs"],
     [("insert/delete/compaction of single-child nodes", "src/storage/trie/trie_node.rs"), ("TrieKey, update, reload, paging", "src/storage/trie/merkle_trie.rs"), ("page tokens", "src/storage/trie/util.rs")])

prop("C06", "The event stream is a complete, ordered and replayable log of state changes",
     "Every change to an account's live data appears in exactly one event, events of a block carry strictly increasing identifiers that sort by block height, and applying the events in order to an empty copy reproduces the live data. A message that could not be merged yields a failure event and no change, and paging through events from any identifier returns each event once.",
     ["histories", "inputs"], "every block history and every resume point",
     "Tests look at the events of single messages.",
     [ACC + "event.rs", "src/storage/store/engine.rs"],
     [("StoreEventHandler::commit_transaction, HubEventIdGenerator", ACC + "event.rs")])

prop("C07", "Proposals are accepted only as the next block, and each round holds one",
     "Every proposal a validator makes is for the height after the last one decided, carries the hash of the block decided before it (a fixed value at the first height), hashes its own header, and, for a block, names one chunk of each shard under the hash its header states; the other validators find it valid, whatever spoilt proposals they were sent before. A proposal for another height, of the wrong kind, on another network, with a protocol version not in force, with missing, surplus or altered shard witnesses, or whose transactions do not give the account roots, state root and events hash it states, is never valid. A validator asked again for the proposal of a round, before or after a restart, gives the same one, and no other round's. What is decided is stored as it was proposed, with its certificate, and all proposals of decided heights are forgotten, none of a later height.",
     ["inputs", "histories", "crash_points"], "every proposal of every chain, every single-field corruption of one at every height, every restart between rounds",
     "No test proposes with the real proposers, corrupts a proposal or restarts a validator.",
     ["src/consensus/proposer.rs", "src/consensus/validator.rs", "src/storage/store/node_local_state.rs", "src/storage/store/block_engine.rs", "src/storage/store/engine.rs"],
     [("ShardProposer/BlockProposer::add_proposed_value", "src/consensus/proposer.rs"), ("ProposedValues", "src/consensus/proposer.rs"), ("ShardValidator::propose_value", "src/consensus/validator.rs"), ("put_proposal, delete_proposals", "src/storage/store/node_local_state.rs")])

prop("C08", "A crash at any write leaves a node that recovers to the agreed state",
     "If a node stops after any prefix of its database writes while committing blocks, then on restart it resumes at the last height that is fully stored, can commit the remaining blocks, and ends with exactly the state, events and root of a node that never stopped. No block is lost or applied twice.",
     ["crash_points", "histories"], "every prefix of the write sequence of every history",
     "No test interrupts a commit between two writes.",
     ["src/storage/store/engine.rs", "src/storage/store/block_engine.rs", "src/storage/db/rocksdb.rs"],
     [("commit_and_emit_events, put_shard_chunk", "src/storage/store/engine.rs")])

prop("C09", "The mempool routes, admits, orders and hands out each message correctly",
     "Every account has one shard, fixed by its fid and the shard count; a submitted user message is queued for that shard, or for shard 0 if it is a storage loan, offchain key or channel message or (from V21) a verification; onchain events go to shard 0 and the account's shard, name transfers to every shard (since V5). A shard's queue holds a message at most once and only the newest live_at of an account; a message that is malformed, already queued, already stored, or of a feature not yet active is refused, and a block's messages leave the queue when the block is decided. Messages are handed out at most once, onchain events, name transfers and block events before user messages, each class in time order, and the block events of one block in sequence order. Submissions beyond an account's hourly allowance (a tenth of its storage, at least 100; 5000 live_at per storage unit; one key addition per minute) are refused, new storage raises it, and refused or unvalidatable input never stops the mempool. Only accepted user messages that did not come from gossip are gossiped.",
     ["inputs", "schedules", "histories"], "every interleaving of submissions, pulls and commits",
     "Tests submit a few messages in a fixed order.",
     ["src/mempool/mempool.rs", "src/mempool/routing.rs"],
     [("Mempool::insert / pull_messages / remove_committed_txns", "src/mempool/mempool.rs"), ("route_fid/route_message", "src/mempool/routing.rs"), ("RateLimits, KeyAddRateLimits, LiveAtRateLimits", "src/mempool/mempool.rs")])

prop("C10", "Only well-formed, authentic messages are accepted",
     "A message is accepted only if its hash is the hash of its content, its signature verifies under its declared signer and scheme, its network matches, its timestamp is not too far in the future, its size is within the limit, and its body satisfies the published length, range, count, character and mutual-exclusion rules of its type. Every message that satisfies all rules is accepted, and each broken rule is refused.",
     ["inputs"], "every message, at and around each rule boundary, and every single corruption",
     "Tests cover some boundaries of some fields.",
     ["src/core/validations/message.rs", "src/core/validations/cast.rs", "src/core/validations/link.rs", "src/core/validations/reaction.rs"],
     [("validate_message", "src/core/validations/message.rs"), ("validate_cast_add_body", "src/core/validations/cast.rs")])

prop("C11", "Only a currently authorised key can act for an account",
     "A user message takes effect only if its signing key is active for that account at that point of the history: added on chain and not removed there, or added by an offchain request, not removed since, used within its time-to-live, and allowed for that kind of message. A request to add an offchain key is taken only if the account's custody address signed exactly it and its deadline has not passed, the app named in it asked for that key with its own custody address and an unexpired deadline, its nonce is newer than every one used, its scopes and time-to-live are permitted, the key belongs to no other account or app and is not on chain, and the account stays within 1000 offchain keys. A request to remove one needs the custody address or the key itself, the same deadline rule and a fresh nonce. No request signed by a custody address takes effect twice, and what is kept (records, owners, counts, nonces, last use) always agrees.",
     ["inputs", "histories"], "every history of onchain signer events, offchain key additions/removals, uses and clock advances",
     "Tests follow a few scripted histories.",
     ["src/core/validations/key.rs", ACC + "active_key.rs", ACC + "key_add_store.rs", ACC + "key_nonce_store.rs", ACC + "gasless_key_merge.rs", ACC + "key_last_used_at_store.rs"],
     [("validate_key_add_body / validate_key_remove_body", "src/core/validations/key.rs"), ("active key lookup", ACC + "active_key.rs"), ("merge_key_add / merge_key_remove", ACC + "gasless_key_merge.rs")])

prop("C12", "A verified address is always backed by a proof of ownership",
     "An address verification is accepted only with a signature by that address (or accepted by the contract at that address on the named chain) over exactly this account, network, address, protocol and block hash. Any change to any of these makes the proof invalid, and an address or proof of the wrong length, protocol, chain or type is refused.",
     ["inputs"], "every claim and every single-field mutation of a valid claim",
     "Tests check one valid and a couple of invalid claims.",
     ["src/core/validations/verification.rs", "src/core/validations/contract_signature.rs"],
     [("validate_add_address", "src/core/validations/verification.rs"), ("verify_contract_signature", "src/core/validations/contract_signature.rs")])

prop("C13", "A username belongs to at most one account, which must own it to display it",
     "At any time a name is owned by at most one account: the newest proof wins, an older or equal one is refused, and looking up by name and by owner always agree. An account can set a name as its username only while it owns it, and when the name moves away the setting is withdrawn.",
     ["inputs", "histories"], "every history of transfers, proofs, username settings and removals over names and accounts",
     "Tests transfer one or two names once.",
     [ACC + "username_proof_store.rs", ACC + "name_registry_events.rs", ACC + "user_data_store.rs", "src/storage/store/engine.rs"],
     [("merge_username_proof", ACC + "user_data_store.rs"), ("username ownership check", "src/storage/store/engine.rs")])

prop("C14", "Storage units are conserved between renting, lending and expiry",
     "An account's usable storage of each unit kind is exactly what it rented and has not expired, less what it lends out (never below zero), plus what is lent to it; a rent's kind and end follow from its purchase time, and the slot as a whole expires with its earliest active rent (never, if the account has only borrowed units). A loan counts for exactly one borrower and lasts until the lender changes or ends it, even if the lender's own rents expire. A loan is taken only if it is newer than the lender's last word to that borrower, is not more than ten minutes late, is covered by units the lender bought (borrowed ones cannot be lent on) with at least one left, and on mainnet if the lender had bought at least 1000 units of that kind; shrinking or ending a loan returns the units. Message limits are the sum over the units of each kind's allowance.",
     ["inputs", "histories"], "every history of rents, loans, returns and clock advances",
     "Tests check a few loans at fixed times.",
     [ACC + "storage_lend_store.rs", ACC + "onchain_event_store.rs", "src/storage/store/block_engine.rs", "src/storage/store/stores.rs"],
     [("merge/limits of lends", ACC + "storage_lend_store.rs"), ("StorageSlot arithmetic", ACC + "onchain_event_store.rs")])

prop("C15", "Channel ownership, membership, roles and follows follow the channel rules",
     "The owner of a channel is the account with the latest live verification of the address the chain names as its owner (lower account on an exact tie); a channel without one is parked, and nothing but a member's own leaving is taken there. Settings come from the owner only, pins and moderation from the owner or a moderator; who may add, remove, promote, demote, ban and unban whom is decided by the author's role, the target's state and the membership mode (absent or unset modes mean the strictest), the owner can never be banned, a ban ends only by unbanning, a channel has at most 10 live moderators and bounded member and moderation rows. A message not allowed is not taken; one taken has exactly its specified effect, the latest in shard 0's order replacing the earlier whatever times they claim, and every data shard that replays the block events holds the same rows, indexes, counts and pages. An account follows a channel exactly while its like of the channel's one canonical address (from the network's registrar) is live and was merged with the feature on.",
     ["inputs", "histories"], "every history of channel registrations, verifications, channel messages and reactions by every role, and every target address",
     "Tests run scripted sequences of a few actions.",
     [ACC + "channel_store.rs", "src/storage/store/block_engine.rs", "src/core/channel_uri.rs", ACC + "reaction_store.rs"],
     [("slots, indexes and counts", ACC + "channel_store.rs"), ("channel_member_authority, validate_channel_message, resolve_channel_owner_fid", "src/storage/store/block_engine.rs"), ("channel addresses", "src/core/channel_uri.rs"), ("follow index", ACC + "reaction_store.rs"), ("select_verification_address_winner", ACC + "verification_store.rs")],
     observe=["which messages a block merges", "store reads on shard 0 and a data shard", "parsed addresses"])

prop("C16", "Chain events and name transfers are read, applied and summed exactly once",
     "Every log of a watched registry contract, and every name transfer of the name server, is submitted with the content it has at its source, and the recorded reading position never passes one that was not submitted, whatever faults and restarts occur. An event is stored at most once and listed in block and log order; redelivery changes nothing. The derived facts (custody address, active keys, accounts, tier expiry, channel owner, expiry and labels) are those of the applicable events stored, an event of an older block never replacing a newer one.",
     ["inputs", "histories"], "every chain content, delivery order, duplication, transaction boundary, fault and restart",
     "Tests deliver a few well-formed events once, in order.",
     [ACC + "onchain_event_store.rs", "src/connectors/onchain_events/mod.rs", "src/connectors/onchain_events/ens.rs", "src/connectors/fname/mod.rs"],
     [("merge_onchain_event and per-type indices", ACC + "onchain_event_store.rs"), ("log decoding and block cursors", "src/connectors/onchain_events/mod.rs"), ("transfer fetching", "src/connectors/fname/mod.rs")],
     observe=["store queries", "messages sent to the mempool", "recorded block and transfer numbers"])

prop("C17", "Queries return exactly the live data, in order, page by page",
     "Every list query (by account, by target, by parent, by mention, by type, by time range, forwards or backwards) returns exactly the live messages that match, in timestamp order (within each shard, where several shards answer); walking the pages of any size yields each match once and ends. Secondary lookups always agree with the primary data after any history.",
     ["inputs", "histories"], "every live set, filter, direction and page size",
     "Tests page over a handful of messages.",
     [ACC + "store.rs", ACC + "cast_store.rs", ACC + "link_store.rs", ACC + "reaction_store.rs", "src/storage/db/rocksdb.rs", "src/storage/util.rs", "src/network/server.rs", "src/network/rpc_extensions.rs"],
     [("get_all_by_fid and by_* iterators", ACC + "store.rs"), ("fan_out_messages", "src/network/server.rs"), ("for_each_iterator_by_prefix_paged", "src/storage/db/rocksdb.rs"), ("increment_vec_u8", "src/storage/util.rs")])

prop("C18", "Protocol features switch on exactly at their scheduled times, and stay on",
     "For each network the protocol version at a time is that of the latest schedule entry not after it, so versions never go backwards, and a feature is active exactly from the first version that introduces it (until one that ends it, if any). All nodes with the same schedule agree for every time.",
     ["inputs", "configurations"], "every network, every timestamp, every feature",
     "Tests sample a few timestamps.",
     ["src/version/version.rs"],
     [("EngineVersion::version_for, is_enabled", "src/version/version.rs")])

prop("C19", "Cross-shard events reach every shard exactly once and in order",
     "Every event produced on the root shard is delivered to and applied by every data shard exactly once, in sequence order, even with redelivery, gaps, reordering or restarts in between. A gap is requested and filled before anything after it is applied.",
     ["schedules", "histories", "fault_sequences"], "every delivery schedule of blocks, with loss, duplication and restart",
     "Tests deliver a few blocks in order with one gap.",
     ["src/mempool/block_receiver.rs", ACC + "block_event_store.rs", "src/storage/store/engine.rs"],
     [("BlockReceiver", "src/mempool/block_receiver.rs"), ("block event merge by sequence number", "src/storage/store/engine.rs")])

prop("C20", "Scheduled validator sets; followers commit only certified consecutive blocks",
     "The validators of a shard at a height are those of the configuration entry that names the shard and took effect latest, at or before that height (before any has, the first entry), each once and in the same order on every node however the entry lists them; the proposer of a height and round goes round that order. A certificate is good only with valid precommits, for exactly its height, round and value, of more than two thirds of the validators in force at its height, each counted once, and of nobody else. A node that follows the chain commits a decided value only if its certificate is good and is for that value and height, and, for a block, its protocol version is the one in force (otherwise it also asks to be stopped); values further ahead are held back, up to a limit, and applied in order; nothing is committed twice, skipped or lost while held, and malformed values change nothing. After a restart it goes on from its last committed height, and it hands out exactly what it committed.",
     ["schedules", "inputs", "fault_sequences"], "every schedule of validator sets, every certificate over them, every order of deliveries with gaps, duplicates, forgeries and restarts",
     "Tests use one validator, and deliver a few values in order.",
     ["src/consensus/validator.rs", "src/consensus/consensus.rs", "src/core/types.rs", "src/core/util.rs", "src/consensus/read_validator.rs"],
     [("StoredValidatorSets::get_validator_set", "src/consensus/validator.rs"), ("SnapchainValidatorSet::add, select_proposer", "src/core/types.rs"), ("verify_signatures", "src/core/util.rs"), ("ReadValidator::process_decided_value", "src/consensus/read_validator.rs"), ("Config::latest_validator_public_keys", "src/consensus/consensus.rs")])

prop("C21", "A node restored by replication has the state of the node it copied",
     "A node bootstrapped from replicated account transactions ends with the same root, messages, onchain events and answers as its source at the snapshot height, whatever the page sizes, work split, retries and interruptions. Data that does not add up to the advertised root is refused.",
     ["inputs", "schedules", "fault_sequences"], "every source state, paging, interruption point and corrupted response",
     "Tests replicate a small fixed state with mocks.",
     ["src/network/replication/replicator.rs", "src/bootstrap/replication/service.rs", "src/bootstrap/replication/rpc_client.rs"],
     [("fid transaction listing", "src/network/replication/replicator.rs"), ("replay and root check", "src/bootstrap/replication/service.rs")])

prop("C22", "Backups, chunked archives and pruning jobs keep exactly what they should",
     "A chunked archive holds the written bytes, whole and in order: a piece that no longer fits the current part starts the next numbered part. An upload puts every chunk of the shard before the description that names them, in their order, and clearing then removes the older snapshots of that shard and nothing of any other shard. A download restores exactly the latest snapshot of each shard asked for: a chunk that fails to come or is cut short is asked for again a few times, and a shard whose chunks do not all come, or cannot be read, is not unpacked and fails the download. The backup job restores to the same database content, does not disturb a backup under way and clears leftovers older than twelve hours. Pruning (blocks and shard chunks only once sync is complete, events always) removes everything below the first block at or after the retention horizon, nothing else, and nothing at all when no block is that new.",
     ["inputs", "fault_sequences", "histories"], "every sequence of written pieces and part size, every history of uploads, failures and downloads over several shards, every chain of blocks, retention setting and sequence of prunings",
     "Tests write one or two pieces and prune one regular chain; nothing tests uploading or downloading.",
     ["src/storage/db/multi_chunk_writer.rs", "src/storage/db/snapshot.rs", "src/storage/db/backup.rs", "src/jobs/block_pruning.rs", "src/jobs/event_pruning.rs", "src/jobs/snapshot_upload.rs"],
     [("MultiChunkWriter", "src/storage/db/multi_chunk_writer.rs"), ("upload_to_s3", "src/storage/db/snapshot.rs"), ("download_snapshots", "src/storage/db/snapshot.rs"), ("block_pruning_job", "src/jobs/block_pruning.rs"), ("event_pruning_job", "src/jobs/event_pruning.rs"), ("upload_snapshot", "src/jobs/snapshot_upload.rs")])

prop("C23", "The HTTP gateway shows and asks exactly what the node means",
     "Every message, event and answer of the node is rendered to JSON with each field in its documented form and nothing lost, swapped or invented. Each HTTP query, in either spelling of its parameters, becomes exactly the equivalent request to the node, credentials included, and submitted bytes are decoded unchanged. Malformed input is refused without asking the node, and unknown paths are not found.",
    ["inputs"], "every message type, body variant and query parameter combination",
     "Tests convert a handful of messages.",
     ["src/network/http_server.rs"],
     [("map_proto_*_to_json_*", "src/network/http_server.rs")])

prop("C24", "The mesh view reports the network as the observations imply",
     "Mesh pages and their JSON show each peer with the role, links, rates, names and addresses its observations imply: validators are recognised by their key, a link is mesh membership or direct peering with a subscription, a configured node replaces every built-in node it shares a key with, and no private address is offered. A crawl asks exactly the connected validators and accounts for all others. Cached views are reused only while fresh, per question, and failures are never kept.",
    ["inputs", "histories"], "every set of peers, contact records, probe results and clock values",
     "Tests render a few fixtures.",
     ["src/network/mesh/nodes.rs", "src/network/mesh/render.rs", "src/network/mesh/cache.rs", "src/network/mesh/view.rs", "src/network/mesh/metrics.rs"],
     [("node table", "src/network/mesh/nodes.rs"), ("render", "src/network/mesh/render.rs"), ("cache", "src/network/mesh/cache.rs")])

prop("C25", "Configuration layering and validator-set selection are exact",
     "Every setting of a loaded configuration comes from the command line if given, else the environment, else the file, else its documented default; clearing the database and check-only mode come from the command line alone. A missing or unparsable file, unknown arguments or an ill-typed effective value are refused without showing the file's text; a value hidden by a later layer does no harm, and a check-only run changes nothing. The validator set in force at a height and shard is the one configured for that shard with the greatest starting height not after it, each key once, proposers rotating over it in address order; the newest validators are the union over shards of each shard's last set.",
     ["configurations", "inputs"], "every combination of settings and every height",
     "Tests load a few files.",
     ["src/cfg.rs", "src/consensus/consensus.rs"],
     [("load_and_merge_config", "src/cfg.rs"), ("validator set selection", "src/consensus/consensus.rs")])

prop("C26", "A config pull changes only the managed keys; restart slots never collide",
     "Pulling the onchain configuration replaces exactly the validator sets, bootstrap peers and direct peers of the local file with those of one registry document (a non-empty local bootstrap list survives when asked) and keeps every other value, the file's permissions and any edit made meanwhile; the version it reports belongs to that same document. A wrong network or chain, a read node, or a malformed, unseeded or inconsistent document is refused and leaves the file as it was. Environment values win over the file, and no credential is ever printed. A validator's restart slot is the rank of its key in the sorted set of all listed keys, and a key that is not listed gets the slot after the last.",
     ["inputs", "fault_sequences"], "every file, document, endpoint behaviour, environment and history of pulls and registry changes",
     "Tests check single functions on a few documents.",
     ["cli/src/config_pull.rs", "cli/src/config_slot.rs"],
     [("validate, splice and replace", "cli/src/config_pull.rs"), ("slot in the key set", "cli/src/config_slot.rs")])

prop("C27", "Guarded calls answer only a caller with a configured name and password",
     "Submitting messages, the mesh diagnostics and the operator's commands are each guarded by a list of names and passwords of their own. While a list names anybody, a call it guards is answered exactly for a caller whose authorization header is Basic and carries a listed name with the password listed for it (the last one, if a name is listed twice); any other caller gets an unauthenticated refusal and the call has no effect: nothing reaches the mempool or the network and nothing kept from an earlier answer is shown. A pair from one list opens nothing another list guards, the HTTP gateway admits exactly the callers the node itself would, reading calls ask for nothing, and a list that names nobody leaves its calls open.",
     ["inputs", "configurations"], "every setting, header and order of calls",
     "Tests try one right and one wrong password on one call.",
     ["src/network/rpc_extensions.rs", "src/network/server.rs", "src/network/admin_server.rs", "src/network/http_server.rs"],
     [("authenticate_request", "src/network/rpc_extensions.rs"), ("settings read into lists", "src/network/server.rs"), ("operator commands", "src/network/admin_server.rs")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
