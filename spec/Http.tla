-------------------------------- MODULE Http --------------------------------
(***************************************************************************)
(* The HTTP gateway: which binary request every documented URL stands for, *)
(* and the JSON form of every documented answer.                           *)
(*                                                                         *)
(* Two tables are the whole of it.  `Endpoints` gives, for each path, the  *)
(* remote procedure it calls and the spelling and form of each query       *)
(* parameter.  `Shape` gives, for each protocol message, the JSON name and *)
(* the JSON form of each of its fields.  Everything else - what a given    *)
(* query calls, which status it answers, which JSON a given answer turns   *)
(* into - is computed from those tables by the operators below.            *)
(*                                                                         *)
(* A protocol value is a tree: [k |-> "n", t |-> "7"] a number, "z" a      *)
(* boolean, "s" a text, "e" an enumeration constant (t its name), "b" a    *)
(* byte string with each of its spellings (x hex, b base64, s base58, t    *)
(* text, a list of decimals), "l" a list, "p" a map, "m" a message (m its  *)
(* type, f its fields).  JSON is the set of its leaves <<path, text>>;     *)
(* nulls and empty arrays have no leaves.                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC


(***************************************************************************)
(* Query parameters.  P(names, form, field, mode): the accepted spellings, *)
(* the first present one counting; the form of the value; the request      *)
(* field it sets; "req" must be given, "opt" is left out of the request    *)
(* when not given, "def" is a plain field of the request, whose default    *)
(* is the zero of its type.                                                *)
(***************************************************************************)
P(names, form, field, mode) == [names |-> names, form |-> form, field |-> field, mode |-> mode]
Ep(path, rpc, resp, ps) == [path |-> path, rpc |-> rpc, resp |-> resp, params |-> ps]

Elems(s) == {s[k] : k \in DOMAIN s}

Fid == P(<<"fid">>, "u64", "fid", "req")
PageSize == P(<<"page_size", "pageSize">>, "u32", "page_size", "opt")
PageToken == P(<<"page_token", "pageToken">>, "b64", "page_token", "opt")
Backwards == P(<<"reverse">>, "bool", "reverse", "opt")
Page == <<PageSize, PageToken, Backwards>>
ChannelId == P(<<"channelId">>, "hex", "channel_id", "req")

Endpoints == <<
  Ep("/v1/info", "get_info", "GetInfoResponse", <<>>),
  Ep("/v1/fids", "get_fids", "FidsResponse",
     <<P(<<"shard_id">>, "u32", "shard_id", "req")>> \o Page),
  Ep("/v1/castById", "get_cast", "Message",
     <<Fid, P(<<"hash">>, "hex", "hash", "req")>>),
  Ep("/v1/castsByFid", "get_all_cast_messages_by_fid", "MessagesResponse",
     <<Fid>> \o Page \o
     <<P(<<"start_timestamp", "startTimestamp">>, "u64", "start_timestamp", "opt"),
       P(<<"stop_timestamp", "stopTimestamp">>, "u64", "stop_timestamp", "opt")>>),
  Ep("/v1/castsByMention", "get_casts_by_mention", "MessagesResponse", <<Fid>> \o Page),
  Ep("/v1/castsByParent", "get_casts_by_parent", "MessagesResponse",
     <<P(<<"fid">>, "u64", "parent_cast_id.fid", "case"),
       P(<<"hash">>, "hexs", "parent_cast_id.hash", "case"),
       P(<<"url">>, "str", "parent_url", "case")>> \o Page),
  Ep("/v1/reactionById", "get_reaction", "Message",
     <<Fid, P(<<"reaction_type">>, "reaction", "reaction_type", "req"),
       P(<<"target_fid">>, "u64", "target_cast_id.fid", "case"),
       P(<<"target_hash">>, "hexs", "target_cast_id.hash", "case"),
       P(<<"target_url">>, "str", "target_url", "case")>>),
  Ep("/v1/reactionsByFid", "get_reactions_by_fid", "MessagesResponse",
     <<Fid, P(<<"reaction_type">>, "reaction", "reaction_type", "reqopt")>> \o Page),
  Ep("/v1/reactionsByCast", "get_reactions_by_target", "MessagesResponse",
     <<P(<<"target_fid">>, "u64", "target_cast_id.fid", "case"),
       P(<<"target_hash">>, "hexs", "target_cast_id.hash", "case"),
       P(<<"reaction_type">>, "reaction", "reaction_type", "opt")>> \o Page),
  Ep("/v1/reactionsByTarget", "get_reactions_by_target", "MessagesResponse",
     <<P(<<"target_cast_id[fid]">>, "u64", "target_cast_id.fid", "case"),
       P(<<"target_cast_id[hash]">>, "hexs", "target_cast_id.hash", "case"),
       P(<<"url">>, "str", "target_url", "case"),
       P(<<"reaction_type">>, "reaction", "reaction_type", "opt")>> \o Page),
  Ep("/v1/linkById", "get_link", "Message",
     <<Fid, P(<<"link_type">>, "str", "link_type", "req"),
       P(<<"target_fid">>, "u64", "target_fid", "case")>>),
  Ep("/v1/linksByFid", "get_links_by_fid", "MessagesResponse",
     <<Fid, P(<<"link_type">>, "str", "link_type", "opt")>> \o Page),
  Ep("/v1/linksByTargetFid", "get_links_by_target", "MessagesResponse",
     <<P(<<"target_fid">>, "u64", "target_fid", "case"),
       P(<<"link_type">>, "str", "link_type", "opt")>> \o Page),
  Ep("/v1/userDataByFid", "get_user_data_by_fid", "MessagesResponse", <<Fid>> \o Page),
  Ep("/v1/storageLimitsByFid", "get_current_storage_limits_by_fid", "StorageLimitsResponse",
     <<Fid>> \o Page),
  Ep("/v1/userNameProofByName", "get_username_proof", "UserNameProof",
     <<P(<<"name">>, "str8", "name", "req")>>),
  Ep("/v1/userNameProofsByFid", "get_user_name_proofs_by_fid", "UsernameProofsResponse",
     <<Fid>> \o Page),
  Ep("/v1/verificationsByFid", "get_verifications_by_fid", "MessagesResponse", <<Fid>> \o Page),
  Ep("/v1/onChainSignersByFid", "get_on_chain_signers_by_fid", "OnChainEventResponse",
     <<Fid>> \o Page),
  Ep("/v1/signer", "get_signer", "SignerResponse",
     <<Fid, P(<<"signer">>, "hex", "signer", "req")>>),
  Ep("/v1/signersByFid", "get_signers_by_fid", "SignersByFidResponse",
     <<Fid>> \o Page \o <<P(<<"requester_fids", "requesterFids">>, "u64s", "requester_fids", "def")>>),
  Ep("/v1/onChainEventsByFid", "get_on_chain_events", "OnChainEventResponse",
     <<Fid, P(<<"event_type">>, "onchain", "event_type", "req")>> \o Page),
  Ep("/v1/channelOwner", "get_channel_owner", "ChannelOwnerResponse",
     <<P(<<"channel_key">>, "str", "channel_key", "req")>>),
  Ep("/v1/channelsByAddress", "get_channels_by_address", "ChannelsResponse",
     <<P(<<"address">>, "hex", "owner_address", "req")>> \o Page),
  Ep("/v1/channelsByFid", "get_channels_by_fid", "ChannelsResponse",
     <<Fid, PageSize, PageToken>>),
  Ep("/v1/channelMember", "get_channel_member", "ChannelMemberResponse", <<ChannelId, Fid>>),
  Ep("/v1/channelMembers", "get_channel_members", "ChannelMembersResponse",
     <<ChannelId, P(<<"stateFilter", "state_filter">>, "member", "state_filter", "opt")>> \o Page),
  Ep("/v1/channelPin", "get_channel_pin", "ChannelPinResponse", <<ChannelId>>),
  Ep("/v1/channelModerations", "get_channel_moderations", "ChannelModerationsResponse",
     <<ChannelId>> \o Page),
  Ep("/v1/channelMetadata", "get_channel_metadata", "ChannelMetadataResponse", <<ChannelId>>),
  Ep("/v1/channelMembershipsByFid", "get_channel_memberships_by_fid", "ChannelMembershipsResponse",
     <<Fid>> \o Page),
  Ep("/v1/channelFollowers", "get_channel_followers", "ChannelFollowersResponse",
     <<ChannelId>> \o Page),
  Ep("/v1/channelFollowerCount", "get_channel_follower_count", "ChannelFollowerCountResponse",
     <<ChannelId>>),
  Ep("/v1/channelFollows", "get_channel_follows", "ChannelFollowsResponse", <<Fid>> \o Page),
  Ep("/v1/isFollowingChannel", "is_following_channel", "IsFollowingChannelResponse",
     <<Fid, ChannelId>>),
  Ep("/v1/onChainIdRegistryEventByAddress", "get_id_registry_on_chain_event_by_address",
     "OnChainEvent", <<P(<<"address">>, "hex", "address", "req")>>),
  Ep("/v1/fidAddressType", "get_fid_address_type", "FidAddressTypeResponse",
     <<Fid, P(<<"address">>, "hex", "address", "req")>>),
  Ep("/v1/events", "get_events", "EventsResponse",
     <<P(<<"from_event_id">>, "u64", "start_id", "def"),
       P(<<"shard_index">>, "u32", "shard_index", "opt"),
       P(<<"stop_id">>, "u64", "stop_id", "opt")>> \o Page),
  Ep("/v1/eventById", "get_event", "HubEvent",
     <<P(<<"event_id">>, "u64", "id", "req"), P(<<"shard_index">>, "u32", "shard_index", "req")>>),
  Ep("/v1/currentPeers", "get_connected_peers", "GetConnectedPeersResponse", <<>>)
>>

Posts == <<
  Ep("/v1/validateMessage", "validate_message", "ValidationResponse", <<>>),
  Ep("/v1/submitMessage", "submit_message", "Message", <<>>),
  Ep("/v1/submitBulkMessages", "submit_bulk_messages", "SubmitBulkMessagesResponse", <<>>)
>>

EndpointAt(path) == LET s == {e \in Elems(Endpoints \o Posts) : e.path = path}
                    IN CHOOSE e \in s : TRUE
Known(path) == \E e \in Elems(Endpoints) : e.path = path

\* Reads that tell server faults from bad requests; all others answer every
\* failure as a bad request.
SplitsFaults == {"/v1/channelMember", "/v1/channelMembers", "/v1/channelPin",
  "/v1/channelModerations", "/v1/channelMetadata", "/v1/channelMembershipsByFid",
  "/v1/channelFollowers", "/v1/channelFollowerCount", "/v1/channelFollows",
  "/v1/isFollowingChannel"}
FailStatus(path, code) ==
  IF path \in SplitsFaults /\ code \in {"Internal", "DataLoss", "Unknown"} THEN 500 ELSE 400

(***************************************************************************)
(* From a query to a request.  An argument is [n, ok, t]: its spelling, if *)
(* its text is well formed for the parameter's form, and the value it      *)
(* stands for (t the canonical text; for a list, ts).                      *)
(***************************************************************************)
\* an empty page token is no token
Usable(a) == ~(a.ok /\ a.t = "" /\ a.empty)
Given(args, p) ==
  LET hits == {k \in 1..Len(p.names) : \E a \in Elems(args) : a.n = p.names[k] /\ Usable(a)}
  IN IF hits = {} THEN <<>>
     ELSE LET k == CHOOSE x \in hits : \A y \in hits : x <= y
          IN <<CHOOSE a \in Elems(args) : a.n = p.names[k]>>

ParamAt(e, field) == CHOOSE p \in Elems(e.params) : p.field = field
Asked(args, e, field) == Given(args, ParamAt(e, field)) # <<>>
Arg(args, e, field) == Given(args, ParamAt(e, field))[1]

\* Plain fields of the binary request are not sent when they are zero.
Zero(t) == t \in {"", "0", "false"}
Plain(field, t) == IF Zero(t) THEN {} ELSE {<<field, t>>}

\* The target of a lookup: "none" refuses the request.
CastIdFields(args, e, pre, needHash) ==
  LET h == pre \o ".hash" IN
  {<<pre, "{}">>} \cup Plain(pre \o ".fid", Arg(args, e, pre \o ".fid").t)
    \cup (IF Asked(args, e, h) THEN Plain(h, Arg(args, e, h).t) ELSE {})
HashOk(args, e, pre) ==
  LET h == pre \o ".hash" IN ~Asked(args, e, h) \/ Arg(args, e, h).ok

Bad == {<<"refused">>}
CaseFields(e, args) ==
  CASE e.path = "/v1/castsByParent" ->
         IF Asked(args, e, "parent_cast_id.fid") /\ Asked(args, e, "parent_cast_id.hash")
         THEN IF HashOk(args, e, "parent_cast_id")
              THEN CastIdFields(args, e, "parent_cast_id", TRUE) ELSE Bad
         ELSE IF Asked(args, e, "parent_url")
              THEN {<<"parent_url", Arg(args, e, "parent_url").t>>} ELSE Bad
    [] e.path = "/v1/reactionById" ->
         IF Asked(args, e, "target_cast_id.fid")
         THEN IF HashOk(args, e, "target_cast_id")
              THEN CastIdFields(args, e, "target_cast_id", FALSE) ELSE Bad
         ELSE IF Asked(args, e, "target_url")
              THEN {<<"target_url", Arg(args, e, "target_url").t>>} ELSE Bad
    [] e.path = "/v1/reactionsByCast" ->
         IF Asked(args, e, "target_cast_id.fid") /\ HashOk(args, e, "target_cast_id")
         THEN CastIdFields(args, e, "target_cast_id", FALSE) ELSE Bad
    [] e.path = "/v1/reactionsByTarget" ->
         IF Asked(args, e, "target_cast_id.fid") /\ Asked(args, e, "target_cast_id.hash")
         THEN IF HashOk(args, e, "target_cast_id")
              THEN CastIdFields(args, e, "target_cast_id", TRUE) ELSE Bad
         ELSE IF Asked(args, e, "target_cast_id.fid") \/ Asked(args, e, "target_cast_id.hash")
              THEN Bad   \* half a cast id
         ELSE IF Asked(args, e, "target_url")
              THEN {<<"target_url", Arg(args, e, "target_url").t>>} ELSE Bad
    [] e.path \in {"/v1/linkById", "/v1/linksByTargetFid"} ->
         IF Asked(args, e, "target_fid")
         THEN {<<"target_fid", Arg(args, e, "target_fid").t>>} ELSE Bad
    [] OTHER -> {}

\* Every recognised argument is read, used or not; texts of form "hexs" are
\* only read when the target they belong to is used.
ParamOf(e, n) == {p \in Elems(e.params) : n \in Elems(p.names)}
Malformed(e, args) ==
  \/ \E a \in Elems(args) : ~a.ok /\ \E p \in ParamOf(e, a.n) : p.form # "hexs"
  \/ \E p \in Elems(e.params) : p.mode \in {"req", "reqopt"} /\ Given(args, p) = <<>>

Field(args, p) ==
  LET g == Given(args, p) IN
  IF g = <<>> THEN {}
  ELSE IF p.form = "u64s"
       THEN {<<p.field \o "[" \o ToString(k - 1) \o "]", g[1].ts[k]>> : k \in 1..Len(g[1].ts)}
       ELSE IF p.mode \in {"opt", "reqopt"} THEN {<<p.field, g[1].t>>}
       ELSE Plain(p.field, g[1].t)

RequestOf(e, args) ==
  IF Malformed(e, args) THEN Bad
  ELSE LET c == CaseFields(e, args) IN
       IF c = Bad THEN Bad
       ELSE c \cup UNION {Field(args, p) : p \in {q \in Elems(e.params) : q.mode # "case"}}

(***************************************************************************)
(* From an answer to JSON.                                                 *)
(***************************************************************************)
N(j) == <<j, "v">>          \* as it is: number, boolean or text
X(j) == <<j, "0x">>         \* 0x and the hexadecimal digits
B(j) == <<j, "b64">>
U(j) == <<j, "utf8">>
S(j) == <<j, "sub">>        \* a nested message, or a list of them
E(j) == <<j, "v">>          \* an enumeration constant, by its full name
Hidden == <<"", "-">>

Token == <<"nextPageToken", "b64">>

BodyNames == [cast_add_body |-> "castAddBody", cast_remove_body |-> "castRemoveBody",
  reaction_body |-> "reactionBody",
  verification_add_address_body |-> "verificationAddAddressBody",
  verification_remove_body |-> "verificationRemoveBody", user_data_body |-> "userDataBody",
  link_body |-> "linkBody", username_proof_body |-> "usernameProofBody",
  frame_action_body |-> "frameActionBody", link_compact_state_body |-> "linkCompactStateBody",
  lend_storage_body |-> "lendStorageBody", key_add_body |-> "keyAddBody",
  key_remove_body |-> "keyRemoveBody", channel_update_body |-> "channelUpdateBody",
  channel_member_body |-> "channelMemberBody", channel_pin_body |-> "channelPinBody",
  channel_moderate_body |-> "channelModerateBody"]

Shape == [
  Message |-> [data |-> S("data"), hash |-> X("hash"), hash_scheme |-> E("hashScheme"),
    signature |-> B("signature"), signature_scheme |-> E("signatureScheme"),
    signer |-> X("signer"), data_bytes |-> Hidden],
  MessageData |-> [type |-> E("type"), fid |-> N("fid"), timestamp |-> N("timestamp"),
    network |-> E("network")] @@ [b \in DOMAIN BodyNames |-> S(BodyNames[b])],
  CastId |-> [fid |-> N("fid"), hash |-> X("hash")],
  Embed |-> [url |-> N("url"), cast_id |-> S("castId")],
  CastAddBody |-> [embeds_deprecated |-> N("embedsDeprecated"), mentions |-> N("mentions"),
    parent_cast_id |-> S("parentCastId"), parent_url |-> N("parentUrl"), text |-> N("text"),
    mentions_positions |-> N("mentionsPositions"), embeds |-> S("embeds"), type |-> E("type")],
  CastRemoveBody |-> [target_hash |-> B("targetHash")],
  ReactionBody |-> [type |-> E("type"), target_cast_id |-> S("targetCastId"),
    target_url |-> N("targetUrl")],
  VerificationAddAddressBody |-> [address |-> <<"address", "byprotocol">>,
    claim_signature |-> B("claimSignature"), block_hash |-> <<"blockHash", "byprotocol">>,
    verification_type |-> N("type"), chain_id |-> N("chainId"), protocol |-> E("protocol")],
  VerificationRemoveBody |-> [address |-> <<"address", "byprotocol">>,
    protocol |-> E("protocol")],
  UserDataBody |-> [type |-> E("type"), value |-> N("value")],
  LinkBody |-> [type |-> N("type"), displayTimestamp |-> N("displayTimestamp"),
    target_fid |-> N("targetFid")],
  UserNameProof |-> [timestamp |-> N("timestamp"), name |-> U("name"), owner |-> X("owner"),
    signature |-> B("signature"), fid |-> N("fid"), type |-> E("type")],
  FrameActionBody |-> [url |-> B("url"), button_index |-> N("buttonIndex"),
    cast_id |-> S("castId"), input_text |-> B("inputText"), state |-> B("state"),
    transaction_id |-> B("transactionId"), address |-> X("address")],
  LinkCompactStateBody |-> [type |-> N("type"), target_fids |-> N("targetFids")],
  LendStorageBody |-> [to_fid |-> N("toFid"), num_units |-> N("numUnits"),
    unit_type |-> <<"unitType", "renamed">>],
  KeyAddBody |-> [key |-> X("key"), key_type |-> N("keyType"),
    custody_signature |-> X("custodySignature"), deadline |-> N("deadline"),
    nonce |-> N("nonce"), metadata |-> X("metadata"), metadata_type |-> N("metadataType"),
    registration_tx_hash |-> X("registrationTxHash"), scopes |-> <<"scopes", "scopes">>,
    ttl |-> N("ttl")],
  KeyRemoveBody |-> [key |-> X("key"), signature |-> X("signature"),
    signature_type |-> N("signatureType"), deadline |-> N("deadline"), nonce |-> N("nonce")],
  ChannelUpdateBody |-> [channel_id |-> X("channelId"), name |-> N("name"),
    description |-> N("description"), image_url |-> N("imageUrl"), header |-> N("header"),
    rules |-> N("rules"), casting_mode |-> E("castingMode"),
    membership_mode |-> E("membershipMode")],
  ChannelMemberBody |-> [channel_id |-> X("channelId"), fid |-> N("fid"), action |-> E("action")],
  ChannelPinBody |-> [channel_id |-> X("channelId"), cast_hash |-> X("castHash")],
  ChannelModerateBody |-> [channel_id |-> X("channelId"), cast_hash |-> X("castHash"),
    action |-> E("action")],
  MessagesResponse |-> [messages |-> S("messages"), next_page_token |-> Token],
  GetInfoResponse |-> [version |-> N("version"), db_stats |-> S("dbStats"),
    peerId |-> N("peer_id"), num_shards |-> N("numShards"), shard_infos |-> S("shardInfos"),
    next_engine_version_timestamp |-> N("nextEngineVersionTimestamp")],
  DbStats |-> [num_messages |-> N("numMessages"),
    num_fid_registrations |-> N("numFidRegistrations"), approx_size |-> N("approxSize")],
  ShardInfo |-> [shard_id |-> N("shardId"), max_height |-> N("maxHeight"),
    num_messages |-> N("numMessages"), num_fid_registrations |-> N("numFidRegistrations"),
    approx_size |-> N("approxSize"), block_delay |-> N("blockDelay"),
    mempool_size |-> N("mempoolSize"), num_onchain_events |-> Hidden],
  FidsResponse |-> [fids |-> N("fids"), next_page_token |-> Token],
  StorageLimitsResponse |-> [limits |-> S("limits"), units |-> N("units"),
    unit_details |-> S("unitDetails"), tier_subscriptions |-> S("tier_subscriptions")],
  StorageLimit |-> [store_type |-> <<"storeType", "renamed">>, name |-> N("name"),
    limit |-> N("limit"), used |-> N("used"), earliestTimestamp |-> N("earliestTimestamp"),
    earliestHash |-> <<"earliestHash", "decimals">>],
  StorageUnitDetails |-> [unit_type |-> <<"unitType", "renamed">>, unit_size |-> N("unitSize"),
    purchased_unit_size |-> Hidden, lent_unit_size |-> Hidden, borrowed_unit_size |-> Hidden],
  TierDetails |-> [tier_type |-> E("tier_type"), expires_at |-> N("expires_at")],
  UsernameProofsResponse |-> [proofs |-> S("proofs")],
  OnChainEventResponse |-> [events |-> S("events"), next_page_token |-> Token],
  OnChainEvent |-> [type |-> E("type"), chain_id |-> N("chainId"),
    block_number |-> N("blockNumber"), block_hash |-> X("blockHash"),
    block_timestamp |-> N("blockTimestamp"), transaction_hash |-> X("transactionHash"),
    log_index |-> N("logIndex"), fid |-> N("fid"),
    signer_event_body |-> S("signerEventBody"),
    signer_migrated_event_body |-> S("signerMigratedEventBody"),
    id_register_event_body |-> S("idRegisterEventBody"),
    storage_rent_event_body |-> S("storageRentEventBody"),
    tier_purchase_event_body |-> S("tier_purchase_event_body"),
    channel_register_event_body |-> S("channelRegisterEventBody"),
    tx_index |-> N("txIndex"), version |-> N("version")],
  SignerEventBody |-> [key |-> X("key"), key_type |-> N("keyType"), event_type |-> E("eventType"),
    metadata |-> B("metadata"), metadata_type |-> N("metadataType")],
  SignerMigratedEventBody |-> [migratedAt |-> N("migratedAt")],
  IdRegisterEventBody |-> [to |-> X("to"), event_type |-> <<"eventType", "renamed">>,
    from |-> X("from"), recovery_address |-> X("recoveryAddress")],
  StorageRentEventBody |-> [payer |-> X("payer"), units |-> N("units"), expiry |-> N("expiry")],
  TierPurchaseBody |-> [tier_type |-> E("tier_type"), for_days |-> N("for_days"),
    payer |-> X("payer")],
  ChannelRegisterBody |-> [channel_key |-> N("channelKey"), expiry |-> N("expiry"),
    owner_address |-> X("ownerAddress"), event_type |-> E("eventType"), label |-> X("label")],
  SignerResponse |-> [signer |-> S("signer")],
  Signer |-> [source |-> E("source"), key |-> X("key"), key_type |-> N("keyType"),
    fid |-> N("fid"), added_at |-> N("addedAt"), last_used_at |-> N("lastUsedAt"),
    ttl |-> N("ttl"), expires_at |-> N("expiresAt"), scopes |-> <<"scopes", "scopes">>,
    request_fid |-> N("requestFid"), nonce |-> N("nonce"), onchain_event |-> S("onChainEvent")],
  SignersByFidResponse |-> [signers |-> S("signers"), next_page_token |-> Token,
    gasless_signer_count |-> N("gaslessSignerCount"),
    gasless_signer_limit |-> N("gaslessSignerLimit"),
    current_user_nonce |-> N("currentUserNonce"),
    requester_fid_nonces |-> <<"requesterFidNonces", "map">>],
  ChannelOwnerResponse |-> [fid |-> N("fid"), owner_address |-> X("ownerAddress"),
    expiry |-> N("expiry")],
  ChannelsResponse |-> [channels |-> S("channels"), next_page_token |-> Token],
  ChannelInfo |-> [channel_key |-> N("channelKey"), fid |-> N("fid"),
    owner_address |-> X("ownerAddress"), expiry |-> N("expiry")],
  ChannelMemberResponse |-> [state |-> E("state"), last_action_ts |-> N("lastActionTs")],
  ChannelMembersResponse |-> [members |-> S("members"), next_page_token |-> Token],
  ChannelMember |-> [fid |-> N("fid"), state |-> E("state")],
  ChannelPinResponse |-> [pin |-> S("pin")],
  ChannelPin |-> [cast_hash |-> X("castHash"), author_fid |-> N("authorFid")],
  ChannelModerationsResponse |-> [moderations |-> S("moderations"), next_page_token |-> Token],
  ChannelModeration |-> [cast_hash |-> X("castHash"), action |-> E("action"),
    author_fid |-> N("authorFid")],
  ChannelMetadataResponse |-> [name |-> N("name"), description |-> N("description"),
    image_url |-> N("imageUrl"), header |-> N("header"), rules |-> N("rules"),
    casting_mode |-> E("castingMode"), membership_mode |-> E("membershipMode")],
  ChannelMembershipsResponse |-> [memberships |-> S("memberships"), next_page_token |-> Token],
  ChannelMembership |-> [channel_id |-> X("channelId"), state |-> E("state")],
  ChannelFollowersResponse |-> [followers |-> S("followers"), next_page_token |-> Token],
  ChannelFollower |-> [fid |-> N("fid"), followed_at |-> N("followedAt")],
  ChannelFollowerCountResponse |-> [count |-> N("count")],
  ChannelFollowsResponse |-> [follows |-> S("follows"), next_page_token |-> Token],
  ChannelFollow |-> [channel_id |-> X("channelId"), followed_at |-> N("followedAt")],
  IsFollowingChannelResponse |-> [following |-> N("following"), followed_at |-> N("followedAt")],
  FidAddressTypeResponse |-> [is_custody |-> N("is_custody"), is_auth |-> N("is_auth"),
    is_verified |-> N("is_verified")],
  EventsResponse |-> [events |-> S("events"), next_page_token |-> Hidden],
  HubEvent |-> [type |-> E("type"), id |-> N("id"),
    merge_message_body |-> S("mergeMessageBody"), prune_message_body |-> S("pruneMessageBody"),
    revoke_message_body |-> S("revokeMessageBody"),
    merge_username_proof_body |-> S("mergeUsernameProofBody"),
    merge_on_chain_event_body |-> S("mergeOnChainEventBody"),
    merge_failure |-> S("mergeFailureBody"), block_confirmed_body |-> S("blockConfirmedBody"),
    channel_owner_change_hint_body |-> S("channelOwnerChangeHintBody"),
    block_number |-> N("blockNumber"), shard_index |-> N("shardIndex"), timestamp |-> Hidden],
  MergeMessageBody |-> [message |-> S("message"), deleted_messages |-> S("deletedMessages")],
  MergeFailureBody |-> [message |-> S("message"), code |-> N("code"), reason |-> N("reason")],
  PruneMessageBody |-> [message |-> S("message")],
  RevokeMessageBody |-> [message |-> S("message")],
  MergeOnChainEventBody |-> [on_chain_event |-> S("onChainEvent")],
  MergeUserNameProofBody |-> [username_proof |-> S("usernameProof"),
    deleted_username_proof |-> S("deletedUsernameProof"),
    username_proof_message |-> S("usernameProofMessage"),
    deleted_username_proof_message |-> S("deletedUsernameProofMessage")],
  BlockConfirmedBody |-> [block_number |-> N("blockNumber"), shard_index |-> N("shardIndex"),
    timestamp |-> N("timestamp"), block_hash |-> X("blockHash"),
    total_events |-> N("totalEvents"), event_counts_by_type |-> Hidden,
    max_block_event_seqnum |-> Hidden],
  ChannelOwnerChangeHintBody |-> [channel_key |-> N("channelKey"),
    owner_address |-> X("ownerAddress"), cause |-> E("cause")],
  GetConnectedPeersResponse |-> [contacts |-> S("contacts"), peers |-> S("peers")],
  ContactInfoBody |-> [gossip_address |-> N("gossip_address"), peer_id |-> <<"peer_id", "b58">>,
    snapchain_version |-> N("snapchain_version"), network |-> <<"network", "renamed">>,
    timestamp |-> N("timestamp"), announce_rpc_address |-> N("announce_rpc_address")],
  ConnectedPeer |-> [source |-> <<"source", "renamed">>, contact_info |-> S("contact_info"),
    peer_id |-> <<"peer_id", "b58">>, observed_address |-> N("observed_address")],
  ValidationResponse |-> [valid |-> N("valid"), message |-> S("message")],
  SubmitBulkMessagesResponse |-> [messages |-> S("messages")],
  BulkMessageResponse |-> [message |-> <<"", "inline">>, message_error |-> <<"", "inline">>],
  MessageError |-> [hash |-> X("hash"), errCode |-> N("errCode"), message |-> N("message")]
]

\* Enumerations whose JSON names are not the protocol's.
Renamed == [UNIT_TYPE_LEGACY |-> "UnitTypeLegacy", UNIT_TYPE_2024 |-> "UnitType2024",
  UNIT_TYPE_2025 |-> "UnitType2025",
  STORE_TYPE_NONE |-> "None", STORE_TYPE_CASTS |-> "Casts", STORE_TYPE_LINKS |-> "Links",
  STORE_TYPE_REACTIONS |-> "Reactions", STORE_TYPE_USER_DATA |-> "UserData",
  STORE_TYPE_VERIFICATIONS |-> "Verifications", STORE_TYPE_USERNAME_PROOFS |-> "UsernameProofs",
  STORE_TYPE_STORAGE_LENDS |-> "StorageLends",
  ID_REGISTER_EVENT_TYPE_NONE |-> "None", ID_REGISTER_EVENT_TYPE_REGISTER |-> "Register",
  ID_REGISTER_EVENT_TYPE_TRANSFER |-> "Transfer",
  ID_REGISTER_EVENT_TYPE_CHANGE_RECOVERY |-> "ChangeRecovery",
  FARCASTER_NETWORK_NONE |-> "None", FARCASTER_NETWORK_MAINNET |-> "Mainnet",
  FARCASTER_NETWORK_TESTNET |-> "Testnet", FARCASTER_NETWORK_DEVNET |-> "Devnet",
  CONTACT_SOURCE_UNKNOWN |-> "unknown", CONTACT_SOURCE_COLLECTED |-> "collected",
  CONTACT_SOURCE_DERIVED |-> "derived"]

\* The list of messages of a paged read always carries a token, "" at the end.
TokenAlways == {"MessagesResponse"}

FieldOf(t, n) == LET s == {f \in Elems(t.f) : f.n = n} IN
                 IF s = {} THEN <<>> ELSE <<(CHOOSE f \in s : TRUE).v>>

JText(v) == (IF v.k = "n" THEN "n:" ELSE IF v.k = "z" THEN "z:" ELSE "s:") \o v.t
At(path, k) == path \o "[" \o ToString(k - 1) \o "]"

RECURSIVE Render(_, _), Leaf(_, _, _, _)

Leaf(t, form, v, path) ==
  IF form = "-" THEN {}
  ELSE IF v.k = "l"
  THEN IF form = "scopes"
       THEN LET known == SelectSeq(v.v, LAMBDA x : x.name # "") IN
            {<<At(path, k), "s:" \o known[k].name>> : k \in 1..Len(known)}
       ELSE UNION {Leaf(t, form, v.v[k], At(path, k)) : k \in 1..Len(v.v)}
  ELSE CASE form = "v" -> {<<path, JText(v)>>}
         [] form = "0x" -> {<<path, "s:0x" \o v.x>>}
         [] form = "b64" -> {<<path, "s:" \o v.b>>}
         [] form = "b58" -> {<<path, "s:" \o v.s>>}
         [] form = "utf8" -> {<<path, "s:" \o v.t>>}
         [] form = "renamed" -> {<<path, "s:" \o Renamed[v.t]>>}
         [] form = "decimals" -> {<<At(path, k), "n:" \o ToString(v.a[k])>> : k \in 1..Len(v.a)}
         [] form = "byprotocol" ->
              IF FieldOf(t, "protocol")[1].t = "PROTOCOL_ETHEREUM"
              THEN {<<path, "s:0x" \o v.x>>} ELSE {<<path, "s:" \o v.s>>}
         [] form = "map" -> {<<path \o "." \o v.v[k].key, "n:" \o v.v[k].val>> : k \in 1..Len(v.v)}
         [] form \in {"sub", "inline"} -> Render(v, path)
         [] OTHER -> {}

Render(t, path) ==
  LET shape == Shape[t.m]
      one(f) == LET d == shape[f.n] IN
                Leaf(t, d[2], f.v, IF d[2] = "inline" THEN path ELSE path \o "." \o d[1])
  IN UNION {one(f) : f \in Elems(t.f)}
     \cup (IF t.m \in TokenAlways /\ FieldOf(t, "next_page_token") = <<>>
           THEN {<<path \o ".nextPageToken", "s:">>} ELSE {})
=============================================================================
