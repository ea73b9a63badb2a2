//! Drives the real HTTP gateway over loopback in front of a service that
//! records the binary request it is handed and answers with prepared bytes.
//! What is sent, which request came out, which answer was given and the JSON
//! it became are recorded for Http.tla.
use crate::common::*;
use base64::prelude::*;
use prost::Message as _;
use rand::Rng as _;
use serde_json::{json, Map, Value};
use snapchain::network::http_server::{spawn_http_server, Config, HubHttpServiceImpl};
use snapchain::network::mesh::nodes::NodeRegistry;
use snapchain::proto::hub_service_server::HubService;
use snapchain::proto::*;
use std::collections::{BTreeMap, HashMap};
use std::io::{Read, Write};
use std::sync::{Arc, Mutex};
use tonic::{Request, Response, Status};

// ---------------------------------------------------------------- schema
#[derive(Clone, Debug)]
pub struct Field {
    pub name: String,
    pub num: u64,
    pub ty: String,
    pub label: char, // p plain, o optional, r repeated, m map
    pub oneof: String,
    pub key: String,
}

#[derive(Default)]
pub struct Schema {
    pub msgs: HashMap<String, Vec<Field>>,
    pub enums: HashMap<String, Vec<(String, i64)>>,
}

impl Schema {
    pub fn load() -> Schema {
        let dir = concat!(env!("CARGO_MANIFEST_DIR"), "/../.work/tree/proto/definitions");
        let mut s = Schema::default();
        for e in std::fs::read_dir(dir).unwrap() {
            let text = std::fs::read_to_string(e.unwrap().path()).unwrap();
            s.parse(&text);
        }
        s
    }
    fn parse(&mut self, text: &str) {
        let mut clean = String::new();
        let mut rest = text;
        while let Some(a) = rest.find("/*") {
            clean.push_str(&rest[..a]);
            rest = &rest[a..];
            rest = rest.find("*/").map(|b| &rest[b + 2..]).unwrap_or("");
        }
        clean.push_str(rest);
        let clean: String = clean
            .lines()
            .map(|l| l.split("//").next().unwrap().to_string() + " ")
            .collect();
        let mut spaced = String::new();
        for c in clean.chars() {
            if "{}();=<>,[]".contains(c) {
                spaced.push(' ');
                spaced.push(c);
                spaced.push(' ');
            } else {
                spaced.push(c);
            }
        }
        let tok: Vec<&str> = spaced.split_whitespace().collect();
        let mut i = 0;
        while i < tok.len() {
            match tok[i] {
                "message" if tok.get(i + 2) == Some(&"{") => i = self.message(&tok, i),
                "enum" if tok.get(i + 2) == Some(&"{") => i = self.enumeration(&tok, i),
                "service" => {
                    let mut d = 0;
                    loop {
                        if tok[i] == "{" {
                            d += 1;
                        }
                        if tok[i] == "}" {
                            d -= 1;
                            if d == 0 {
                                break;
                            }
                        }
                        i += 1;
                    }
                    i += 1;
                }
                _ => i += 1,
            }
        }
    }
    fn enumeration(&mut self, tok: &[&str], at: usize) -> usize {
        let mut i = at + 3;
        let mut v = vec![];
        while tok[i] != "}" {
            if tok.get(i + 1) == Some(&"=") {
                v.push((tok[i].to_string(), tok[i + 2].parse().unwrap()));
                i += 3;
            } else {
                i += 1;
            }
        }
        self.enums.insert(tok[at + 1].to_string(), v);
        i + 1
    }
    fn message(&mut self, tok: &[&str], at: usize) -> usize {
        let mut i = at + 3;
        let mut oneof = String::new();
        let mut fields = vec![];
        loop {
            match tok[i] {
                "}" if !oneof.is_empty() => {
                    oneof.clear();
                    i += 1;
                }
                "}" => break,
                ";" => i += 1,
                "reserved" => {
                    while tok[i] != ";" {
                        i += 1
                    }
                }
                "oneof" => {
                    oneof = tok[i + 1].to_string();
                    i += 3;
                }
                "enum" if tok[i + 2] == "{" => i = self.enumeration(tok, i),
                "message" if tok[i + 2] == "{" => i = self.message(tok, i),
                "map" if tok[i + 1] == "<" => {
                    fields.push(Field {
                        name: tok[i + 6].into(),
                        num: tok[i + 8].parse().unwrap(),
                        ty: tok[i + 4].into(),
                        label: 'm',
                        oneof: String::new(),
                        key: tok[i + 2].into(),
                    });
                    i += 9;
                }
                _ => {
                    let (label, j) = match tok[i] {
                        "optional" => ('o', i + 1),
                        "repeated" => ('r', i + 1),
                        _ => ('p', i),
                    };
                    fields.push(Field {
                        ty: tok[j].into(),
                        name: tok[j + 1].into(),
                        num: tok[j + 3].parse().unwrap(),
                        label,
                        oneof: oneof.clone(),
                        key: String::new(),
                    });
                    i = j + 4;
                    while tok[i] != ";" {
                        i += 1;
                    }
                    i += 1;
                }
            }
        }
        self.msgs.insert(tok[at + 1].to_string(), fields);
        i + 1
    }
    pub fn enum_number(&self, ty: &str, name: &str) -> i64 {
        self.enums[ty].iter().find(|e| e.0 == name).unwrap().1
    }
}

fn varint(out: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        out.push((v as u8) | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}

pub fn bytes_leaf(b: &[u8]) -> Value {
    json!({"k": "b", "x": hex::encode(b), "b": BASE64_STANDARD.encode(b),
        "s": bs58::encode(b).into_string(),
        "t": String::from_utf8(b.to_vec()).ok().filter(|t| t.is_ascii()).unwrap_or_default(),
        "a": b.iter().map(|x| *x as u32).collect::<Vec<_>>()})
}

const MAY_BE_ABSENT: &[(&str, &str)] = &[
    ("CastAddBody", "parent"),
    ("ReactionBody", "target"),
    ("OnChainEvent", "body"),
    ("HubEvent", "body"),
    ("FrameActionBody", "cast_id"),
    ("ConnectedPeer", "contact_info"),
    ("GetInfoResponse", "db_stats"),
    ("ChannelPinResponse", "pin"),
    ("Signer", "onchain_event"),
    ("MergeUserNameProofBody", "username_proof"),
    ("MergeUserNameProofBody", "deleted_username_proof"),
    ("MergeUserNameProofBody", "username_proof_message"),
    ("MergeUserNameProofBody", "deleted_username_proof_message"),
];

pub struct Gen<'a> {
    pub schema: &'a Schema,
    pub rng: Rng,
    turn: HashMap<String, usize>,
}

impl<'a> Gen<'a> {
    pub fn new(schema: &'a Schema, rng: Rng) -> Self {
        Gen { schema, rng, turn: HashMap::new() }
    }
    pub fn word(&mut self) -> String {
        let pool = ["", "a", "Hello world", "https://x.y/z?a=1", "it's \"quoted\"", "1.5", "name-0", "null"];
        if self.rng.gen_bool(0.5) {
            pool[self.rng.gen_range(0..pool.len())].to_string()
        } else {
            (0..self.rng.gen_range(1..9)).map(|_| self.rng.gen_range(b'a'..=b'z') as char).collect()
        }
    }
    pub fn raw(&mut self) -> Vec<u8> {
        let n = *[0usize, 1, 2, 20, 20, 32, 5].get(self.rng.gen_range(0..7)).unwrap();
        (0..n).map(|_| self.rng.gen::<u8>() * (self.rng.gen::<u8>() % 5).min(1)).collect()
    }
    pub fn number(&mut self, bits: u32) -> u64 {
        match self.rng.gen_range(0..6) {
            0 => 0,
            1 => 1,
            2 if bits == 64 => u64::MAX - self.rng.gen_range(0..3),
            2 => u32::MAX as u64,
            3 if bits == 64 => self.rng.gen::<u64>() >> 8,
            _ => self.rng.gen_range(2..100_000),
        }
    }
    fn peer_id(&mut self) -> Vec<u8> {
        let mut b = vec![0x00, 0x24, 0x08, 0x01, 0x12, 0x20];
        b.extend(ed25519_dalek::SigningKey::from_bytes(&self.rng.gen()).verifying_key().as_bytes());
        b
    }
    /// A value of a scalar or enumeration or message type: its tree and its bytes.
    fn value(&mut self, owner: &str, f: &Field, depth: u32) -> (Value, Vec<u8>, u8) {
        let mut out = vec![];
        let v = match f.ty.as_str() {
            "uint32" | "uint64" => {
                let n = self.number(if f.ty == "uint64" { 64 } else { 32 });
                varint(&mut out, n);
                json!({"k": "n", "t": n.to_string()})
            }
            "int32" | "int64" => {
                let n: u64 = self.rng.gen_range(0..24);
                varint(&mut out, n);
                let name = self.schema.enums["MessageType"]
                    .iter()
                    .find(|e| e.1 == n as i64)
                    .map(|e| e.0.clone())
                    .unwrap_or_default();
                json!({"k": "n", "t": n.to_string(), "name": name})
            }
            "bool" => {
                let b: bool = self.rng.gen();
                out.push(b as u8);
                json!({"k": "z", "t": b.to_string()})
            }
            "double" => {
                let n = self.rng.gen_range(0..1000) as f64 / 4.0;
                out.extend(n.to_le_bytes());
                return (json!({"k": "d", "t": n.to_string()}), out, 1);
            }
            "string" => {
                let s = self.word();
                varint(&mut out, s.len() as u64);
                out.extend(s.as_bytes());
                return (json!({"k": "s", "t": s}), out, 2);
            }
            "bytes" => {
                let b = if f.name == "name" {
                    self.word().into_bytes()
                } else if f.name == "peer_id" || f.name == "visited_peer_ids" {
                    self.peer_id()
                } else {
                    self.raw()
                };
                varint(&mut out, b.len() as u64);
                out.extend(&b);
                return (bytes_leaf(&b), out, 2);
            }
            e if self.schema.enums.contains_key(e) => {
                let all = &self.schema.enums[e];
                let t = self.turn.entry(format!("{owner}.{}", f.name)).or_insert(self.rng.gen_range(0..64));
                *t += 1;
                let (name, n) = &all[*t % all.len()];
                varint(&mut out, *n as u64);
                json!({"k": "e", "t": name, "n": n.to_string()})
            }
            m => {
                let (tree, b) = self.message(m, depth + 1);
                varint(&mut out, b.len() as u64);
                out.extend(b);
                return (tree, out, 2);
            }
        };
        (v, out, 0)
    }
    pub fn message(&mut self, m: &str, depth: u32) -> (Value, Vec<u8>) {
        let fields = self.schema.msgs[m].clone();
        // which member of each oneof is set
        let mut chosen: BTreeMap<String, String> = BTreeMap::new();
        let mut groups: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for f in &fields {
            if !f.oneof.is_empty() {
                groups.entry(f.oneof.clone()).or_default().push(f.name.clone());
            }
        }
        for (g, names) in groups {
            let absent = MAY_BE_ABSENT.contains(&(m, g.as_str())) && self.rng.gen_bool(0.2);
            if !absent {
                let t = self.turn.entry(format!("{m}:{g}")).or_insert(0);
                *t += 1;
                chosen.insert(g, names[*t % names.len()].clone());
            }
        }
        let mut tree = vec![];
        let mut out = vec![];
        for f in &fields {
            let is_msg = self.schema.msgs.contains_key(&f.ty);
            if f.name == "data_bytes" {
                continue;
            }
            if f.label == 'm' {
                let n = self.rng.gen_range(0..3);
                let mut entries = vec![];
                for k in 0..n {
                    let key = self.rng.gen_range(0..50u64) * 10 + k;
                    let (v, b, w) = self.value(m, f, depth);
                    let mut e = vec![8];
                    varint(&mut e, key);
                    e.push(16 | w);
                    e.extend(b);
                    varint(&mut out, f.num << 3 | 2);
                    varint(&mut out, e.len() as u64);
                    out.extend(e);
                    entries.push(json!({"key": key.to_string(), "val": v["t"]}));
                }
                tree.push(json!({"n": f.name, "v": {"k": "p", "v": entries}}));
                continue;
            }
            if f.label == 'r' {
                let n = if depth > 2 { self.rng.gen_range(0..2) } else { self.rng.gen_range(0..4) };
                let mut items = vec![];
                for _ in 0..n {
                    let (v, b, w) = self.value(m, f, depth);
                    varint(&mut out, f.num << 3 | w as u64);
                    out.extend(b);
                    items.push(v);
                }
                tree.push(json!({"n": f.name, "v": {"k": "l", "v": items}}));
                continue;
            }
            let present = if !f.oneof.is_empty() {
                chosen.get(&f.oneof) == Some(&f.name)
            } else if f.label == 'o' || is_msg {
                !((f.label == 'o' || MAY_BE_ABSENT.contains(&(m, f.name.as_str()))) && self.rng.gen_bool(0.35))
            } else {
                true
            };
            if !present {
                continue;
            }
            let (v, b, w) = self.value(m, f, depth);
            varint(&mut out, f.num << 3 | w as u64);
            out.extend(b);
            tree.push(json!({"n": f.name, "v": v}));
        }
        (json!({"k": "m", "m": m, "f": tree}), out)
    }
}

/// The fields a binary message carries, as <<path, text>> pairs.
pub fn leaves(s: &Schema, m: &str, buf: &[u8], pre: &str, out: &mut Vec<(String, String)>) {
    let mut i = 0;
    let rd = |i: &mut usize| -> u64 {
        let mut v = 0u64;
        let mut sh = 0;
        loop {
            let b = buf[*i];
            *i += 1;
            v |= ((b & 0x7f) as u64) << sh;
            sh += 7;
            if b & 0x80 == 0 {
                return v;
            }
        }
    };
    let mut seen: HashMap<u64, usize> = HashMap::new();
    while i < buf.len() {
        let tag = rd(&mut i);
        let (num, wire) = (tag >> 3, tag & 7);
        let f = s.msgs[m].iter().find(|f| f.num == num).unwrap_or_else(|| panic!("{m}.{num}")).clone();
        let data: (u64, &[u8]) = match wire {
            0 => (rd(&mut i), &[]),
            1 => {
                i += 8;
                (0, &buf[i - 8..i])
            }
            _ => {
                let n = rd(&mut i) as usize;
                i += n;
                (0, &buf[i - n..i])
            }
        };
        let mut path = |f: &Field| {
            let k = seen.entry(num).or_insert(0);
            *k += 1;
            if f.label == 'r' || f.label == 'm' {
                format!("{pre}{}[{}]", f.name, *k - 1)
            } else {
                format!("{pre}{}", f.name)
            }
        };
        let scalar = ["uint32", "uint64", "int32", "int64", "bool"].contains(&f.ty.as_str())
            || s.enums.contains_key(&f.ty);
        if scalar && wire == 2 {
            // packed
            let mut j = 0;
            while j < data.1.len() {
                let mut v = 0u64;
                let mut sh = 0;
                loop {
                    let b = data.1[j];
                    j += 1;
                    v |= ((b & 0x7f) as u64) << sh;
                    sh += 7;
                    if b & 0x80 == 0 {
                        break;
                    }
                }
                out.push((path(&f), v.to_string()));
            }
            continue;
        }
        let p = path(&f);
        match f.ty.as_str() {
            "bool" => out.push((p, (data.0 != 0).to_string())),
            _ if scalar => out.push((p, data.0.to_string())),
            "string" => out.push((p, String::from_utf8_lossy(data.1).into_owned())),
            "bytes" => out.push((p, hex::encode(data.1))),
            "double" => out.push((p, f64::from_le_bytes(data.1.try_into().unwrap()).to_string())),
            t => {
                out.push((p.clone(), "{}".into()));
                leaves(s, t, data.1, &format!("{p}."), out);
            }
        }
    }
}

fn pairs(v: Vec<(String, String)>) -> Value {
    Value::Array(v.into_iter().map(|(a, b)| json!([a, b])).collect())
}

/// The leaves of a JSON document.
pub fn flat(v: &Value, path: &str, out: &mut Vec<(String, String)>) {
    match v {
        Value::Null => {}
        Value::Bool(b) => out.push((path.into(), format!("z:{b}"))),
        Value::Number(n) => out.push((path.into(), format!("n:{n}"))),
        Value::String(s) => out.push((path.into(), format!("s:{s}"))),
        Value::Array(a) => {
            for (k, x) in a.iter().enumerate() {
                flat(x, &format!("{path}[{k}]"), out);
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                flat(x, &format!("{path}.{k}"), out);
            }
        }
    }
}

// ---------------------------------------------------------------- service
#[derive(Default)]
struct Inner {
    calls: Vec<(String, Vec<u8>, Vec<String>)>,
    reply: Vec<u8>,
    fail: Option<tonic::Code>,
}

#[derive(Clone, Default)]
pub struct Mock(Arc<Mutex<Inner>>);

impl Mock {
    fn call<Q: prost::Message, R: prost::Message + Default>(
        &self,
        name: &str,
        req: Request<Q>,
    ) -> Result<Response<R>, Status> {
        let mut i = self.0.lock().unwrap();
        let auth = req
            .metadata()
            .get_all("authorization")
            .iter()
            .map(|v| v.to_str().unwrap_or("?").to_string())
            .collect();
        i.calls.push((name.into(), req.into_inner().encode_to_vec(), auth));
        match i.fail {
            Some(c) => Err(Status::new(c, "refused by the service")),
            None => Ok(Response::new(R::decode(i.reply.as_slice()).unwrap())),
        }
    }
}

macro_rules! rpcs {
    ($($name:ident: $req:ident => $resp:ident;)*) => {
        #[tonic::async_trait]
        impl HubService for Mock {
            type GetBlocksStream = std::pin::Pin<Box<dyn futures::Stream<Item = Result<Block, Status>> + Send>>;
            type SubscribeStream = std::pin::Pin<Box<dyn futures::Stream<Item = Result<HubEvent, Status>> + Send>>;
            async fn get_blocks(&self, _: Request<BlocksRequest>) -> Result<Response<Self::GetBlocksStream>, Status> {
                Err(Status::unimplemented(""))
            }
            async fn subscribe(&self, _: Request<SubscribeRequest>) -> Result<Response<Self::SubscribeStream>, Status> {
                Err(Status::unimplemented(""))
            }
            $(async fn $name(&self, request: Request<$req>) -> Result<Response<$resp>, Status> {
                self.call(stringify!($name), request)
            })*
        }
    };
}

rpcs! {
    submit_message: Message => Message;
    submit_bulk_messages: SubmitBulkMessagesRequest => SubmitBulkMessagesResponse;
    validate_message: Message => ValidationResponse;
    get_shard_chunks: ShardChunksRequest => ShardChunksResponse;
    get_info: GetInfoRequest => GetInfoResponse;
    get_fids: FidsRequest => FidsResponse;
    get_connected_peers: GetConnectedPeersRequest => GetConnectedPeersResponse;
    get_mesh_view: GetMeshViewRequest => MeshView;
    get_mesh_topology: GetMeshViewRequest => MeshTopology;
    get_event: EventRequest => HubEvent;
    get_events: EventsRequest => EventsResponse;
    get_cast: CastId => Message;
    get_casts_by_fid: FidRequest => MessagesResponse;
    get_casts_by_parent: CastsByParentRequest => MessagesResponse;
    get_casts_by_mention: FidRequest => MessagesResponse;
    get_reaction: ReactionRequest => Message;
    get_reactions_by_fid: ReactionsByFidRequest => MessagesResponse;
    get_reactions_by_cast: ReactionsByTargetRequest => MessagesResponse;
    get_reactions_by_target: ReactionsByTargetRequest => MessagesResponse;
    get_user_data: UserDataRequest => Message;
    get_user_data_by_fid: FidRequest => MessagesResponse;
    get_username_proof: UsernameProofRequest => UserNameProof;
    get_user_name_proofs_by_fid: FidRequest => UsernameProofsResponse;
    get_verification: VerificationRequest => Message;
    get_verifications_by_fid: FidRequest => MessagesResponse;
    get_on_chain_signer: SignerRequest => OnChainEvent;
    get_on_chain_signers_by_fid: FidRequest => OnChainEventResponse;
    get_signer: SignerRequest => SignerResponse;
    get_signers_by_fid: SignersByFidRequest => SignersByFidResponse;
    get_on_chain_events: OnChainEventRequest => OnChainEventResponse;
    get_channel_owner: ChannelOwnerRequest => ChannelOwnerResponse;
    get_channels_by_address: ChannelsByAddressRequest => ChannelsResponse;
    get_channels_by_fid: ChannelsByFidRequest => ChannelsResponse;
    get_channel_member: ChannelMemberRequest => ChannelMemberResponse;
    get_channel_members: ChannelMembersRequest => ChannelMembersResponse;
    get_channel_pin: ChannelRequest => ChannelPinResponse;
    get_channel_moderations: ChannelModerationsRequest => ChannelModerationsResponse;
    get_channel_metadata: ChannelRequest => ChannelMetadataResponse;
    get_channel_memberships_by_fid: ChannelMembershipsByFidRequest => ChannelMembershipsResponse;
    get_channel_followers: ChannelFollowersRequest => ChannelFollowersResponse;
    get_channel_follower_count: ChannelFollowerCountRequest => ChannelFollowerCountResponse;
    get_channel_follows: ChannelFollowsRequest => ChannelFollowsResponse;
    is_following_channel: IsFollowingChannelRequest => IsFollowingChannelResponse;
    get_id_registry_on_chain_event: FidRequest => OnChainEvent;
    get_id_registry_on_chain_event_by_address: IdRegistryEventByAddressRequest => OnChainEvent;
    get_current_storage_limits_by_fid: FidRequest => StorageLimitsResponse;
    get_fid_address_type: FidAddressTypeRequest => FidAddressTypeResponse;
    get_link: LinkRequest => Message;
    get_links_by_fid: LinksByFidRequest => MessagesResponse;
    get_links_by_target: LinksByTargetRequest => MessagesResponse;
    get_link_compact_state_message_by_fid: FidRequest => MessagesResponse;
    get_all_cast_messages_by_fid: FidTimestampRequest => MessagesResponse;
    get_all_reaction_messages_by_fid: FidTimestampRequest => MessagesResponse;
    get_all_verification_messages_by_fid: FidTimestampRequest => MessagesResponse;
    get_all_user_data_messages_by_fid: FidTimestampRequest => MessagesResponse;
    get_all_link_messages_by_fid: FidTimestampRequest => MessagesResponse;
    get_all_lend_storage_messages_by_fid: FidTimestampRequest => MessagesResponse;
    get_trie_metadata_by_prefix: TrieNodeMetadataRequest => TrieNodeMetadataResponse;
}

// ---------------------------------------------------------------- client
pub struct Answer {
    pub status: u32,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}

impl Answer {
    pub fn header(&self, n: &str) -> String {
        self.headers.iter().filter(|h| h.0 == n).map(|h| h.1.clone()).collect::<Vec<_>>().join("|")
    }
}

pub fn ask(addr: std::net::SocketAddr, method: &str, target: &str, headers: &[(String, String)], body: &[u8]) -> Answer {
    let go = || -> std::io::Result<Vec<u8>> {
        let mut s = std::net::TcpStream::connect(addr)?;
        s.set_read_timeout(Some(std::time::Duration::from_secs(10)))?;
        let mut head = format!("{method} {target} HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Length: {}\r\n", body.len());
        for (k, v) in headers {
            head.push_str(&format!("{k}: {v}\r\n"));
        }
        head.push_str("\r\n");
        s.write_all(head.as_bytes())?;
        s.write_all(body)?;
        let mut out = vec![];
        s.read_to_end(&mut out)?;
        Ok(out)
    };
    let raw = go().unwrap_or_default();
    let none = Answer { status: 0, headers: vec![], body: vec![] };
    let Some(cut) = raw.windows(4).position(|w| w == b"\r\n\r\n") else { return none };
    let head = String::from_utf8_lossy(&raw[..cut]).into_owned();
    let mut lines = head.split("\r\n");
    let status = lines.next().and_then(|l| l.split(' ').nth(1)).and_then(|x| x.parse().ok()).unwrap_or(0);
    let headers = lines
        .filter_map(|l| l.split_once(": ").map(|(a, b)| (a.to_lowercase(), b.to_string())))
        .collect();
    Answer { status, headers, body: raw[cut + 4..].to_vec() }
}

fn percent(s: &str) -> String {
    s.bytes()
        .map(|b| match b {
            b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'-' | b'_' | b'.' => (b as char).to_string(),
            b => format!("%{b:02X}"),
        })
        .collect()
}

/// The text of a parameter of the given form, and what the specification is
/// told about it.
fn argument(g: &mut Gen, name: &str, form: &str, broken: bool, corner: Option<usize>) -> (Vec<(String, String)>, Value) {
    let pick = |g: &mut Gen, v: &[&str]| v[g.rng.gen_range(0..v.len())].to_string();
    let rec = |ok: bool, t: String, empty: bool| json!({"n": name, "ok": ok, "t": t, "empty": empty, "ts": []});
    let one = |raw: String| vec![(name.to_string(), raw)];
    match form {
        "u64" | "u32" => {
            if broken {
                let bad = if form == "u32" { pick(g, &["4294967296", "-1", "x", "1.5"]) } else { pick(g, &["18446744073709551616", "-1", "x1", "0x10"]) };
                return (one(bad), rec(false, String::new(), false));
            }
            let n = match corner {
                Some(c) => [0, 1, if form == "u64" { u64::MAX } else { u32::MAX as u64 }, 2][c.min(3)],
                None => g.number(if form == "u64" { 64 } else { 32 }),
            };
            (one(n.to_string()), rec(true, n.to_string(), false))
        }
        "u64s" => {
            let n = g.rng.gen_range(1..4);
            let v: Vec<String> = (0..n).map(|_| g.number(64).to_string()).collect();
            let raw = v.iter().enumerate().map(|(k, x)| (format!("{name}[{k}]"), x.clone())).collect();
            (raw, json!({"n": name, "ok": true, "t": "-", "empty": false, "ts": v}))
        }
        "bool" => {
            if broken {
                return (one(pick(g, &["yes", "2", "TRUE"])), rec(false, String::new(), false));
            }
            let b: bool = corner.map_or_else(|| g.rng.gen(), |c| c % 2 == 0);
            (one(b.to_string()), rec(true, b.to_string(), false))
        }
        "str" | "str8" => {
            let mut w = g.word();
            if w.is_empty() {
                w = "w".into();
            }
            let t = if form == "str8" { hex::encode(&w) } else { w.clone() };
            (one(percent(&w)), rec(true, t, false))
        }
        "hex" | "hexs" => {
            if broken {
                return (one(pick(g, &["0xzz", "abc", "0x1", "hello"])), rec(false, String::new(), false));
            }
            let mut b = g.raw();
            if b.is_empty() {
                b = vec![7];
            }
            let mut x = hex::encode(&b);
            if g.rng.gen_bool(0.3) {
                x = x.to_uppercase();
            }
            let raw = if g.rng.gen_bool(0.6) { format!("0x{x}") } else { x };
            (one(raw), rec(true, hex::encode(&b), false))
        }
        "b64" => {
            if broken {
                return (one(pick(g, &["***", "AAA", "a%3D"])), rec(false, String::new(), false));
            }
            if g.rng.gen_bool(0.15) {
                return (one(String::new()), rec(true, String::new(), true));
            }
            let mut b = g.raw();
            if b.is_empty() {
                b = vec![0xfb, 0xef, 0xbe];
            }
            let text = BASE64_STANDARD.encode(&b);
            // a plus sign that reaches the parser as a space still counts
            let raw = if g.rng.gen_bool(0.5) { percent(&text) } else { percent(&text).replace("%2B", "+") };
            (one(raw), rec(true, hex::encode(&b), false))
        }
        _ => {
            let (ty, names): (&str, Vec<(String, String)>) = match form {
                "reaction" => ("ReactionType", vec![("None", "REACTION_TYPE_NONE"), ("Like", "REACTION_TYPE_LIKE"), ("Recast", "REACTION_TYPE_RECAST")].into_iter().map(|(a, b)| (a.into(), b.into())).collect()),
                "onchain" => ("OnChainEventType", vec![]),
                "member" => ("ChannelMemberState", vec![]),
                f => panic!("form {f}"),
            };
            if broken {
                return (one(pick(g, &["NOPE", "like", "99"])), rec(false, String::new(), false));
            }
            let all: Vec<(String, i64)> = if names.is_empty() {
                g.schema.enums[ty].clone()
            } else {
                names.iter().map(|(a, b)| (a.clone(), g.schema.enum_number(ty, b))).collect()
            };
            let (raw, n) = all[corner.map_or_else(|| g.rng.gen_range(0..all.len()), |c| c % all.len())].clone();
            (one(raw), rec(true, n.to_string(), false))
        }
    }
}

const CODES: &[tonic::Code] = &[
    tonic::Code::Internal,
    tonic::Code::NotFound,
    tonic::Code::InvalidArgument,
    tonic::Code::DataLoss,
    tonic::Code::Unknown,
    tonic::Code::Unavailable,
    tonic::Code::FailedPrecondition,
    tonic::Code::Unauthenticated,
];

pub fn run(ctx: &Ctx) {
    let schema = Schema::load();
    let mut t = ctx.trace("http");
    let mut g = Gen::new(&schema, ctx.rng(23));
    let mock = Mock::default();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap();
    let mut servers = vec![];
    for cors in ["*", "https://app.example"] {
        let config: Config = serde_json::from_value(json!({"cors_origin": cors})).unwrap();
        let m = mock.clone();
        let addr = rt.block_on(async move {
            let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
            let addr = l.local_addr().unwrap();
            spawn_http_server(l, HubHttpServiceImpl { service: Arc::new(m) }, config, Arc::new(NodeRegistry::builtin()));
            addr
        });
        servers.push((cors, addr));
    }
    let finish = |mock: &Mock, g: &Gen, a: &Answer, reqtypes: &HashMap<String, String>| -> (Value, Value, Map<String, Value>) {
        let mut i = mock.0.lock().unwrap();
        let calls: Vec<Value> = i
            .calls
            .drain(..)
            .map(|(n, b, auth)| {
                let mut l = vec![];
                leaves(g.schema, &reqtypes[&n], &b, "", &mut l);
                json!({"rpc": n, "req": pairs(l), "auth": auth})
            })
            .collect();
        let ctype = a.header("content-type");
        let mut l = vec![];
        if ctype == "application/json" {
            match serde_json::from_slice::<Value>(&a.body) {
                Ok(v) => flat(&v, "", &mut l),
                Err(_) => l.push(("".into(), "not json".into())),
            }
        }
        let mut m = Map::new();
        m.insert("status".into(), json!(a.status));
        m.insert("ctype".into(), json!(ctype));
        m.insert("allow".into(), json!(a.header("access-control-allow-origin")));
        (json!(calls), pairs(l), m)
    };
    let reqtypes: HashMap<String, String> = REQTYPES.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    let eps = ctx.behaviours();
    let rounds = ctx.scale(50, 600);
    // each parameter of each query once per corner value and spelling, then at random
    let mut plan: Vec<(usize, &Value, Option<(usize, usize, usize)>)> = vec![];
    for ep in &eps {
        if ep["post"].as_bool().unwrap() {
            continue;
        }
        for (k, p) in ep["params"].as_array().unwrap().iter().enumerate() {
            let corners = match p["form"].as_str().unwrap() {
                "u64" | "u32" => 3,
                "bool" => 2,
                "reaction" | "member" => 4,
                "onchain" => 10,
                _ => 2,
            };
            for j in 0..p["names"].as_array().unwrap().len() {
                for c in 0..corners {
                    plan.push((0, ep, Some((k, j, c))));
                }
            }
        }
    }
    for round in 0..rounds {
        plan.extend(eps.iter().map(|ep| (round, ep, None)));
    }
    {
        for (round, ep, forced) in plan {
            let path = ep["path"].as_str().unwrap();
            let resp = ep["resp"].as_str().unwrap();
            let post = ep["post"].as_bool().unwrap();
            let (cors, addr) = servers[g.rng.gen_range(0..2)].clone();
            // the answer the service will give
            let (tree, bytes) = g.message(resp, 0);
            let fail = if round % 4 == 3 { Some(CODES[g.rng.gen_range(0..CODES.len())]) } else { None };
            {
                let mut i = mock.0.lock().unwrap();
                i.calls.clear();
                i.reply = bytes;
                i.fail = fail;
            }
            let mut headers = vec![];
            let authorization = match g.rng.gen_range(0..3) {
                0 => None,
                1 => Some("Basic YTpi".to_string()),
                _ => Some(format!("Bearer {}", g.rng.gen::<u16>())),
            };
            if let Some(a) = &authorization {
                headers.push(("authorization".to_string(), a.clone()));
            }
            let auth: Vec<String> = authorization.into_iter().collect();
            let code = fail.map(|c| format!("{c:?}")).unwrap_or_default();
            if post {
                let bulk = path.ends_with("BulkMessages");
                let ctype = match g.rng.gen_range(0..8) {
                    0 => "application/json",
                    1 => "",
                    _ => "application/octet-stream",
                };
                if !ctype.is_empty() {
                    headers.push(("content-type".into(), ctype.into()));
                }
                let ty = if bulk { "SubmitBulkMessagesRequest" } else { "Message" };
                let mut sent = g.message(ty, 0).1;
                let (mut outer, mut inner) = (vec![], vec![]);
                let form = match g.rng.gen_range(0..5) {
                    0 => "garbage",
                    1 | 2 if !bulk => "packed",
                    _ => "plain",
                };
                if form == "garbage" {
                    sent = vec![0x0a, 0xff, 0xff, 0x03, 0x01];
                }
                if form == "packed" {
                    // the data travels as bytes only, as signed clients send it
                    let mut msg = Message::decode(sent.as_slice()).unwrap();
                    let data = msg.data.take().unwrap().encode_to_vec();
                    leaves(&schema, "MessageData", &data, "data.", &mut inner);
                    inner.push(("data".into(), "{}".into()));
                    msg.data_bytes = Some(data);
                    sent = msg.encode_to_vec();
                }
                if form != "garbage" {
                    // re-encoded, so that plain zeros are left out on both sides
                    sent = if bulk {
                        SubmitBulkMessagesRequest::decode(sent.as_slice()).unwrap().encode_to_vec()
                    } else {
                        Message::decode(sent.as_slice()).unwrap().encode_to_vec()
                    };
                    leaves(&schema, ty, &sent, "", &mut outer);
                }
                let a = ask(addr, "POST", path, &headers, &sent);
                let (calls, out, mut m) = finish(&mock, &g, &a, &reqtypes);
                m.extend(json!({"op": "post", "path": path, "form": form, "sentType": ctype,
                    "outer": pairs(outer), "inner": pairs(inner), "auth": auth, "calls": calls,
                    "out": out, "resp": tree, "code": code, "cors": cors}).as_object().unwrap().clone());
                t.rec(Value::Object(m));
                continue;
            }
            let mut query: Vec<(String, String)> = vec![];
            let mut args = vec![];
            // at most one thing is wrong with a query
            let wrong = if round % 3 == 2 { g.rng.gen_range(0..ep["params"].as_array().unwrap().len().max(1)) } else { usize::MAX };
            let drop = g.rng.gen_bool(0.4);
            for (k, p) in ep["params"].as_array().unwrap().iter().enumerate() {
                let names = p["names"].as_array().unwrap();
                let form = p["form"].as_str().unwrap();
                let mode = p["mode"].as_str().unwrap();
                if k == wrong && drop && mode != "opt" {
                    continue;
                }
                if let Some((fk, fj, c)) = forced {
                    if fk == k {
                        let (raw, a) = argument(&mut g, names[fj].as_str().unwrap(), form, false, Some(c));
                        query.extend(raw);
                        args.push(a);
                        continue;
                    }
                }
                if (mode == "opt" || mode == "def") && (forced.is_some() || g.rng.gen_bool(0.35)) {
                    continue;
                }
                if mode == "case" && g.rng.gen_bool(0.3) {
                    continue;
                }
                let both = names.len() > 1 && form != "member" && g.rng.gen_bool(0.25);
                let first = g.rng.gen_range(0..names.len());
                for (j, n) in names.iter().enumerate() {
                    if both || j == first {
                        let (raw, a) = argument(&mut g, n.as_str().unwrap(), form, k == wrong && !drop && j == first, None);
                        query.extend(raw);
                        args.push(a);
                    }
                }
            }
            if g.rng.gen_bool(0.3) {
                query.push(("unrelated".into(), "1".into()));
            }
            // order is free
            for k in (1..query.len()).rev() {
                let j = g.rng.gen_range(0..=k);
                query.swap(k, j);
            }
            let q: Vec<String> = query.iter().map(|(a, b)| format!("{a}={b}")).collect();
            let target = if q.is_empty() { path.to_string() } else { format!("{path}?{}", q.join("&")) };
            let a = ask(addr, "GET", &target, &headers, &[]);
            let (calls, out, mut m) = finish(&mock, &g, &a, &reqtypes);
            m.extend(json!({"op": "get", "path": path, "target": target, "args": args, "calls": calls,
                "out": out, "resp": tree, "code": code, "cors": cors}).as_object().unwrap().clone());
            t.rec(Value::Object(m));
        }
        // paths and methods nothing is documented for
        for (method, path) in [("GET", "/"), ("GET", "/v1/castById2"), ("POST", "/v1/castsByFid"), ("GET", "/v1/submitMessage"), ("GET", "/v2/info"), ("DELETE", "/v1/info")] {
            let (cors, addr) = servers[g.rng.gen_range(0..2)].clone();
            let a = ask(addr, method, path, &[], &[]);
            let (calls, _, mut m) = finish(&mock, &g, &a, &reqtypes);
            m.extend(json!({"op": "unknown", "method": method, "path": path, "calls": calls, "cors": cors}).as_object().unwrap().clone());
            t.rec(Value::Object(m));
        }
        // the mesh view: who is asked, with which credentials
        for _ in 0..6 {
            let (cors, addr) = servers[g.rng.gen_range(0..2)].clone();
            let vo = ["", "true", "false", "0", "1"][g.rng.gen_range(0..5)];
            let crawl = ["", "true", "false", "0", "1"][g.rng.gen_range(0..5)];
            let format = ["", "json", "ascii"][g.rng.gen_range(0..3)];
            let mut q = vec![];
            for (k, v) in [("validators_only", vo), ("crawl", crawl), ("format", format)] {
                if !v.is_empty() {
                    q.push(format!("{k}={v}"));
                }
            }
            let fail = [None, Some(tonic::Code::Unauthenticated), Some(tonic::Code::Internal)][g.rng.gen_range(0..3)];
            let crawling = !["", "false", "0"].contains(&crawl);
            let bytes = g.message(if crawling { "MeshTopology" } else { "MeshView" }, 0).1;
            {
                let mut i = mock.0.lock().unwrap();
                i.calls.clear();
                i.reply = bytes;
                i.fail = fail;
            }
            let mut headers = vec![];
            let mut auth = vec![];
            if g.rng.gen_bool(0.6) {
                auth.push("Basic YTpi".to_string());
                headers.push(("authorization".to_string(), "Basic YTpi".to_string()));
            }
            let target = if q.is_empty() { "/v1/mesh".into() } else { format!("/v1/mesh?{}", q.join("&")) };
            let a = ask(addr, "GET", &target, &headers, &[]);
            let (calls, _, mut m) = finish(&mock, &g, &a, &reqtypes);
            m.extend(json!({"op": "mesh", "only": vo, "crawl": crawl, "format": format, "auth": auth,
                "calls": calls, "cors": cors, "code": fail.map(|c| format!("{c:?}")).unwrap_or_default()}).as_object().unwrap().clone());
            t.rec(Value::Object(m));
        }
    }
}

const REQTYPES: &[(&str, &str)] = &[
    ("submit_message", "Message"),
    ("submit_bulk_messages", "SubmitBulkMessagesRequest"),
    ("validate_message", "Message"),
    ("get_shard_chunks", "ShardChunksRequest"),
    ("get_info", "GetInfoRequest"),
    ("get_fids", "FidsRequest"),
    ("get_connected_peers", "GetConnectedPeersRequest"),
    ("get_mesh_view", "GetMeshViewRequest"),
    ("get_mesh_topology", "GetMeshViewRequest"),
    ("get_event", "EventRequest"),
    ("get_events", "EventsRequest"),
    ("get_cast", "CastId"),
    ("get_casts_by_fid", "FidRequest"),
    ("get_casts_by_parent", "CastsByParentRequest"),
    ("get_casts_by_mention", "FidRequest"),
    ("get_reaction", "ReactionRequest"),
    ("get_reactions_by_fid", "ReactionsByFidRequest"),
    ("get_reactions_by_cast", "ReactionsByTargetRequest"),
    ("get_reactions_by_target", "ReactionsByTargetRequest"),
    ("get_user_data", "UserDataRequest"),
    ("get_user_data_by_fid", "FidRequest"),
    ("get_username_proof", "UsernameProofRequest"),
    ("get_user_name_proofs_by_fid", "FidRequest"),
    ("get_verification", "VerificationRequest"),
    ("get_verifications_by_fid", "FidRequest"),
    ("get_on_chain_signer", "SignerRequest"),
    ("get_on_chain_signers_by_fid", "FidRequest"),
    ("get_signer", "SignerRequest"),
    ("get_signers_by_fid", "SignersByFidRequest"),
    ("get_on_chain_events", "OnChainEventRequest"),
    ("get_channel_owner", "ChannelOwnerRequest"),
    ("get_channels_by_address", "ChannelsByAddressRequest"),
    ("get_channels_by_fid", "ChannelsByFidRequest"),
    ("get_channel_member", "ChannelMemberRequest"),
    ("get_channel_members", "ChannelMembersRequest"),
    ("get_channel_pin", "ChannelRequest"),
    ("get_channel_moderations", "ChannelModerationsRequest"),
    ("get_channel_metadata", "ChannelRequest"),
    ("get_channel_memberships_by_fid", "ChannelMembershipsByFidRequest"),
    ("get_channel_followers", "ChannelFollowersRequest"),
    ("get_channel_follower_count", "ChannelFollowerCountRequest"),
    ("get_channel_follows", "ChannelFollowsRequest"),
    ("is_following_channel", "IsFollowingChannelRequest"),
    ("get_id_registry_on_chain_event", "FidRequest"),
    ("get_id_registry_on_chain_event_by_address", "IdRegistryEventByAddressRequest"),
    ("get_current_storage_limits_by_fid", "FidRequest"),
    ("get_fid_address_type", "FidAddressTypeRequest"),
    ("get_link", "LinkRequest"),
    ("get_links_by_fid", "LinksByFidRequest"),
    ("get_links_by_target", "LinksByTargetRequest"),
    ("get_link_compact_state_message_by_fid", "FidRequest"),
    ("get_all_cast_messages_by_fid", "FidTimestampRequest"),
    ("get_all_reaction_messages_by_fid", "FidTimestampRequest"),
    ("get_all_verification_messages_by_fid", "FidTimestampRequest"),
    ("get_all_user_data_messages_by_fid", "FidTimestampRequest"),
    ("get_all_link_messages_by_fid", "FidTimestampRequest"),
    ("get_all_lend_storage_messages_by_fid", "FidTimestampRequest"),
    ("get_trie_metadata_by_prefix", "TrieNodeMetadataRequest"),
];
