//! Message stores driven one message at a time (Merge.tla / MergeTrace.tla).
use crate::common::*;
use prost::Message as _;
use rand::seq::SliceRandom;
use rand::Rng as _;
use serde_json::{json, Value};
use snapchain::core::error::HubError;
use snapchain::proto::{self, message_data::Body, *};
use snapchain::storage::db::{PageOptions, RocksDB, RocksDbTransactionBatch};
use snapchain::storage::store::account::*;
use snapchain::version::version::EngineVersion;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

#[derive(Clone)]
pub struct M {
    pub store: &'static str,
    pub kind: &'static str,
    pub key: String,
    pub lt: String,
    pub tgt: u64,
    pub tgts: Vec<u64>,
    pub par: String,
    pub ments: Vec<u64>,
    pub sub: String,
    pub follow: String,
    pub proto: proto::Message,
    pub target: Option<reaction_body::Target>,
    pub parent: Option<cast_add_body::Parent>,
}

pub fn n(x: u64) -> String {
    x.to_string()
}

impl M {
    pub fn fid(&self) -> u64 {
        self.proto.data.as_ref().unwrap().fid
    }
    pub fn ts(&self) -> u32 {
        self.proto.data.as_ref().unwrap().timestamp
    }
    // timestamps count from the history's base, accounts are names: TLC integers have 32 bits
    pub fn json(&self, id: usize, hr: usize, base: u32) -> Value {
        json!({"id": id, "fid": n(self.fid()), "store": self.store, "kind": self.kind, "key": self.key,
               "ts": self.ts() - base, "hr": hr, "lt": self.lt, "tgt": n(self.tgt), "tgts": self.tgts.iter().map(|x| n(*x)).collect::<Vec<_>>(), "par": self.par,
               "ments": self.ments.iter().map(|x| n(*x)).collect::<Vec<_>>(), "sub": self.sub, "signer": hex::encode(&self.proto.signer),
               "follow": self.follow})
    }
}

/// Values a history draws from; chosen to sit next to each other on disk.
pub struct Pool {
    pub fids: Vec<u64>,
    pub base: u32,
    hashes: Vec<Vec<u8>>,
    pub types: Vec<String>,
    pub targets: Vec<u64>,
    pub urls: Vec<String>,
    pub casts: Vec<CastId>,
    addrs: Vec<Vec<u8>>,
    signers: Vec<Vec<u8>>,
}

pub fn pool(r: &mut Rng) -> Pool {
    let fidpool = [1u64, 2, 255, 256, 257, 65535, 65536, 16777216, 4294967294, 4294967295];
    let mut fids: Vec<u64> = fidpool.choose_multiple(r, 2).cloned().collect();
    fids.sort();
    let base = *[1u32, 254, 65534, 16777214, 0x7fff_fffe, 0xffff_fff0].choose(r).unwrap();
    // hashes that agree except in one byte
    let stem: Vec<u8> = (0..20).map(|_| r.gen()).collect();
    let mut hashes = vec![];
    for i in 0..64u32 {
        let mut h = stem.clone();
        match r.gen_range(0..4) {
            0 => h[19] = i as u8,
            1 => h[0] = i as u8,
            2 => h[r.gen_range(1..19)] ^= 1 + i as u8,
            _ => h = (0..20).map(|_| r.gen()).collect(),
        }
        if i == 5 {
            h = vec![0xff; 20];
        }
        if i == 6 {
            h = vec![0; 20];
        }
        hashes.push(h);
    }
    hashes.sort();
    hashes.dedup();
    hashes.shuffle(r);
    let mut types: Vec<String> = ["follow", "block", "f", "followed", "follo"].iter().map(|s| s.to_string()).collect();
    types.shuffle(r);
    types.truncate(2);
    let targets: Vec<u64> = fidpool.choose_multiple(r, 3).cloned().collect();
    let chan = |n: u8| {
        let c = snapchain::core::channel_uri::channel_registrar_for_network(FarcasterNetwork::Devnet).unwrap();
        let mut id = [0u8; 32];
        id[31] = n;
        snapchain::core::channel_uri::ChannelAssetId::for_channel(&c, id).canonical_string()
    };
    let mut urls = vec!["https://a.com".to_string(), "https://a.com/x".into(), "https://a.co".into(), chan(7), chan(77)];
    urls.shuffle(r);
    urls.truncate(4);
    let casts = (0..3)
        .map(|i| CastId { fid: *targets.choose(r).unwrap(), hash: hashes[40 + i].clone() })
        .collect();
    let a: Vec<u8> = (0..20).map(|_| r.gen()).collect();
    let mut b = a.clone();
    b.extend((0..12).map(|_| r.gen::<u8>()));
    let c: Vec<u8> = (0..20).map(|_| r.gen()).collect();
    let signers = (0..2).map(|_| (0..32).map(|_| r.gen()).collect()).collect();
    Pool { fids, base, hashes, types, targets, urls, casts, addrs: vec![a, b, c], signers }
}

pub fn msg(r: &mut Rng, p: &Pool, fid: u64, ty: MessageType, ts: u32, body: Body, hash: Vec<u8>) -> proto::Message {
    let data = MessageData { r#type: ty as i32, fid, timestamp: ts, network: FarcasterNetwork::Devnet as i32, body: Some(body) };
    let data_bytes = match r.gen_range(0..3) {
        0 => None,
        1 => Some(vec![]),
        _ => Some(data.encode_to_vec()),
    };
    proto::Message {
        data: Some(data),
        hash,
        hash_scheme: HashScheme::Blake3 as i32,
        signature: vec![7; 64],
        signature_scheme: SignatureScheme::Ed25519 as i32,
        signer: p.signers.choose(r).unwrap().clone(),
        data_bytes,
    }
}

fn blank(store: &'static str, kind: &'static str, key: String, m: proto::Message) -> M {
    M { store, kind, key, lt: "".into(), tgt: 0, tgts: vec![], par: "".into(), ments: vec![], sub: "".into(), follow: "".into(),
        proto: m, target: None, parent: None }
}

pub fn tname(t: &reaction_body::Target) -> String {
    match t {
        reaction_body::Target::TargetUrl(u) => format!("url:{u}"),
        reaction_body::Target::TargetCastId(c) => format!("cast:{}:{}", c.fid, hex::encode(&c.hash)),
    }
}

/// One random message; `hash` is taken from the pool so that hashes never repeat.
pub fn gen(r: &mut Rng, p: &Pool, store: &str, hash: Vec<u8>, prior: &[M]) -> M {
    let fid = *p.fids.choose(r).unwrap();
    let ts = p.base + r.gen_range(0..4);
    match store {
        "cast" => {
            let adds: Vec<&M> = prior.iter().filter(|m| m.store == "cast" && m.kind == "add" && m.fid() == fid).collect();
            if !adds.is_empty() && r.gen_bool(0.45) || r.gen_bool(0.1) {
                // a removal of a known cast, or of one never seen
                let t = if adds.is_empty() || r.gen_bool(0.1) { p.hashes[r.gen_range(44..46)].clone() } else { adds.choose(r).unwrap().proto.hash.clone() };
                let m = msg(r, p, fid, MessageType::CastRemove, ts, Body::CastRemoveBody(CastRemoveBody { target_hash: t.clone() }), hash);
                blank("cast", "rem", format!("{fid}/{}", hex::encode(t)), m)
            } else {
                let parent = match r.gen_range(0..3) {
                    0 => None,
                    1 => Some(cast_add_body::Parent::ParentUrl(p.urls.choose(r).unwrap().clone())),
                    _ => Some(cast_add_body::Parent::ParentCastId(p.casts.choose(r).unwrap().clone())),
                };
                let ments: Vec<u64> = (0..r.gen_range(0..3)).map(|_| *p.targets.choose(r).unwrap()).collect();
                let m = msg(r, p, fid, MessageType::CastAdd, ts,
                    Body::CastAddBody(CastAddBody { parent: parent.clone(), mentions: ments.clone(), text: "t".into(), ..Default::default() }), hash.clone());
                let mut x = blank("cast", "add", format!("{fid}/{}", hex::encode(hash)), m);
                x.par = match &parent {
                    None => "".into(),
                    Some(cast_add_body::Parent::ParentUrl(u)) => format!("url:{u}"),
                    Some(cast_add_body::Parent::ParentCastId(c)) => format!("cast:{}:{}", c.fid, hex::encode(&c.hash)),
                };
                x.parent = parent;
                x.ments = ments;
                x
            }
        }
        "link" => {
            let lt = p.types.choose(r).unwrap().clone();
            let tgt = *p.targets.choose(r).unwrap();
            if r.gen_bool(0.2) {
                let tgts: Vec<u64> = p.targets.iter().filter(|_| r.gen_bool(0.4)).cloned().collect();
                let m = msg(r, p, fid, MessageType::LinkCompactState, ts,
                    Body::LinkCompactStateBody(LinkCompactStateBody { r#type: lt.clone(), target_fids: tgts.clone() }), hash);
                let mut x = blank("link", "cmp", format!("{fid}/{lt}"), m);
                x.lt = lt;
                x.tgts = tgts;
                x
            } else {
                let add = r.gen_bool(0.6);
                let body = Body::LinkBody(LinkBody { r#type: lt.clone(), display_timestamp: None, target: Some(link_body::Target::TargetFid(tgt)) });
                let ty = if add { MessageType::LinkAdd } else { MessageType::LinkRemove };
                let m = msg(r, p, fid, ty, ts, body, hash);
                let mut x = blank("link", if add { "add" } else { "rem" }, format!("{fid}/{lt}/{tgt}"), m);
                x.sub = lt.clone();
                x.lt = lt;
                x.tgt = tgt;
                x.par = format!("fid:{tgt}");
                x
            }
        }
        "react" => {
            let t = if r.gen_bool(0.6) { reaction_body::Target::TargetUrl(p.urls.choose(r).unwrap().clone()) } else { reaction_body::Target::TargetCastId(p.casts.choose(r).unwrap().clone()) };
            let ty = r.gen_range(1..3);
            let add = r.gen_bool(0.6);
            let mt = if add { MessageType::ReactionAdd } else { MessageType::ReactionRemove };
            let m = msg(r, p, fid, mt, ts, Body::ReactionBody(ReactionBody { r#type: ty, target: Some(t.clone()) }), hash);
            let mut x = blank("react", if add { "add" } else { "rem" }, format!("{fid}/{ty}/{}", tname(&t)), m);
            x.par = tname(&t);
            x.sub = ty.to_string();
            if let reaction_body::Target::TargetUrl(u) = &t {
                if ty == 1 && u.starts_with("eip155:") {
                    x.follow = u.clone();
                }
            }
            x.target = Some(t);
            x
        }
        "data" => {
            let ty = *[1, 2, 3, 5, 6, 7].choose(r).unwrap();
            let m = msg(r, p, fid, MessageType::UserDataAdd, ts, Body::UserDataBody(UserDataBody { r#type: ty, value: "v".into() }), hash);
            let mut x = blank("data", "add", format!("{fid}/{ty}"), m);
            x.sub = ty.to_string();
            x
        }
        _ => {
            let a = p.addrs.choose(r).unwrap().clone();
            let pr = if a.len() == 32 { Protocol::Solana } else { Protocol::Ethereum } as i32;
            let add = r.gen_bool(0.6);
            let (ty, body) = if add {
                (MessageType::VerificationAddEthAddress, Body::VerificationAddAddressBody(VerificationAddAddressBody { address: a.clone(), protocol: pr, ..Default::default() }))
            } else {
                (MessageType::VerificationRemove, Body::VerificationRemoveBody(VerificationRemoveBody { address: a.clone(), protocol: pr }))
            };
            let m = msg(r, p, fid, ty, ts, body, hash);
            let mut x = blank("verif", if add { "add" } else { "rem" }, format!("{fid}/{}", hex::encode(&a)), m);
            x.par = hex::encode(a);
            x
        }
    }
}

pub struct Sys {
    _dir: tempfile::TempDir,
    pub db: Arc<RocksDB>,
    pub cast: Store<CastStoreDef>,
    pub link: Store<LinkStore>,
    pub react: Store<ReactionStoreDef>,
    pub data: Store<UserDataStoreDef>,
    pub verif: Store<VerificationStoreDef>,
    pub txn: RocksDbTransactionBatch,
}

impl Sys {
    pub fn new() -> Sys {
        let dir = tmp();
        let db = Arc::new(RocksDB::new(dir.path().to_str().unwrap()));
        db.open().unwrap();
        let h = StoreEventHandler::new();
        Sys {
            cast: CastStore::new(db.clone(), h.clone(), 100),
            link: LinkStore::new(db.clone(), h.clone(), 100),
            react: ReactionStore::new(db.clone(), h.clone(), 100, snapchain::core::channel_uri::channel_registrar_for_network(FarcasterNetwork::Devnet)),
            data: UserDataStore::new(db.clone(), h.clone(), 100),
            verif: VerificationStore::new(db.clone(), h.clone(), 100),
            db,
            _dir: dir,
            txn: RocksDbTransactionBatch::new(),
        }
    }
    fn merge(&mut self, m: &M) -> Result<HubEvent, HubError> {
        let ctx = MergeContext { version: EngineVersion::latest() };
        let mut t = std::mem::replace(&mut self.txn, RocksDbTransactionBatch::new());
        let mut scratch = RocksDbTransactionBatch::new();
        scratch.batch = t.batch.clone();
        let res = match m.store {
            "cast" => self.cast.merge(&m.proto, &mut t, &ctx),
            "link" => self.link.merge(&m.proto, &mut t, &ctx),
            "react" => self.react.merge(&m.proto, &mut t, &ctx),
            "data" => self.data.merge(&m.proto, &mut t, &ctx),
            _ => self.verif.merge(&m.proto, &mut t, &ctx),
        };
        self.txn = t;
        res
    }
    fn commit(&mut self) {
        let t = std::mem::replace(&mut self.txn, RocksDbTransactionBatch::new());
        self.db.commit(t).unwrap();
    }
}

/// Finds a message in the table by hash.
pub struct Table(pub HashMap<Vec<u8>, usize>);
impl Table {
    pub fn id(&self, m: &proto::Message) -> usize {
        *self.0.get(&m.hash).unwrap_or(&999999)
    }
    pub fn ids(&self, ms: &[proto::Message]) -> Vec<usize> {
        ms.iter().map(|m| self.id(m)).collect()
    }
}

fn walk(mut f: impl FnMut(&PageOptions) -> Result<MessagesPage, HubError>, size: usize, rev: bool, t: &Table) -> (Vec<Vec<usize>>, String) {
    let mut pages = vec![];
    let mut token = None;
    for _ in 0..200 {
        let o = PageOptions { page_size: if size == 0 { None } else { Some(size) }, page_token: token, reverse: rev };
        match f(&o) {
            Err(e) => return (pages, format!("{}: {}", e.code, e.message)),
            Ok(p) => {
                pages.push(t.ids(&p.messages));
                token = p.next_page_token;
                if token.is_none() {
                    return (pages, "".into());
                }
            }
        }
    }
    (pages, "endless".into())
}

fn live(s: &Sys, p: &Pool, t: &Table) -> Vec<usize> {
    let o = PageOptions::default();
    let mut v = vec![];
    for &f in &p.fids {
        v.extend(t.ids(&s.cast.get_all_messages_by_fid(f, None, None, &o).unwrap().messages));
        v.extend(t.ids(&s.link.get_all_messages_by_fid(f, None, None, &o).unwrap().messages));
        v.extend(t.ids(&s.link.get_compact_state_messages_by_fid(f, &o).unwrap().messages));
        v.extend(t.ids(&s.react.get_all_messages_by_fid(f, None, None, &o).unwrap().messages));
        v.extend(t.ids(&s.data.get_all_messages_by_fid(f, None, None, &o).unwrap().messages));
        v.extend(t.ids(&s.verif.get_all_messages_by_fid(f, None, None, &o).unwrap().messages));
    }
    v
}

fn events_del(evs: &[HubEvent], t: &Table) -> Vec<usize> {
    evs.iter()
        .map(|e| match e.body.as_ref().unwrap() {
            hub_event::Body::RevokeMessageBody(b) => t.id(b.message.as_ref().unwrap()),
            hub_event::Body::PruneMessageBody(b) => t.id(b.message.as_ref().unwrap()),
            _ => 999998,
        })
        .collect()
}

pub fn q(base: Value, size: usize, rev: bool, res: (Vec<Vec<usize>>, String)) -> Value {
    let mut b = base;
    let o = b.as_object_mut().unwrap();
    o.insert("op".into(), json!("query"));
    o.insert("size".into(), json!(size));
    o.insert("rev".into(), json!(rev));
    o.insert("pages".into(), json!(res.0));
    o.insert("err".into(), json!(res.1));
    b
}

fn query(r: &mut Rng, s: &Sys, p: &Pool, ms: &[M], t: &Table, stores: &[&str], tr: &mut Trace) {
    let size = *[0usize, 1, 2, 3].choose(r).unwrap();
    let rev = r.gen_bool(0.4);
    let fid = *p.fids.choose(r).unwrap();
    let store = *stores.choose(r).unwrap();
    let tgt = *p.targets.choose(r).unwrap();
    let lt = if r.gen_bool(0.4) { "".to_string() } else { p.types.choose(r).unwrap().clone() };
    let rt: i32 = r.gen_range(0..3);
    let rsub = if rt == 0 { "".to_string() } else { rt.to_string() };
    match r.gen_range(0..12) {
        0 | 1 => {
            let (sub, res) = match store {
                "cast" => ("".to_string(), walk(|o| CastStore::get_cast_adds_by_fid(&s.cast, fid, o), size, rev, t)),
                "link" => (lt.clone(), walk(|o| LinkStore::get_link_adds_by_fid(&s.link, fid, lt.clone(), o), size, rev, t)),
                "react" => (rsub, walk(|o| ReactionStore::get_reaction_adds_by_fid(&s.react, fid, rt, o), size, rev, t)),
                "data" => ("".to_string(), walk(|o| UserDataStore::get_user_data_adds_by_fid(&s.data, fid, o, None, None), size, rev, t)),
                _ => ("".to_string(), walk(|o| VerificationStore::get_verification_adds_by_fid(&s.verif, fid, o), size, rev, t)),
            };
            tr.rec(q(json!({"q": "adds_by_fid", "store": store, "fid": n(fid), "sub": sub}), size, rev, res));
        }
        2 => {
            let (sub, res) = match store {
                "cast" => ("".to_string(), walk(|o| CastStore::get_cast_removes_by_fid(&s.cast, fid, o), size, rev, t)),
                "link" => (lt.clone(), walk(|o| LinkStore::get_link_removes_by_fid(&s.link, fid, lt.clone(), o), size, rev, t)),
                "react" => (rsub, walk(|o| ReactionStore::get_reaction_removes_by_fid(&s.react, fid, rt, o), size, rev, t)),
                "data" => return,
                _ => ("".to_string(), walk(|o| VerificationStore::get_verification_removes_by_fid(&s.verif, fid, o), size, rev, t)),
            };
            tr.rec(q(json!({"q": "removes_by_fid", "store": store, "fid": n(fid), "sub": sub}), size, rev, res));
        }
        3 | 4 => {
            let a = if r.gen_bool(0.5) { None } else { Some(p.base + r.gen_range(0..4)) };
            let b = if r.gen_bool(0.5) { None } else { Some(p.base + r.gen_range(0..4)) };
            let res = match store {
                "cast" => walk(|o| s.cast.get_all_messages_by_fid(fid, a, b, o), size, rev, t),
                "link" => walk(|o| s.link.get_all_messages_by_fid(fid, a, b, o), size, rev, t),
                "react" => walk(|o| s.react.get_all_messages_by_fid(fid, a, b, o), size, rev, t),
                "data" => walk(|o| UserDataStore::get_user_data_adds_by_fid(&s.data, fid, o, a, b), size, rev, t),
                _ => walk(|o| s.verif.get_all_messages_by_fid(fid, a, b, o), size, rev, t),
            };
            let f = |x: Option<u32>| x.map(|v| (v - p.base) as i64).unwrap_or(-1);
            tr.rec(q(json!({"q": "all_by_fid", "store": store, "fid": n(fid), "start": f(a), "stop": f(b)}), size, rev, res));
        }
        5 => {
            let res = walk(|o| LinkStore::get_link_compact_state_message_by_fid(&s.link, fid, o), size, rev, t);
            tr.rec(q(json!({"q": "compacts", "fid": n(fid)}), size, rev, res));
        }
        6 | 7 => match store {
            "cast" => {
                let par = if r.gen_bool(0.6) { cast_add_body::Parent::ParentUrl(p.urls.choose(r).unwrap().clone()) } else { cast_add_body::Parent::ParentCastId(p.casts.choose(r).unwrap().clone()) };
                let name = match &par {
                    cast_add_body::Parent::ParentUrl(u) => format!("url:{u}"),
                    cast_add_body::Parent::ParentCastId(c) => format!("cast:{}:{}", c.fid, hex::encode(&c.hash)),
                };
                let res = walk(|o| CastStore::get_casts_by_parent(&s.cast, &par, o), size, rev, t);
                tr.rec(q(json!({"q": "by_parent", "par": name}), size, rev, res));
            }
            "link" => {
                let res = walk(|o| LinkStore::get_links_by_target(&s.link, &link_body::Target::TargetFid(tgt), lt.clone(), o), size, rev, t);
                tr.rec(q(json!({"q": "by_target", "store": "link", "par": format!("fid:{tgt}"), "sub": lt}), size, rev, res));
            }
            "react" => {
                let x = if r.gen_bool(0.6) { reaction_body::Target::TargetUrl(p.urls.choose(r).unwrap().clone()) } else { reaction_body::Target::TargetCastId(p.casts.choose(r).unwrap().clone()) };
                let res = walk(|o| ReactionStore::get_reactions_by_target(&s.react, &x, rt, o), size, rev, t);
                tr.rec(q(json!({"q": "by_target", "store": "react", "par": tname(&x), "sub": rsub}), size, rev, res));
            }
            "verif" => {
                let a = p.addrs.choose(r).unwrap();
                let (v, e) = match VerificationStore::get_verifications_by_address(&s.verif, a, None) {
                    Err(e) => (vec![], e.code),
                    Ok(v) => {
                        // identified by account and timestamp-hash
                        let ids = v.iter().map(|(f, th)| ms.iter().position(|m| m.fid() == *f && m.proto.hash == th[4..] && m.ts().to_be_bytes() == th[..4]).map(|i| i + 1).unwrap_or(999997)).collect::<Vec<_>>();
                        (ids, "".to_string())
                    }
                };
                tr.rec(q(json!({"q": "by_address", "par": hex::encode(a)}), 0, false, (vec![v], e)));
            }
            _ => {}
        },
        8 => {
            let res = walk(|o| CastStore::get_casts_by_mention(&s.cast, tgt, o), size, rev, t);
            tr.rec(q(json!({"q": "by_mention", "mention": n(tgt)}), size, rev, res));
        }
        9 => {
            let reg = snapchain::core::channel_uri::channel_registrar_for_network(FarcasterNetwork::Devnet).unwrap();
            let u = p.urls.iter().find(|u| u.starts_with("eip155:"));
            let by = |f: u64, ch: [u8; 32]| {
                // a follow row names account, channel and time; find the reaction it stands for
                move |at: u32, ms: &[M]| {
                    ms.iter().enumerate().filter(|(_, m)| m.fid() == f && m.ts() == at && !m.follow.is_empty() && m.kind == "add"
                        && snapchain::core::channel_uri::channel_id_for_follow_target(&m.follow, &reg) == Some(ch)).map(|(i, _)| i + 1).collect::<Vec<_>>()
                }
            };
            let liveset = live(s, p, t);
            let pick = |v: Vec<usize>| v.iter().find(|i| liveset.contains(i)).or(v.first()).cloned().unwrap_or(999996);
            if let Some(u) = u {
                let ch = snapchain::core::channel_uri::channel_id_for_follow_target(u, &reg).unwrap();
                let mut pages = vec![];
                let mut token = None;
                let mut err = "".to_string();
                for _ in 0..100 {
                    let o = PageOptions { page_size: if size == 0 { None } else { Some(size) }, page_token: token, reverse: rev };
                    match ReactionStore::followers_by_channel(&s.react, &ch, &o) {
                        Err(e) => { err = e.code; break }
                        Ok(pg) => {
                            pages.push(pg.entries.iter().map(|e| pick(by(e.fid, e.channel_id)(e.followed_at, ms))).collect::<Vec<_>>());
                            token = pg.next_page_token;
                            if token.is_none() { break }
                        }
                    }
                }
                let n: usize = pages.iter().map(|x| x.len()).sum();
                let cnt = ReactionStore::follower_count(&s.react, &ch).unwrap();
                if cnt != n as u64 && err.is_empty() { err = format!("count {cnt} for {n} followers"); }
                tr.rec(q(json!({"q": "followers", "chan": u}), size, rev, (pages, err)));
            }
            let o = PageOptions { page_size: None, page_token: None, reverse: rev };
            match ReactionStore::follows_by_fid(&s.react, fid, &o) {
                Ok(pg) => {
                    let mut err = "".to_string();
                    for e in &pg.entries {
                        if ReactionStore::is_following(&s.react, fid, &e.channel_id).unwrap() != Some(e.followed_at) { err = "is_following disagrees".into(); }
                    }
                    let ids = pg.entries.iter().map(|e| pick(by(e.fid, e.channel_id)(e.followed_at, ms))).collect::<Vec<_>>();
                    tr.rec(q(json!({"q": "follows", "fid": n(fid)}), 0, rev, (vec![ids], err)));
                }
                Err(e) => tr.rec(q(json!({"q": "follows", "fid": n(fid)}), 0, rev, (vec![], e.code))),
            }
        }
        _ => {
            // point lookups of a message's own slot
            let Some(m) = ms.choose(r) else { return };
            if m.kind == "cmp" { return }
            let kind = if r.gen_bool(0.5) || m.store == "data" { "add" } else { "rem" };
            let h = match &m.proto.data.as_ref().unwrap().body { Some(Body::CastRemoveBody(b)) => b.target_hash.clone(), _ => m.proto.hash.clone() };
            let f = m.fid();
            let rty: i32 = m.sub.parse().unwrap_or(0);
            let lt = Some(link_body::Target::TargetFid(m.tgt));
            let addr = hex::decode(&m.par).unwrap_or_default();
            let res = match (m.store, kind) {
                ("cast", "add") => CastStore::get_cast_add(&s.cast, f, h),
                ("cast", _) => CastStore::get_cast_remove(&s.cast, f, h),
                ("link", "add") => LinkStore::get_link_add(&s.link, f, m.lt.clone(), lt),
                ("link", _) => LinkStore::get_link_remove(&s.link, f, m.lt.clone(), lt),
                ("react", "add") => ReactionStore::get_reaction_add(&s.react, f, rty, m.target.clone()),
                ("react", _) => ReactionStore::get_reaction_remove(&s.react, f, rty, m.target.clone()),
                ("data", _) => UserDataStore::get_user_data_add(&s.data, f, rty),
                (_, "add") => VerificationStore::get_verification_add(&s.verif, f, &addr, None),
                (_, _) => VerificationStore::get_verification_remove(&s.verif, f, &addr),
            };
            let (v, e) = match res { Ok(Some(x)) => (vec![t.id(&x)], "".into()), Ok(None) => (vec![], "".into()), Err(e) => (vec![], e.code) };
            tr.rec(q(json!({"q": "get", "store": m.store, "kind": kind, "key": m.key}), 0, false, (vec![v], e)));
        }
    }
}

/// Runs one history: `order` indexes messages (1-based), 0 = commit.
fn history(r: &mut Rng, p: &Pool, ms: &[M], order: &[usize], stores: &[&'static str], queries: usize, extra: bool, end_only: bool, tr: &mut Trace) {
    let mut ranks: Vec<&Vec<u8>> = ms.iter().map(|m| &m.proto.hash).collect();
    ranks.sort();
    let rank: BTreeMap<&Vec<u8>, usize> = ranks.iter().enumerate().map(|(i, h)| (*h, i)).collect();
    let table = Table(ms.iter().enumerate().map(|(i, m)| (m.proto.hash.clone(), i + 1)).collect());
    tr.rec(json!({"op": "reset", "msgs": ms.iter().enumerate().map(|(i, m)| m.json(i + 1, rank[&m.proto.hash], p.base)).collect::<Vec<_>>()}));
    let mut s = Sys::new();
    for (n, &k) in order.iter().enumerate() {
        if k == 0 {
            s.commit();
            tr.rec(json!({"op": "commit"}));
            continue;
        }
        let m = &ms[k - 1];
        let (res, del) = match s.merge(m) {
            Ok(ev) => match ev.body {
                Some(hub_event::Body::MergeMessageBody(b)) => {
                    let same = b.message.as_ref().map(|x| x.hash == m.proto.hash).unwrap_or(false);
                    (if same { "ok".to_string() } else { "wrong event".into() }, table.ids(&b.deleted_messages))
                }
                _ => ("wrong event".to_string(), vec![]),
            },
            Err(e) => (short(&e.code), vec![]),
        };
        tr.rec(json!({"op": "merge", "m": k, "res": res, "del": del}));
        if n + 1 == order.len() || order.get(n + 1) == Some(&0) || r.gen_bool(0.2) {
            // state is only visible once committed
            s.commit();
            tr.rec(json!({"op": "commit"}));
            if end_only && n + 2 < order.len() {
                continue;
            }
            tr.rec(json!({"op": "live", "ids": live(&s, p, &table)}));
            for _ in 0..queries {
                query(r, &s, p, ms, &table, stores, tr);
            }
            if extra && r.gen_bool(0.15) {
                let store = *stores.choose(r).unwrap();
                let fid = *p.fids.choose(r).unwrap();
                let o = PageOptions::default();
                let mut txn = RocksDbTransactionBatch::new();
                if r.gen_bool(0.5) {
                    let signer = p.signers.choose(r).unwrap();
                    let ev = match store {
                        "cast" => s.cast.revoke_messages_by_signer(fid, signer, &mut txn),
                        "link" => s.link.revoke_messages_by_signer(fid, signer, &mut txn),
                        "react" => s.react.revoke_messages_by_signer(fid, signer, &mut txn),
                        "data" => s.data.revoke_messages_by_signer(fid, signer, &mut txn),
                        _ => s.verif.revoke_messages_by_signer(fid, signer, &mut txn),
                    }
                    .unwrap();
                    tr.rec(json!({"op": "revoke", "store": store, "fid": fid.to_string(), "signer": hex::encode(signer), "del": events_del(&ev, &table)}));
                } else {
                    let all = |x: Result<MessagesPage, HubError>| x.unwrap().messages.len() as u32;
                    let n = match store {
                        "cast" => all(s.cast.get_all_messages_by_fid(fid, None, None, &o)),
                        "link" => all(s.link.get_all_messages_by_fid(fid, None, None, &o)) + all(s.link.get_compact_state_messages_by_fid(fid, &o)),
                        "react" => all(s.react.get_all_messages_by_fid(fid, None, None, &o)),
                        "data" => all(s.data.get_all_messages_by_fid(fid, None, None, &o)),
                        _ => all(s.verif.get_all_messages_by_fid(fid, None, None, &o)),
                    };
                    let max = r.gen_range(0..4u32);
                    let ev = match store {
                        "cast" => s.cast.prune_messages(fid, n, max, &mut txn),
                        "link" => s.link.prune_messages(fid, n, max, &mut txn),
                        "react" => s.react.prune_messages(fid, n, max, &mut txn),
                        "data" => s.data.prune_messages(fid, n, max, &mut txn),
                        _ => s.verif.prune_messages(fid, n, max, &mut txn),
                    }
                    .unwrap();
                    tr.rec(json!({"op": "prune", "store": store, "fid": fid.to_string(), "max": max, "del": events_del(&ev, &table)}));
                }
                s.db.commit(txn).unwrap();
                tr.rec(json!({"op": "commit"}));
                tr.rec(json!({"op": "live", "ids": live(&s, p, &table)}));
            }
        }
    }
}

pub fn universe(r: &mut Rng, p: &Pool, n: usize, stores: &[&'static str]) -> Vec<M> {
    let mut ms: Vec<M> = vec![];
    for i in 0..n {
        let store = *stores.choose(r).unwrap();
        let m = gen(r, p, store, p.hashes[i % 40].clone(), &ms);
        ms.push(m);
    }
    ms
}

/// A behaviour of MergeGen: messages given abstractly, played in the given order.
fn concrete(r: &mut Rng, p: &Pool, store: &'static str, a: &Value, hashes: &[Vec<u8>]) -> M {
    let ts = p.base + a["ts"].as_u64().unwrap() as u32;
    let kind = a["kind"].as_str().unwrap().to_string();
    let k = a["k"].as_u64().unwrap() as usize;
    let fid = p.fids[0];
    let hash = hashes[a["h"].as_u64().unwrap() as usize].clone();
    let x = match store {
        "link" => {
            let lt = p.types[a["l"].as_u64().unwrap() as usize].clone();
            if kind == "cmp" {
                let tgts: Vec<u64> = a["tg"].as_array().unwrap().iter().map(|v| p.targets[v.as_u64().unwrap() as usize]).collect();
                let m = msg(r, p, fid, MessageType::LinkCompactState, ts, Body::LinkCompactStateBody(LinkCompactStateBody { r#type: lt.clone(), target_fids: tgts.clone() }), hash);
                let mut x = blank("link", "cmp", format!("{fid}/{lt}"), m);
                x.lt = lt;
                x.tgts = tgts;
                x
            } else {
                let tgt = p.targets[k];
                let body = Body::LinkBody(LinkBody { r#type: lt.clone(), display_timestamp: None, target: Some(link_body::Target::TargetFid(tgt)) });
                let m = msg(r, p, fid, if kind == "add" { MessageType::LinkAdd } else { MessageType::LinkRemove }, ts, body, hash);
                let mut x = blank("link", if kind == "add" { "add" } else { "rem" }, format!("{fid}/{lt}/{tgt}"), m);
                x.sub = lt.clone();
                x.lt = lt;
                x.tgt = tgt;
                x.par = format!("fid:{tgt}");
                x
            }
        }
        "react" => {
            let t = reaction_body::Target::TargetUrl(p.urls[k].clone());
            let m = msg(r, p, fid, if kind == "add" { MessageType::ReactionAdd } else { MessageType::ReactionRemove }, ts, Body::ReactionBody(ReactionBody { r#type: 1, target: Some(t.clone()) }), hash);
            let mut x = blank("react", if kind == "add" { "add" } else { "rem" }, format!("{fid}/1/{}", tname(&t)), m);
            x.par = tname(&t);
            x.sub = "1".into();
            if p.urls[k].starts_with("eip155:") { x.follow = p.urls[k].clone(); }
            x.target = Some(t);
            x
        }
        "cast" => {
            if kind == "add" {
                // one cast per key: its hash is its identity
                let h = p.hashes[50 + k].clone();
                let m = msg(r, p, fid, MessageType::CastAdd, p.base + 1, Body::CastAddBody(CastAddBody { text: "t".into(), ..Default::default() }), h.clone());
                blank("cast", "add", format!("{fid}/{}", hex::encode(h)), m)
            } else {
                let h = p.hashes[50 + k].clone();
                let m = msg(r, p, fid, MessageType::CastRemove, ts, Body::CastRemoveBody(CastRemoveBody { target_hash: h.clone() }), hash);
                blank("cast", "rem", format!("{fid}/{}", hex::encode(h)), m)
            }
        }
        "data" => {
            let ty = [1, 2][k];
            let m = msg(r, p, fid, MessageType::UserDataAdd, ts, Body::UserDataBody(UserDataBody { r#type: ty, value: "v".into() }), hash);
            let mut x = blank("data", "add", format!("{fid}/{ty}"), m);
            x.sub = ty.to_string();
            x
        }
        _ => {
            let a = p.addrs[k].clone();
            let pr = if a.len() == 32 { Protocol::Solana } else { Protocol::Ethereum } as i32;
            let add = kind == "add";
            let (ty, body) = if add {
                (MessageType::VerificationAddEthAddress, Body::VerificationAddAddressBody(VerificationAddAddressBody { address: a.clone(), protocol: pr, ..Default::default() }))
            } else {
                (MessageType::VerificationRemove, Body::VerificationRemoveBody(VerificationRemoveBody { address: a.clone(), protocol: pr }))
            };
            let m = msg(r, p, fid, ty, ts, body, hash);
            let mut x = blank("verif", if add { "add" } else { "rem" }, format!("{fid}/{}", hex::encode(&a)), m);
            x.par = hex::encode(a);
            x
        }
    };
    x
}

pub fn run(ctx: &Ctx) {
    let all: Vec<&'static str> = if ctx.focus == "compact" { vec!["link"] } else { vec!["cast", "link", "react", "data", "verif"] };
    let shards = 6;
    let mut trs: Vec<Trace> = (0..shards).map(|i| ctx.trace(&format!("t{i}"))).collect();
    let mut r = ctx.rng(1);
    // (A) behaviours enumerated by the specification
    for (i, b) in ctx.behaviours().iter().enumerate() {
        let p = pool(&mut r);
        let abs = b["msgs"].as_array().unwrap();
        for store in &all {
            if *store == "data" && abs.iter().any(|m| m["kind"] != "add") {
                continue;
            }
            let mut hs: Vec<Vec<u8>> = p.hashes[..24].to_vec();
            hs.sort();
            let ms: Vec<M> = abs.iter().map(|a| concrete(&mut r, &p, store, a, &hs)).collect();
            // messages that came out identical (one cast per key) collapse to one
            let mut uniq: Vec<M> = vec![];
            let mut map = vec![];
            for m in ms {
                match uniq.iter().position(|u| u.proto.hash == m.proto.hash) {
                    Some(j) => map.push(j + 1),
                    None => {
                        uniq.push(m);
                        map.push(uniq.len());
                    }
                }
            }
            let mut order = vec![];
            for v in b["order"].as_array().unwrap() {
                order.push(map[v.as_u64().unwrap() as usize - 1]);
                order.push(0);
            }
            history(&mut r, &p, &uniq, &order, &[store], 0, false, true, &mut trs[i % shards]);
        }
    }
    // (B) seeded random histories
    let mut r = ctx.rng(2);
    let (count, queries) = match ctx.focus.as_str() {
        "query" => (ctx.scale(240, 8000), 5),
        _ => (ctx.scale(300, 12000), 0),
    };
    for h in 0..count {
        let p = pool(&mut r);
        let stores: Vec<&'static str> = if h % 3 == 0 { all.to_vec() } else { vec![all[h % all.len()]] };
        let n = r.gen_range(6..26);
        let ms = universe(&mut r, &p, n, &stores);
        let mut order: Vec<usize> = (1..=n).collect();
        for _ in 0..r.gen_range(0..6) {
            order.push(r.gen_range(1..=n));
        }
        order.shuffle(&mut r);
        // one message per commit, or several
        let batch = if h % 4 == 0 { 3 } else { 1 };
        let mut o = vec![];
        for (i, k) in order.iter().enumerate() {
            o.push(*k);
            if i % batch == batch - 1 {
                o.push(0);
            }
        }
        history(&mut r, &p, &ms, &o, &stores, queries, true, false, &mut trs[h % shards]);
    }
}
