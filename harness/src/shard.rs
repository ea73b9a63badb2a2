//! Data shards: engines that propose, validate, replay and crash, driven by the same blocks.
use crate::common::*;
use crate::eip712;
use crate::onchain::{base, Ev};
use crate::validate::{seal, sol_text};
use alloy_primitives::Address;
use ed25519_dalek::{Signer as _, SigningKey};
use rand::seq::SliceRandom;
use rand::Rng as _;
use serde_json::{json, Value};
use snapchain::core::util::FarcasterTime;
use snapchain::core::validations::message::validate_message;
use snapchain::proto::message_data::Body as B;
use snapchain::proto::on_chain_event::Body as OB;
use snapchain::proto::{self, *};
use snapchain::storage::db::{PageOptions, RocksDB, RocksDbTransactionBatch};
use snapchain::storage::store::account::*;
use snapchain::storage::store::engine::{ShardEngine, ShardStateChange};
use snapchain::storage::store::mempool_poller::MempoolMessage;
use snapchain::storage::store::stores::{Limits, StoreLimits};
use snapchain::storage::store::test_helper::{self, EngineOptions};
use snapchain::storage::trie::merkle_trie::{self, TrieKey};
use snapchain::utils::factory::{events_factory, username_factory};
use snapchain::version::version::EngineVersion;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::path::PathBuf;
use std::sync::Arc;

const FIDS: [u64; 7] = [11, 255, 256, 65535, 65536, 16777216, 2147483000];
const KINDS: [&str; 6] = ["cast", "link", "react", "data", "verif", "proof"];
const NAMES: [&str; 4] = ["alice", "bob", "al", "carol"];
const ENS: [&str; 3] = ["alice.eth", "bob.eth", "al.base.eth"];
const PERIOD: u64 = 100_000; // message times are told from this long before the first block

struct Mm {
    m: Message,
    j: Value,
    store: &'static str,
    key: String,
    ts: u32,
}

/// Everything a history mentions, and what it recorded so far.
struct W {
    r: Rng,
    net: FarcasterNetwork,
    t0: u64,
    msgs: Vec<Mm>,
    by_hash: HashMap<Vec<u8>, usize>,
    chain: Vec<Ev>,
    by_log: HashMap<(i32, u64, u32, u32), usize>,
    names: Vec<(FnameTransfer, Value)>,
    by_sig: HashMap<Vec<u8>, usize>,
    blk: Vec<(BlockEvent, Value)>,
    recs: Vec<Value>,
    fids: Vec<u64>,
    keys: HashMap<u64, Vec<SigningKey>>,
    active: HashSet<(u64, usize)>,
    registered: HashSet<u64>,
    cap: u32,
    lim: [u32; 7],
    block: u32,
    log: u32,
    seq: u64,
    tight: bool,
    focus: String,
    spice: bool,
    used: HashSet<String>,
}

fn type_no(x: &Message) -> i32 {
    x.data.as_ref().or(None).map(|d| d.r#type).unwrap_or(0)
}

impl W {
    fn new(mut r: Rng, net: FarcasterNetwork, t0: u64, tight: bool, focus: &str) -> W {
        let mut f = FIDS.to_vec();
        f.shuffle(&mut r);
        f.truncate(r.gen_range(1..=3));
        let spice = r.gen_bool(0.12);
        let keys = f.iter().enumerate().map(|(i, f)| (*f, (0..4).map(|k| SigningKey::from_bytes(&[(i * 8 + k) as u8 + 1; 32])).collect())).collect();
        let lim = if tight { [r.gen_range(1..5), r.gen_range(1..5), r.gen_range(1..4), r.gen_range(1..4), r.gen_range(1..3), r.gen_range(1..3), 1] } else { [400; 7] };
        W {
            net, t0, tight, focus: focus.to_string(), spice, lim, r, keys,
            fids: f,
            msgs: vec![], by_hash: Default::default(), chain: vec![], by_log: Default::default(), names: vec![], by_sig: Default::default(), blk: vec![], recs: vec![],
            active: Default::default(), registered: Default::default(), cap: 0, block: 100, log: 0, seq: 0, used: Default::default(),
        }
    }
    fn limits(&self) -> StoreLimits {
        let l = |x: &[u32; 7]| Limits { casts: x[0], links: x[1], reactions: x[2], user_data: x[3], user_name_proofs: x[4], verifications: x[5], storage_lends: x[6] };
        StoreLimits::new(l(&self.lim), l(&self.lim), l(&self.lim))
    }
    fn base(&self) -> u64 {
        self.t0 - PERIOD
    }
    fn one<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.r.gen_range(0..xs.len())].clone()
    }
    fn fid(&mut self) -> u64 {
        let f = self.fids.clone();
        self.one(&f)
    }

    // --- chain ------------------------------------------------------------------------------------
    fn log(&mut self, tn: i32, fid: u64, ts: u64, body: OB, on: bool, units: u32) -> usize {
        if self.r.gen_bool(0.6) {
            self.block += self.r.gen_range(1..200);
            self.log = 0;
        } else {
            self.log += 1;
        }
        let n = self.chain.len();
        let mut e = base(tn, fid, self.block, self.log, 0, ts, n as u64 + 7 * self.t0, body);
        let id = n + 1;
        e.j["id"] = json!(id);
        e.j["ts"] = json!(0);
        e.j["on"] = json!(on);
        e.j["units"] = json!(units);
        self.by_log.insert((tn, fid, self.block, self.log), id);
        self.chain.push(e);
        id
    }
    fn register(&mut self, f: u64, k: i32) -> usize {
        if k == 1 {
            self.registered.insert(f);
        }
        let to = crate::onchain::addr(self.r.gen());
        self.log(3, f, 1_700_000_000, OB::IdRegisterEventBody(IdRegisterEventBody { to, event_type: k, from: vec![], recovery_address: vec![] }), false, 0)
    }
    fn key(&mut self, f: u64, n: usize, add: bool) -> usize {
        if add {
            self.active.insert((f, n));
        } else {
            self.active.remove(&(f, n));
        }
        let key = self.keys[&f][n].verifying_key().to_bytes().to_vec();
        let body = OB::SignerEventBody(SignerEventBody { key, key_type: 1, event_type: if add { 1 } else { 2 }, metadata: vec![], metadata_type: 1 });
        self.log(1, f, 1_700_000_000, body, false, 0)
    }
    fn rent(&mut self, f: u64, units: u32, on: bool) -> usize {
        let now = chrono::Utc::now().timestamp() as u64;
        let ts = if on { now - 1000 } else { now - 10 * 365 * 86400 };
        self.log(4, f, ts, OB::StorageRentEventBody(StorageRentEventBody { payer: vec![1; 20], units, expiry: 0 }), on, units)
    }
    fn tier(&mut self, f: u64) -> usize {
        let ts = 1_700_000_000;
        self.log(5, f, ts, OB::TierPurchaseEventBody(TierPurchaseBody { tier_type: 1, for_days: 30, payer: vec![1; 20] }), false, 0)
    }

    // --- messages -----------------------------------------------------------------------------------
    fn put(&mut self, f: u64, ty: i32, body: B, ts: u32, store: &'static str, kind: &str, key: String, extra: Value) -> Option<usize> {
        let pick = self.r.gen_range(0..100);
        let n = if pick < 90 {
            let mut a: Vec<usize> = self.active.iter().filter(|x| x.0 == f).map(|x| x.1).collect();
            a.sort();
            if a.is_empty() { 0 } else { self.one(&a) }
        } else {
            self.r.gen_range(0..4)
        };
        let k = self.keys[&f][n].clone();
        let d = MessageData { r#type: ty, fid: f, timestamp: ts, network: self.net as i32, body: Some(body) };
        let mut m = seal(&d, &k, true);
        if self.r.gen_bool(0.02) {
            m.signature[5] ^= 1;
        }
        if self.by_hash.contains_key(&m.hash) {
            return None;
        }
        let need = extra["need"].as_str().unwrap_or("");
        let pr = match (ty, need) {
            (7, _) => 1,
            (12, _) => 2,
            (11, "") => 4,
            (11, _) => 3,
            _ => 5,
        };
        let id = self.msgs.len() + 1;
        let key = if store == "cast" && kind == "add" { format!("c/{}/{}", f, hex::encode(&m.hash)) } else { key };
        let mut j = json!({"id": id, "fid": f, "store": store, "kind": kind, "key": key, "ts": ts as u64 - self.base(), "hr": 0, "lt": "", "tgt": 0, "tgts": [],
            "signer": hex::encode(&m.signer), "mt": ty, "pr": pr, "need": "", "val": "", "addr": "", "prim": ""});
        for (a, b) in extra.as_object().unwrap() {
            j[a] = b.clone();
        }
        self.by_hash.insert(m.hash.clone(), id);
        self.msgs.push(Mm { m, j, store, key, ts });
        Some(id)
    }
    /// May this key be touched (again) in this block?
    fn free(&mut self, s: String) -> bool {
        self.spice || self.used.insert(s)
    }
    fn eth(&self, n: u8) -> (Vec<u8>, String) {
        let a = eip712::wallet(n).address();
        (a.to_vec(), a.to_checksum(None))
    }
    fn sol(&self, n: u8) -> (SigningKey, Vec<u8>, String) {
        let k = SigningKey::from_bytes(&[n.wrapping_add(90); 32]);
        let a = k.verifying_key().to_bytes().to_vec();
        let t = bs58::encode(&a).into_string();
        (k, a, t)
    }
    fn verif_add(&mut self, f: u64, ts: u32) -> Option<usize> {
        let n = self.r.gen_range(1..4u8);
        let bh = vec![self.r.gen_range(0..3u8); 32];
        let sol = self.r.gen_bool(0.4);
        let (address, text, sig) = if sol {
            let (k, a, t) = self.sol(n);
            let s = k.sign(sol_text(f, &a, self.net as i32, &bh).as_bytes()).to_bytes().to_vec();
            (a, t, s)
        } else {
            let (a, t) = self.eth(n);
            let s = eip712::sign(&eip712::wallet(n), eip712::claim_digest(f, &a, &bh, self.net as u64, None));
            (a, t, s)
        };
        let body = B::VerificationAddAddressBody(VerificationAddAddressBody { address: address.clone(), claim_signature: sig, block_hash: bh, verification_type: 0, chain_id: 0, protocol: if sol { 1 } else { 0 } });
        let key = format!("v/{}/{}", f, hex::encode(&address));
        if !self.free(key.clone()) {
            return None;
        }
        self.put(f, 7, body, ts, "verif", "add", key, json!({"addr": text, "prim": if sol {"addr2"} else {"addr"}}))
    }
    fn verif_remove(&mut self, f: u64, ts: u32) -> Option<usize> {
        let n = self.r.gen_range(1..4u8);
        let sol = self.r.gen_bool(0.4);
        let (address, text) = if sol { let x = self.sol(n); (x.1, x.2) } else { self.eth(n) };
        let key = format!("v/{}/{}", f, hex::encode(&address));
        if !self.free(key.clone()) {
            return None;
        }
        self.put(f, 8, B::VerificationRemoveBody(VerificationRemoveBody { address, protocol: if sol { 1 } else { 0 } }), ts, "verif", "rem", key, json!({"addr": text, "prim": if sol {"addr2"} else {"addr"}}))
    }
    fn user(&mut self, now: u64) -> Option<usize> {
        // a message sent again
        if !self.msgs.is_empty() && self.r.gen_bool(0.04) {
            let n = self.r.gen_range(0..self.msgs.len());
            let s = format!("again/{}", self.msgs[n].key);
            return if self.free(s) && self.free(self.msgs[n].key.clone()) { Some(n + 1) } else { None };
        }
        let f = if self.r.gen_bool(0.02) { 999_999 } else { self.fid() };
        if f == 999_999 {
            self.keys.entry(f).or_insert_with(|| (0..4).map(|k| SigningKey::from_bytes(&[k as u8 + 200; 32])).collect());
        }
        let back = if self.tight { self.r.gen_range(0..6) } else { self.r.gen_range(0..40) };
        let ts = (now - back) as u32;
        let wide = self.tight;
        let mut x = self.r.gen_range(0..100);
        if self.focus == "names" && self.r.gen_bool(0.5) {
            x = self.r.gen_range(73..95);
        }
        if self.focus == "limits" && self.r.gen_bool(0.3) {
            x = self.r.gen_range(73..100);
        }
        match x {
            0..=24 => {
                let text = format!("t{}", self.r.gen::<u32>());
                self.put(f, 1, B::CastAddBody(CastAddBody { text, ..Default::default() }), ts, "cast", "add", String::new(), json!({}))
            }
            25..=32 => {
                let mine: Vec<Vec<u8>> = self.msgs.iter().filter(|m| m.store == "cast" && m.m.fid() == f && m.j["kind"] == "add").map(|m| m.m.hash.clone()).collect();
                let target = if mine.is_empty() || self.r.gen_bool(if wide { 0.7 } else { 0.15 }) { self.r.gen::<[u8; 20]>().to_vec() } else { self.one(&mine) };
                let key = format!("c/{}/{}", f, hex::encode(&target));
                if !self.free(key.clone()) {
                    return None;
                }
                self.put(f, 2, B::CastRemoveBody(CastRemoveBody { target_hash: target }), ts, "cast", "rem", key, json!({}))
            }
            33..=52 => {
                let lt = self.one(&["follow", "block"]);
                let t = self.r.gen_range(1..if wide { 60 } else { 6u64 });
                let key = format!("l/{}/{}/{}", f, lt, t);
                if !self.spice && self.used.contains(&format!("cmp/{}/{}", f, lt)) || !self.free(key.clone()) {
                    return None;
                }
                self.used.insert(format!("ln/{}/{}", f, lt));
                let add = self.r.gen_bool(0.7);
                self.put(f, if add { 5 } else { 6 }, B::LinkBody(LinkBody { r#type: lt.into(), display_timestamp: None, target: Some(link_body::Target::TargetFid(t)) }), ts, "link", if add { "add" } else { "rem" }, key, json!({"lt": lt, "tgt": t}))
            }
            53..=56 => {
                let lt = self.one(&["follow", "block"]);
                if !self.spice && self.used.contains(&format!("ln/{}/{}", f, lt)) || !self.free(format!("cmp/{}/{}", f, lt)) {
                    return None;
                }
                let mut t: Vec<u64> = (1..6).collect();
                t.shuffle(&mut self.r);
                t.truncate(self.r.gen_range(0..5));
                self.put(f, 14, B::LinkCompactStateBody(LinkCompactStateBody { r#type: lt.into(), target_fids: t.clone() }), ts, "link", "cmp", format!("k/{}/{}", f, lt), json!({"lt": lt, "tgts": t}))
            }
            57..=72 => {
                let rt = self.r.gen_range(1..3);
                let n = self.r.gen_range(0..if wide { 60u8 } else { 4 });
                let key = format!("r/{}/{}/{}", f, rt, n);
                if !self.free(key.clone()) {
                    return None;
                }
                let add = self.r.gen_bool(0.7);
                let target = Some(reaction_body::Target::TargetCastId(CastId { fid: 3, hash: vec![n; 20] }));
                self.put(f, if add { 3 } else { 4 }, B::ReactionBody(ReactionBody { r#type: rt, target }), ts, "react", if add { "add" } else { "rem" }, key, json!({}))
            }
            73..=90 => {
                let t = self.one(&[1, 2, 3, 5, 6, 6, 6, 8, 11, 11, 12]);
                let (val, need) = match t {
                    6 => {
                        let v = match self.r.gen_range(0..10) {
                            0 => String::new(),
                            1..=5 => self.one(&NAMES).to_string(),
                            _ => self.one(&ENS).to_string(),
                        };
                        (v, "name")
                    }
                    11 => (if self.r.gen_bool(0.1) { String::new() } else { let n = self.r.gen_range(1..4); self.eth(n).1 }, "addr"),
                    12 => (if self.r.gen_bool(0.1) { String::new() } else { let n = self.r.gen_range(1..4); self.sol(n).2 }, "addr2"),
                    _ => (format!("v{}", self.r.gen_range(0..50)), ""),
                };
                let key = format!("d/{}/{}", f, t);
                if !self.free(key.clone()) {
                    return None;
                }
                self.put(f, 11, B::UserDataBody(UserDataBody { r#type: t, value: val.clone() }), ts, "data", "add", key, json!({"need": need, "val": val}))
            }
            91..=94 => {
                let n = self.one(&ENS);
                let key = format!("p/{}", n);
                if !self.free(key.clone()) {
                    return None;
                }
                let p = UserNameProof { timestamp: ts as u64, name: n.as_bytes().to_vec(), owner: vec![7; 20], signature: vec![1; 65], fid: f, r#type: if n.ends_with(".base.eth") { 3 } else { 2 } };
                self.put(f, 12, B::UsernameProofBody(p), ts, "proof", "add", key, json!({"val": n}))
            }
            95..=97 => self.verif_add(f, ts),
            _ => self.verif_remove(f, ts),
        }
    }

    // --- names ------------------------------------------------------------------------------------
    fn transfer(&mut self, now: u64) -> usize {
        if !self.names.is_empty() && self.r.gen_bool(0.1) {
            return self.r.gen_range(0..self.names.len()) + 1;
        }
        let name = self.one(&NAMES);
        let fid = if self.r.gen_bool(0.12) { 0 } else { self.fid() };
        // usually from whoever has it
        let last = self.names.iter().rev().find(|x| x.1["name"] == name).map(|x| x.1["fid"].as_u64().unwrap());
        let from = match self.r.gen_range(0..10) {
            0 => self.fid(),
            1 => 0,
            _ => last.unwrap_or(0),
        };
        if !self.spice && last == Some(fid) && fid != 0 && self.r.gen_bool(0.9) {
            // proving a name anew to the same account is rare
            return self.transfer_of("dave", fid, from, now);
        }
        self.transfer_of(name, fid, from, now)
    }
    fn transfer_of(&mut self, name: &str, fid: u64, from: u64, now: u64) -> usize {
        let good = self.net == FarcasterNetwork::Devnet || self.r.gen_bool(0.92);
        let off = (now - self.base()) as i64 - self.r.gen_range(0..30);
        let mut owner = vec![9u8; 20];
        owner[0] = self.r.gen();
        let signer = eip712::wallet(if good { 9 } else { 8 });
        let mut t = username_factory::create_transfer(fid, name, Some((1_700_000_000 + off) as u32), Some(from), Some(owner), signer);
        t.id = self.names.len() as u64 + 1;
        let sig = t.proof.as_ref().unwrap().signature.clone();
        if let Some(n) = self.by_sig.get(&sig) {
            return *n;
        }
        let id = self.names.len() + 1;
        self.by_sig.insert(sig, id);
        self.names.push((t, json!({"id": id, "fid": fid, "name": name, "ts": off, "sr": 0, "from": from, "ok": good})));
        id
    }

    // --- what the first shard decided ------------------------------------------------------------
    fn decided(&mut self, now: u64) -> usize {
        let odd = self.r.gen_range(0..20);
        if odd == 0 && !self.blk.is_empty() {
            return self.r.gen_range(0..self.blk.len()) + 1;
        }
        let seq = if odd == 1 { self.seq + 2 } else { self.seq + 1 };
        let m = if self.r.gen_bool(0.2) {
            0
        } else {
            let f = self.fid();
            let ts = (now - self.r.gen_range(0..40)) as u32;
            let old: Vec<usize> = (0..self.msgs.len()).filter(|i| self.msgs[*i].store == "verif").map(|i| i + 1).collect();
            if !old.is_empty() && self.r.gen_bool(0.15) {
                let n = self.one(&old);
                if self.free(self.msgs[n - 1].key.clone()) { n } else { 0 }
            } else if self.r.gen_bool(0.65) {
                self.verif_add(f, ts).unwrap_or(0)
            } else {
                self.verif_remove(f, ts).unwrap_or(0)
            }
        };
        let mut e = if m == 0 { events_factory::create_heartbeat_event(seq) } else { events_factory::create_merge_message_event(self.msgs[m - 1].m.clone(), seq) };
        let at = now - self.r.gen_range(0..5);
        e.data.as_mut().unwrap().block_timestamp = at;
        let v = EngineVersion::version_for(&FarcasterTime::new(at), self.net) as u32;
        if odd != 1 {
            self.seq = seq;
        }
        self.blk.push((e, json!({"seq": seq, "m": m, "v": v})));
        self.blk.len()
    }

    // --- a pool for a block -------------------------------------------------------------------------
    fn give(&self, t: &str, n: usize) -> (MempoolMessage, u64) {
        match t {
            "user" => (MempoolMessage::UserMessage(self.msgs[n - 1].m.clone()), self.msgs[n - 1].m.fid()),
            "on" => (MempoolMessage::OnchainEvent(self.chain[n - 1].e.clone()), self.chain[n - 1].e.fid),
            "name" => (MempoolMessage::FnameTransfer(self.names[n - 1].0.clone()), self.names[n - 1].0.proof.as_ref().unwrap().fid),
            _ => {
                let b = self.blk[n - 1].0.clone();
                let m = self.blk[n - 1].1["m"].as_u64().unwrap() as usize;
                (MempoolMessage::BlockEvent { for_shard: 1, message: b }, if m == 0 { 0 } else { self.msgs[m - 1].m.fid() })
            }
        }
    }
    fn pool(&mut self, h: u64, now: u64) -> Vec<(&'static str, usize)> {
        self.used.clear();
        let mut p = vec![];
        if h == 1 {
            for f in self.fids.clone() {
                if self.r.gen_bool(0.95) {
                    p.push(("on", self.register(f, 1)));
                }
                for n in 0..2 {
                    p.push(("on", self.key(f, n, true)));
                }
                if self.r.gen_bool(0.9) {
                    let u = self.r.gen_range(1..3);
                    p.push(("on", self.rent(f, u, true)));
                }
            }
        }
        for _ in 0..[0, 0, 0, 1, 2][self.r.gen_range(0..5)] {
            let f = self.fid();
            let x = match self.r.gen_range(0..20) {
                0..=4 => { let u = self.r.gen_range(1..3); self.rent(f, u, true) }
                5 => self.rent(f, 5, false),
                6 => self.register(f, 1),
                7 => self.register(f, 2),
                8..=9 => self.tier(f),
                10..=12 => { let n = self.r.gen_range(0..3); self.key(f, n, true) }
                13..=17 => { let n = self.r.gen_range(0..3); self.key(f, n, false) }
                _ => self.r.gen_range(0..self.chain.len().max(1)) + 1,
            };
            if x <= self.chain.len() {
                p.push(("on", x));
            }
        }
        let some = if self.focus == "names" { [1, 2, 2, 3] } else { [0, 1, 1, 2] };
        for _ in 0..some[self.r.gen_range(0..4)] {
            let t = self.transfer(now);
            p.push(("name", t));
        }
        if self.net == FarcasterNetwork::Devnet || self.r.gen_bool(0.3) {
            for _ in 0..self.r.gen_range(0..3) {
                let b = self.decided(now);
                p.push(("blk", b));
            }
        }
        let many = match (self.focus.as_str(), self.tight) { ("limits", _) => 12, (_, true) => 8, _ => 14 };
        for _ in 0..self.r.gen_range(0..many) {
            if let Some(m) = self.user(now) {
                if !p.contains(&("user", m)) {
                    p.push(("user", m));
                }
            }
        }
        p
    }

    // --- how things came out -------------------------------------------------------------------------
    fn id(&self, m: &Option<Message>) -> usize {
        m.as_ref().and_then(|m| self.by_hash.get(&m.hash)).copied().unwrap_or(999_999)
    }
    fn proof_id(&self, p: &UserNameProof) -> usize {
        self.by_sig.get(&p.signature).copied().unwrap_or(999_998)
    }
    fn event(&self, e: &HubEvent) -> Value {
        let i = [e.id >> 14, e.id & 16383];
        let (k, m, d, why): (&str, usize, Vec<usize>, String) = match e.body.as_ref().unwrap() {
            hub_event::Body::MergeMessageBody(b) => ("merge", self.id(&b.message), b.deleted_messages.iter().map(|m| self.id(&Some(m.clone()))).collect(), "".into()),
            hub_event::Body::PruneMessageBody(b) => ("prune", self.id(&b.message), vec![], "".into()),
            hub_event::Body::RevokeMessageBody(b) => ("revoke", self.id(&b.message), vec![], "".into()),
            hub_event::Body::MergeUsernameProofBody(b) => {
                if b.username_proof_message.is_some() {
                    ("merge", self.id(&b.username_proof_message), b.deleted_username_proof_message.iter().map(|m| self.id(&Some(m.clone()))).collect(), "".into())
                } else if b.deleted_username_proof_message.is_some() {
                    ("unproof", self.id(&b.deleted_username_proof_message), vec![], "".into())
                } else {
                    ("name", self.proof_id(b.username_proof.as_ref().unwrap()), b.deleted_username_proof.iter().map(|p| self.proof_id(p)).collect(), "".into())
                }
            }
            hub_event::Body::MergeOnChainEventBody(b) => {
                let e = b.on_chain_event.as_ref().unwrap();
                ("onchain", self.by_log.get(&(e.r#type, e.fid, e.block_number, e.log_index)).copied().unwrap_or(999_997), vec![], "".into())
            }
            hub_event::Body::MergeFailure(b) => {
                let w = match (b.code.as_str(), b.reason.as_str()) {
                    (_, "unknown fid") => "fid",
                    (_, "invalid signer") => "signer",
                    (_, "invalid message type") => "type",
                    (_, "fname is not registered for fid") => "name",
                    (_, "address is not part of any verification") => "address",
                    ("bad_request.duplicate", _) => "duplicate",
                    ("bad_request.conflict", _) => "conflict",
                    ("bad_request.prunable", _) => "prunable",
                    ("not_found", _) => "name",
                    ("bad_request.validation_failure", _) => "malformed",
                    (c, _) => c,
                };
                if std::env::var("SNAPSPEC_WHY").is_ok() && w == "malformed" {
                    eprintln!("{} {}", b.code, b.reason);
                }
                ("fail", self.id(&b.message), vec![], w.into())
            }
            _ => ("other", e.r#type as usize, vec![], "".into()),
        };
        json!({"i": i, "k": k, "m": m, "d": d, "why": why})
    }
    fn txs(&self, ts: &[Transaction]) -> Value {
        ts.iter()
            .map(|t| {
                let sys: Vec<Value> = t
                    .system_messages
                    .iter()
                    .map(|s| {
                        if let Some(e) = &s.on_chain_event {
                            json!({"t": "on", "n": self.by_log.get(&(e.r#type, e.fid, e.block_number, e.log_index)).copied().unwrap_or(0)})
                        } else if let Some(x) = &s.fname_transfer {
                            json!({"t": "name", "n": self.proof_id(x.proof.as_ref().unwrap())})
                        } else {
                            let b = s.block_event.as_ref().unwrap();
                            json!({"t": "blk", "n": self.blk.iter().position(|x| x.0 == *b).map(|x| x + 1).unwrap_or(0)})
                        }
                    })
                    .collect();
                json!({"fid": t.fid, "sys": sys, "user": t.user_messages.iter().map(|m| self.id(&Some(m.clone()))).collect::<Vec<_>>()})
            })
            .collect()
    }
    /// Writes the history: who is who first.
    fn finish(mut self, h: u64, tr: &mut Trace) {
        let mut hs: Vec<(Vec<u8>, usize)> = self.by_hash.iter().map(|(a, b)| (a.clone(), *b)).collect();
        hs.sort();
        for (n, (_, i)) in hs.iter().enumerate() {
            self.msgs[*i - 1].j["hr"] = json!(n + 1);
        }
        let mut ss: Vec<(Vec<u8>, usize)> = self.by_sig.iter().map(|(a, b)| (a.clone(), *b)).collect();
        ss.sort();
        for (n, (_, i)) in ss.iter().enumerate() {
            self.names[*i - 1].1["sr"] = json!(n + 1);
        }
        let mut ks: Vec<Vec<u8>> = self.keys.values().flatten().map(|k| k.verifying_key().to_bytes().to_vec()).collect();
        ks.sort();
        let rank: serde_json::Map<String, Value> = ks.iter().enumerate().map(|(n, k)| (hex::encode(k), json!(n))).collect();
        let l = &self.lim;
        tr.rec(json!({"op": "reset", "net": format!("{:?}", self.net), "h": h, "seq": 0,
            "msgs": self.msgs.iter().map(|m| m.j.clone()).collect::<Vec<_>>(),
            "chain": self.chain.iter().map(|m| m.j.clone()).collect::<Vec<_>>(),
            "names": self.names.iter().map(|m| m.1.clone()).collect::<Vec<_>>(),
            "blk": self.blk.iter().map(|m| m.1.clone()).collect::<Vec<_>>(),
            "limits": {"cast": l[0], "link": l[1], "react": l[2], "data": l[3], "proof": l[4], "verif": l[5]},
            "rank": rank, "fids": self.fids}));
        for r in self.recs {
            tr.rec(r);
        }
    }
}

/// An engine with the database it runs on.
struct Node {
    e: ShardEngine,
    db: Arc<RocksDB>,
    path: PathBuf,
    _dir: tempfile::TempDir,
}
type Rt = tokio::runtime::Runtime;
async fn engine(w: &W, db: &Arc<RocksDB>) -> ShardEngine {
    test_helper::new_engine_with_options(EngineOptions {
        limits: Some(w.limits()),
        db: Some(db.clone()),
        network: Some(w.net),
        fname_signer_address: if w.net == FarcasterNetwork::Devnet { None } else { Some(eip712::wallet(9).address()) },
        ..Default::default()
    })
    .await
    .0
}
impl Node {
    fn open(rt: &Rt, w: &W, dir: tempfile::TempDir) -> Node {
        let path = dir.path().join("d");
        let db = Arc::new(RocksDB::new(path.to_str().unwrap()));
        db.open().unwrap();
        Node { e: rt.block_on(engine(w, &db)), db, path, _dir: dir }
    }
    fn new(rt: &Rt, w: &W) -> Node {
        Node::open(rt, w, tmp())
    }
    fn height(&self) -> Height {
        Height { shard_index: 1, block_number: self.e.get_confirmed_height().block_number + 1 }
    }
    fn root(&self) -> Vec<u8> {
        self.e.get_stores().trie.root_hash().unwrap()
    }
    fn live(&self, w: &W) -> Vec<Message> {
        let s = self.e.get_stores();
        let o = PageOptions::default();
        let mut v = vec![];
        let mut fids = w.fids.clone();
        fids.push(999_999);
        for f in fids {
            v.extend(s.cast_store.get_all_messages_by_fid(f, None, None, &o).unwrap().messages);
            v.extend(s.link_store.get_all_messages_by_fid(f, None, None, &o).unwrap().messages);
            v.extend(s.link_store.get_compact_state_messages_by_fid(f, &o).unwrap().messages);
            v.extend(s.reaction_store.get_all_messages_by_fid(f, None, None, &o).unwrap().messages);
            v.extend(s.user_data_store.get_all_messages_by_fid(f, None, None, &o).unwrap().messages);
            v.extend(s.verification_store.get_all_messages_by_fid(f, None, None, &o).unwrap().messages);
            v.extend(s.username_proof_store.get_all_messages_by_fid(f, None, None, &o).unwrap().messages);
        }
        v
    }
    fn logs(&self) -> Vec<OnChainEvent> {
        let s = self.e.get_stores();
        [1, 3, 4, 5].iter().flat_map(|t| s.onchain_event_store.get_onchain_events(OnChainEventType::try_from(*t).unwrap(), None).unwrap()).collect()
    }
    fn state(&self, w: &W) -> Value {
        let s = self.e.get_stores();
        let live: BTreeSet<usize> = self.live(w).iter().map(|m| w.id(&Some(m.clone()))).collect();
        let chain: BTreeSet<usize> = self.logs().iter().map(|e| w.by_log.get(&(e.r#type, e.fid, e.block_number, e.log_index)).copied().unwrap_or(999_997)).collect();
        let known: BTreeSet<String> = w.names.iter().map(|n| n.1["name"].as_str().unwrap().to_string()).collect();
        let names: Vec<Value> = known.iter().filter_map(|n| self.e.get_fname_proof(n).unwrap().map(|p| json!([n, w.proof_id(&p)]))).collect();
        let by: Vec<Value> = w.fids.iter().map(|f| json!([f, UserDataStore::get_username_proof_by_fid(&s.user_data_store, *f).unwrap().map(|p| w.proof_id(&p)).unwrap_or(0)])).collect();
        json!({"live": live, "chain": chain, "names": names, "by": by, "seq": s.block_event_store.max_seqnum().unwrap(), "h": self.e.get_confirmed_height().block_number})
    }
    /// The state tree holds what is stored, nothing else.
    fn tree(&mut self, w: &W) -> bool {
        let mut keys: BTreeSet<Vec<u8>> = self.live(w).iter().flat_map(TrieKey::for_message).collect();
        keys.extend(self.logs().iter().map(TrieKey::for_onchain_event));
        let known: BTreeSet<String> = w.names.iter().map(|n| n.1["name"].as_str().unwrap().to_string()).collect();
        keys.extend(known.iter().filter_map(|n| self.e.get_fname_proof(n).unwrap().filter(|p| p.fid != 0).map(|p| TrieKey::for_fname(p.fid, n))));
        let ctx = merkle_trie::Context::new();
        let n = self.e.trie_num_items();
        let all = keys.iter().all(|k| self.e.trie_key_exists(&ctx, k));
        if std::env::var("SNAPSPEC_WHY").is_ok() && (!all || n != keys.len()) {
            eprintln!("tree: {n} items, {} expected, all {all}", keys.len());
        }
        all && n == keys.len()
    }
    fn events(&self, from: u64, to: Option<u64>) -> Vec<HubEvent> {
        HubEvent::get_events(self.db.clone(), from, to, None).unwrap().events
    }
    fn block_events(&self, w: &W, h: u64) -> (Vec<Value>, Value) {
        let es = self.events(h << 14, Some((h + 1) << 14));
        let mut conf = json!({"i": [0, 0], "total": 0});
        let mut out = vec![];
        for e in es {
            match e.body.as_ref().unwrap() {
                hub_event::Body::BlockConfirmedBody(b) => conf = json!({"i": [e.id >> 14, e.id & 16383], "total": b.total_events}),
                _ => out.push(w.event(&e)),
            }
        }
        (out, conf)
    }
}

fn chunk(h: u64, c: &ShardStateChange) -> ShardChunk {
    test_helper::state_change_to_shard_chunk(1, h, c)
}
fn tampered(w: &mut W, c: &ShardStateChange) -> Option<ShardStateChange> {
    let mut x = c.clone();
    match w.r.gen_range(0..4) {
        0 => {
            let n = w.r.gen_range(0..x.new_state_root.len());
            x.new_state_root[n] ^= 1 << w.r.gen_range(0..8);
        }
        1 => x.new_state_root.clear(),
        2 => {
            // another account's root
            let t = x.transactions.last_mut()?;
            if t.account_root.is_empty() {
                return None;
            }
            t.account_root[3] ^= 1;
        }
        _ => {
            // a log that was merged is left out
            let f = w.fids[0];
            let l = OnChainEvent { block_number: 5, log_index: 77, ..base(4, f, 5, 77, 0, 1_700_000_000, 99, OB::StorageRentEventBody(StorageRentEventBody { payer: vec![], units: 1, expiry: 0 })).e };
            x.transactions.push(Transaction { fid: f, system_messages: vec![ValidatorMessage { on_chain_event: Some(l), ..Default::default() }], user_messages: vec![], account_root: vec![] });
        }
    }
    Some(x)
}

fn history(ctx: &Ctx, rt: &Rt, n: u64, tr: &mut Trace, switches: &[u64], crash: bool) {
    let mut r = ctx.rng(1000 + n);
    let main = r.gen_bool(0.5);
    let net = if main { FarcasterNetwork::Mainnet } else { FarcasterNetwork::Devnet };
    let step = r.gen_range(5..60);
    let blocks = r.gen_range(5..12u64);
    let now = FarcasterTime::current().to_u64();
    let t0 = if main {
        // across the switch of a version, or well within one
        let s = switches[r.gen_range(0..switches.len())];
        if r.gen_bool(0.5) { s - step * blocks / 2 } else { s + 3600 }
    } else {
        now - 5000
    };
    let tight = r.gen_bool(match ctx.focus.as_str() { "limits" => 0.85, "names" => 0.15, _ => 0.45 });
    let mut w = W::new(r, net, t0, tight, &ctx.focus);
    let (mut p, mut v, mut q) = (Node::new(rt, &w), Node::new(rt, &w), Node::new(rt, &w));
    let mut k = if crash { Some(Node::new(rt, &w)) } else { None };
    let mut chunks = vec![];
    for h in 1..=blocks {
        let at = t0 + h * step;
        let time = FarcasterTime::new(at);
        let ver = EngineVersion::version_for(&time, net);
        // something is proposed and given up
        if h > 1 && w.r.gen_bool(0.3) {
            let before = (w.used.clone(), p.state(&w), p.root());
            let ids: Vec<_> = (0..w.r.gen_range(1..6)).filter_map(|_| w.user(at)).map(|m| ("user", m)).collect();
            let ms = ids.iter().map(|(t, n)| w.give(t, *n).0).collect();
            let hh = p.height();
            p.e.start_round(hh, informalsystems_malachitebft_core_types::Round::Nil);
            let c = p.e.propose_state_change(1, ms, Some(time.clone()));
            let ok = p.e.validate_state_change(&c, hh);
            let (s2, r2) = (p.state(&w), p.root());
            let strip = |mut s: Value| { s["names"] = json!(0); s["by"] = json!(0); s };
            w.recs.push(json!({"op": "abandon", "same": ok && strip(s2) == strip(before.1) && r2 == before.2 && p.events(h << 14, None).is_empty()}));
        }
        let items = w.pool(h, at);
        let given: Vec<(MempoolMessage, u64)> = items.iter().map(|(t, n)| w.give(t, *n)).collect();
        let input: Vec<Value> = items.iter().zip(&given).map(|((t, n), g)| json!({"f": g.1, "t": t, "n": n})).collect();
        let mut rx = p.e.get_senders().events_tx.subscribe();
        let hh = p.height();
        p.e.start_round(hh, informalsystems_malachitebft_core_types::Round::Nil);
        let c = p.e.propose_state_change(1, given.into_iter().map(|g| g.0).collect(), Some(time.clone()));
        w.recs.push(json!({"op": "pool", "v": ver as u32, "in": input, "out": w.txs(&c.transactions)}));
        let mut valid = vec![];
        if w.r.gen_bool(0.5) {
            valid.push(p.e.validate_state_change(&c, hh));
        }
        let vh = v.height();
        v.e.start_round(vh, informalsystems_malachitebft_core_types::Round::Nil);
        if w.r.gen_bool(0.4) {
            if let Some(x) = tampered(&mut w, &c) {
                let got = v.e.validate_state_change(&x, vh);
                w.recs.push(json!({"op": "tamper", "got": got}));
            }
        }
        valid.push(v.e.validate_state_change(&c, vh));
        if w.r.gen_bool(0.25) {
            // another proposal for the same state is the last one seen
            let mut alt = c.clone();
            alt.transactions.reverse();
            for t in &mut alt.transactions {
                if w.r.gen_bool(0.5) {
                    let d = MessageData { r#type: 1, fid: t.fid, timestamp: at as u32, network: net as i32, body: Some(B::CastAddBody(CastAddBody { text: "never".into(), ..Default::default() })) };
                    t.user_messages.insert(0, seal(&d, &SigningKey::from_bytes(&[250; 32]), true));
                }
            }
            v.e.validate_state_change(&alt, vh);
        }
        let b = chunk(h, &c);
        chunks.push(b.clone());
        let mut fell = vec![];
        if w.r.gen_bool(0.3) {
            q.e = rt.block_on(engine(&w, &q.db));
        }
        for (j, n) in [&mut p, &mut v, &mut q].into_iter().enumerate() {
            if let Err(e) = guarded(|| rt.block_on(n.e.commit_shard_chunk(&b))) {
                fell.push(json!({"node": j + 1, "why": e.chars().take(200).collect::<String>()}));
            }
        }
        if !fell.is_empty() {
            w.recs.push(json!({"op": "fell", "h": h, "at": fell}));
            w.finish(0, tr);
            return;
        }
        let wf: BTreeSet<usize> = c.transactions.iter().flat_map(|t| &t.user_messages).filter(|m| validate_message(m, net, false, &time, ver).is_ok()).map(|m| w.id(&Some(m.clone()))).collect();
        let (e1, conf) = p.block_events(&w, h);
        let (e2, _) = v.block_events(&w, h);
        let (e3, _) = q.block_events(&w, h);
        let tree = p.tree(&w);
        let txs = w.txs(&c.transactions);
        w.recs.push(json!({"op": "block", "h": h, "v": ver as u32, "txs": txs, "wf": wf, "evs": [e1, e2, e3], "conf": conf,
            "roots": [hex::encode(p.root()), hex::encode(v.root()), hex::encode(q.root()), hex::encode(&c.new_state_root)], "valid": valid, "tree": tree}));
        let mut got = vec![];
        while let Ok(e) = rx.try_recv() {
            got.push(json!([e.id >> 14, e.id & 16383, e.r#type]));
        }
        let mut stored: Vec<Value> = p.events(h << 14, Some((h + 1) << 14)).iter().map(|e| json!([e.id >> 14, e.id & 16383, e.r#type])).collect();
        if stored.is_empty() {
            stored = vec![];
        }
        w.recs.push(json!({"op": "stream", "h": h, "got": got, "stored": stored}));
        if w.r.gen_bool(0.5) || h == blocks {
            let at: Vec<Value> = [&p, &v, &q].iter().map(|n| n.state(&w)).collect();
            w.recs.push(json!({"op": "state", "at": at}));
        }
        // the node that crashes
        if let Some(mut n) = k.take() {
            let cut = if w.r.gen_bool(0.5) { Some(w.r.gen_range(0..3u64)) } else { None };
            if w.r.gen_bool(0.5) {
                let kh = n.height();
                n.e.start_round(kh, informalsystems_malachitebft_core_types::Round::Nil);
                n.e.validate_state_change(&c, kh);
            }
            if let Some(c) = cut {
                rocksdb::shim::fail_after(&n.path, Some(c));
            }
            let res = guarded(|| rt.block_on(n.e.commit_shard_chunk(&b)));
            rocksdb::shim::fail_after(&n.path, None);
            let stop = res.is_err() || w.r.gen_bool(0.2);
            if stop {
                let img = rocksdb::shim::image(&n.path).unwrap();
                let dir = tmp();
                rocksdb::shim::write_image(&dir.path().join("d"), &img);
                drop(n);
                n = Node::open(rt, &w, dir);
                let up = n.state(&w);
                let from = up["h"].as_u64().unwrap();
                w.recs.push(json!({"op": "crash", "up": up, "events": n.events(0, None).len()}));
                for b in chunks.iter().skip(from as usize) {
                    let _ = guarded(|| rt.block_on(n.e.commit_shard_chunk(b)));
                }
                let (a, b) = (n.state(&w), p.state(&w));
                let evs = n.block_events(&w, h) == p.block_events(&w, h);
                w.recs.push(json!({"op": "caught-up", "h": n.e.get_confirmed_height().block_number, "same": a == b && evs, "root": n.root() == p.root()}));
            }
            k = Some(n);
        }
    }
    // reading the stream from anywhere
    let reads = if ctx.focus == "stream" { 12 } else { w.r.gen_range(1..4) };
    for _ in 0..reads {
        let from = [w.r.gen_range(0..blocks + 2), w.r.gen_range(0..12)];
        let size = w.r.gen_range(1..40usize);
        let (mut got, mut pages, mut token) = (vec![], vec![], None);
        for _ in 0..400 {
            let x = HubEvent::get_events(p.db.clone(), (from[0] << 14) + from[1], None, Some(PageOptions { page_size: Some(size), page_token: token, reverse: false })).unwrap();
            pages.push(x.events.len());
            got.extend(x.events.iter().map(|e| json!([e.id >> 14, e.id & 16383])));
            token = x.next_page_token;
            if token.is_none() {
                break;
            }
        }
        w.recs.push(json!({"op": "page", "from": from, "size": size, "got": got, "pages": pages}));
    }
    w.finish(0, tr);
}

/// A node that replays a chain after rents of it ran out.
fn late(ctx: &Ctx) {
    let mut tr = ctx.trace("late");
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let net = FarcasterNetwork::Devnet;
    let now = chrono::Utc::now().timestamp() as u64;
    let mut w = W::new(ctx.rng(77), net, FarcasterTime::current().to_u64() - 5000, false, "late");
    let f = w.fids[0];
    // a rent with a few seconds left
    let mut ts = now - 1000;
    for _ in 0..4 {
        let n = w.rent(f, 1, true);
        let mut e = w.chain[n - 1].e.clone();
        e.block_timestamp = ts;
        let end = StorageSlot::from_event(&e, net, EngineVersion::V21).unwrap().invalidate_at as u64;
        ts = now + 8 - (end - ts);
    }
    let (mut p, mut q) = (Node::new(&rt, &w), Node::new(&rt, &w));
    w.lim = [2; 7];
    let mut chunks = vec![];
    let mut ok = true;
    for h in 1..=3u64 {
        let at = FarcasterTime::new(w.t0 + 10 * h);
        let mut ms = vec![];
        if h == 1 {
            let (a, b, c) = (w.register(f, 1), w.key(f, 0, true), w.rent(f, 1, true));
            w.chain[c - 1].e.block_timestamp = ts;
            ms.extend([a, b, c].map(|n| w.give("on", n).0));
        } else {
            let d = MessageData { r#type: 1, fid: f, timestamp: at.to_u64() as u32 - 5, network: net as i32, body: Some(B::CastAddBody(CastAddBody { text: format!("late{h}"), ..Default::default() })) };
            ms.push(MempoolMessage::UserMessage(seal(&d, &w.keys[&f][0], true)));
        }
        let hh = p.height();
        p.e.start_round(hh, informalsystems_malachitebft_core_types::Round::Nil);
        let c = p.e.propose_state_change(1, ms, Some(at));
        ok &= !c.transactions.is_empty();
        let b = chunk(h, &c);
        rt.block_on(p.e.commit_shard_chunk(&b));
        chunks.push(b);
    }
    // only meaningful if the rent was in force all along
    let before = chrono::Utc::now().timestamp() as u64;
    while (chrono::Utc::now().timestamp() as u64) < now + 10 {
        std::thread::sleep(std::time::Duration::from_millis(200));
    }
    let same = guarded(|| {
        for b in &chunks {
            rt.block_on(q.e.commit_shard_chunk(b));
        }
        q.root() == p.root()
    })
    .unwrap_or(false);
    tr.rec(json!({"op": "reset", "h": 0, "seq": 0, "msgs": [], "chain": [], "names": [], "blk": [], "limits": {}, "rank": {}, "fids": []}));
    tr.rec(json!({"op": "late", "valid": ok && before < now + 8, "same": same}));
}

/// When a version of the main network gives way to the next.
fn switches() -> Vec<u64> {
    let mut v = vec![];
    let mut last = 0;
    let mut t = 128_000_000;
    while t < 200_000_000 {
        let x = EngineVersion::version_for(&FarcasterTime::new(t), FarcasterNetwork::Mainnet) as u32;
        if x != last && last != 0 || x == 1 && last == 0 {
            v.push(t);
        }
        last = x;
        t += 300;
    }
    v
}

fn tables(ctx: &Ctx) {
    let mut t = ctx.trace("tables");
    let mut r = ctx.rng(5);
    const ST: [StoreType; 7] = [StoreType::Casts, StoreType::Links, StoreType::Reactions, StoreType::UserData, StoreType::Verifications, StoreType::UsernameProofs, StoreType::StorageLends];
    let l = |x: &[u32; 7]| Limits { casts: x[0], links: x[1], reactions: x[2], user_data: x[3], verifications: x[4], user_name_proofs: x[5], storage_lends: x[6] };
    let d = StoreLimits::default();
    let of = |u: StorageUnitType| {
        let (a, b, c) = match u { StorageUnitType::UnitTypeLegacy => (1, 0, 0), StorageUnitType::UnitType2024 => (0, 1, 0), _ => (0, 0, 1) };
        ST.iter().map(|s| d.max_messages(&StorageSlot::new(a, b, c, 0), *s)).collect::<Vec<_>>()
    };
    t.rec(json!({"op": "reset", "h": 0, "seq": 0, "msgs": [], "chain": [], "names": [], "blk": [], "limits": {}, "rank": {}, "fids": []}));
    t.rec(json!({"op": "table", "got": [of(StorageUnitType::UnitTypeLegacy), of(StorageUnitType::UnitType2024), of(StorageUnitType::UnitType2025)]}));
    for _ in 0..ctx.scale(300, 3000) {
        let mut u = [[0u32; 7]; 3];
        for x in u.iter_mut().flatten() {
            *x = [0, 1, 2, 5, 50, 2500, 5000][r.gen_range(0..7)];
        }
        let s = [[0, 1, 2, 3, 100][r.gen_range(0..5)], [0, 1, 2, 3, 100][r.gen_range(0..5)], [0, 1, 2, 3, 100][r.gen_range(0..5)]];
        let lim = StoreLimits::new(l(&u[2]), l(&u[1]), l(&u[0]));
        let slot = StorageSlot::new(s[0], s[1], s[2], 0);
        t.rec(json!({"op": "allow", "slot": s, "unit": u, "got": ST.iter().map(|x| lim.max_messages(&slot, *x)).collect::<Vec<_>>()}));
    }
    let mk = |ty: HubEventType, body| HubEvent { r#type: ty as i32, body: Some(body), id: 0, block_number: 0, shard_index: 0, timestamp: 0 };
    let limbs = |h: u64| [h >> 34, (h >> 17) & 131071, h & 131071];
    for i in 0..ctx.scale(40, 400) {
        let h: u64 = match i {
            0 => 0,
            1 => 1,
            2 => (1 << 50) - 1,
            3 => 1 << 50,
            4 => (1 << 50) + 1,
            _ => {
                let b = r.gen_range(1..51);
                r.gen_range(0..1u64 << b)
            }
        };
        let many = i < 6;
        let hd = StoreEventHandler::new();
        hd.set_current_height(r.gen_range(0..1000));
        for _ in 0..r.gen_range(0..5) {
            let mut tx = RocksDbTransactionBatch::new();
            let _ = hd.commit_transaction(&mut tx, &mut mk(HubEventType::MergeMessage, hub_event::Body::MergeMessageBody(MergeMessageBody::default())));
        }
        hd.set_current_height(h);
        let split = |id: u64| HubEventIdGenerator::extract_height_and_seq(id);
        let one = |hd: &StoreEventHandler, c: bool| {
            let mut e = if c { mk(HubEventType::BlockConfirmed, hub_event::Body::BlockConfirmedBody(BlockConfirmedBody::default())) } else { mk(HubEventType::PruneMessage, hub_event::Body::PruneMessageBody(PruneMessageBody::default())) };
            let mut tx = RocksDbTransactionBatch::new();
            match hd.commit_transaction(&mut tx, &mut e) {
                Ok(id) => {
                    let (a, b) = split(id);
                    let kept = tx.batch.keys().next().map(|k| k[1..] == id.to_be_bytes()).unwrap_or(false);
                    json!({"ok": e.id == id && kept, "h": limbs(a), "q": b})
                }
                Err(_) => json!({"ok": false, "h": [0, 0, 0], "q": 0}),
            }
        };
        let mut got = vec![];
        let n = if many { 16390 } else { r.gen_range(1..20) };
        let mut confirmed = one(&hd, true);
        for j in 1..=n {
            let x = one(&hd, false);
            if !many || j < 4 || j > 16380 || r.gen_range(0..1000) == 0 {
                let mut x = x;
                x["n"] = json!(j);
                got.push(x);
            }
            if j == n / 2 {
                confirmed = one(&hd, true);
            }
        }
        let start = HubEventIdGenerator::make_event_id_for_block_number(h);
        let back = h >= 1 << 50 || split(start) == (h, 0);
        let sorted = h + 1 >= 1 << 50 || (start | 16383) + 1 == HubEventIdGenerator::make_event_id_for_block_number(h + 1);
        t.rec(json!({"op": "numbers", "h": limbs(h), "got": got, "confirmed": confirmed, "back": back, "sorted": sorted}));
    }
}

pub fn run(ctx: &Ctx) {
    let sw = switches();
    if ctx.focus == "" || ctx.focus == "tables" {
        tables(ctx);
        if ctx.focus == "tables" {
            return;
        }
    }
    let crash = ctx.focus == "crash" || ctx.focus == "";
    let (n, per) = (ctx.scale(96, 1600), 12);
    let shift = match ctx.focus.as_str() { "crash" => 100_000, "limits" => 200_000, "names" => 300_000, "stream" => 400_000, _ => 0 };
    let next = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|s| {
        if ctx.focus == "agree" {
            s.spawn(|| late(ctx));
        }
        for _ in 0..8 {
            s.spawn(|| {
                let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
                loop {
                    let f = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if f * per >= n as u64 {
                        break;
                    }
                    let mut tr = ctx.trace(&format!("h{}", f));
                    for i in f * per..((f + 1) * per).min(n as u64) {
                        history(ctx, &rt, shift + i, &mut tr, &sw, crash);
                    }
                }
            });
        }
    });
    let _ = (KINDS, Address::ZERO, type_no as fn(&Message) -> i32);
}

/// A shard with a history, for others to copy.
pub(crate) struct Grown {
    w: W,
    node: Node,
    t0: u64,
    step: u64,
    pub(crate) sound: bool,
}
impl Grown {
    pub(crate) async fn new(mut r: Rng, net: FarcasterNetwork) -> Grown {
        let step = r.gen_range(5..60);
        let now = FarcasterTime::current().to_u64();
        let sw = switches();
        let t0 = if net == FarcasterNetwork::Mainnet { sw[r.gen_range(0..sw.len())] + if r.gen_bool(0.5) { 3600 } else { 0 } } else { now - 5000 };
        let tight = r.gen_bool(0.3);
        let w = W::new(r, net, t0, tight, "");
        let dir = tmp();
        let path = dir.path().join("d");
        let db = Arc::new(RocksDB::new(path.to_str().unwrap()));
        db.open().unwrap();
        let node = Node { e: engine(&w, &db).await, db, path, _dir: dir };
        Grown { w, node, t0, step, sound: true }
    }
    pub(crate) fn engine(&mut self) -> &mut ShardEngine {
        &mut self.node.e
    }
    pub(crate) async fn another(&self, db: &Arc<RocksDB>) -> ShardEngine {
        engine(&self.w, db).await
    }
    pub(crate) fn path(&self) -> PathBuf {
        self.node.path.clone()
    }
    /// One more block; false when there was none.
    pub(crate) async fn grow(&mut self) -> bool {
        let h = self.node.height().block_number;
        let at = self.t0 + h * self.step;
        let items = self.w.pool(h, at);
        let given: Vec<MempoolMessage> = items.iter().map(|(t, n)| self.w.give(t, *n).0).collect();
        let e = &mut self.node.e;
        e.start_round(Height { shard_index: 1, block_number: h }, informalsystems_malachitebft_core_types::Round::Nil);
        let c = e.propose_state_change(1, given, Some(FarcasterTime::new(at)));
        let mut b = chunk(h, &c);
        b.header.as_mut().unwrap().timestamp = at;
        e.commit_shard_chunk(&b).await;
        self.sound = self.node.tree(&self.w);
        true
    }
}
