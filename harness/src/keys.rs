//! Offchain keys: requests to add and to remove them, their use, and the onchain keys beside them.
use crate::common::*;
use crate::eip712;
use ed25519_dalek::{Signer, SigningKey};
use prost::Message as _;
use rand::Rng as _;
use serde_json::{json, Value};
use snapchain::core::validations::key;
use snapchain::proto::{self, *};
use snapchain::storage::db::{PageOptions, RocksDB, RocksDbTransactionBatch};
use snapchain::storage::store::account::*;
use snapchain::utils::factory::{events_factory, messages_factory};
use std::collections::BTreeMap;
use std::sync::Arc;

const T0: u32 = 180_000_000;
const DAY: u32 = 86400;
const ACCOUNTS: [u64; 3] = [1, 2, 300];
/// 9 is never registered
const APPS: [u64; 4] = [5, 6, 1, 9];
const TYPES: [MessageType; 13] = [
    MessageType::CastAdd, MessageType::CastRemove, MessageType::ReactionAdd, MessageType::ReactionRemove, MessageType::LinkAdd,
    MessageType::LinkRemove, MessageType::LinkCompactState, MessageType::VerificationAddEthAddress, MessageType::VerificationRemove,
    MessageType::UserDataAdd, MessageType::UsernameProof, MessageType::FrameAction, MessageType::LendStorage,
];

fn signing(n: usize) -> SigningKey {
    SigningKey::from_bytes(&[n as u8 + 40; 32])
}
fn pubkey(n: usize) -> Vec<u8> {
    signing(n).verifying_key().to_bytes().to_vec()
}
fn name(n: usize) -> String {
    ["a", "b", "c", "d"][n].into()
}
fn named(k: &[u8]) -> String {
    (0..4).find(|n| pubkey(*n) == k).map(name).unwrap_or("?".into())
}
fn hash(m: &Message) -> u32 {
    u32::from_be_bytes([0, m.hash[0], m.hash[1], m.hash[2]])
}
fn addr(a: &[u8]) -> String {
    if a.is_empty() { "".into() } else { format!("0x{}", hex::encode(&a[..4.min(a.len())])) }
}
fn home(f: u64) -> u8 {
    f as u8
}

#[derive(Clone)]
struct Req {
    m: Message,
    j: Value,
    add: bool,
}

struct World {
    _dir: tempfile::TempDir,
    db: Arc<RocksDB>,
    events: OnchainEventStore,
    txn: RocksDbTransactionBatch,
    block: u32,
    now: u32,
    t: Trace,
    nonce: BTreeMap<u64, u32>,
    app_nonce: BTreeMap<u64, u32>,
    said: Vec<Req>,
    who: BTreeMap<u64, u8>,
    app_of: BTreeMap<(u64, usize), u64>,
}

/// What to change about an otherwise sound request.
#[derive(Clone, Copy, PartialEq)]
enum Flaw {
    None,
    Deadline,
    AppDeadline,
    DeadlineEdge,
    AppDeadlineEdge,
    Nonce,
    OldNonce,
    NotCustody,
    Field(usize),
    Cut,
    AppSigner,
    AppStated,
    AppKey,
    AppDeadlineSigned,
    Chain,
    Env,
}

impl World {
    fn new(t: Trace) -> World {
        let (db, dir, events) = fresh();
        World { _dir: dir, db, events, txn: RocksDbTransactionBatch::new(), block: 100, now: T0, t, nonce: BTreeMap::new(), app_nonce: BTreeMap::new(), said: vec![], who: BTreeMap::new(), app_of: BTreeMap::new() }
    }
    fn reset(&mut self) {
        let (db, dir, events) = fresh();
        self.db = db;
        self._dir = dir;
        self.events = events;
        self.txn = RocksDbTransactionBatch::new();
        self.now = T0;
        self.nonce.clear();
        self.app_nonce.clear();
        self.app_of.clear();
        self.said.clear();
        self.who.clear();
        self.t.rec(json!({"op": "reset"}));
        for f in [1, 2, 300, 5, 6] {
            self.custody(f, home(f));
        }
    }
    fn event(&mut self, mut e: OnChainEvent) {
        self.block += 1;
        e.block_number = self.block;
        e.log_index = 0;
        self.events.merge_onchain_event(e, &mut self.txn).unwrap();
    }
    fn custody(&mut self, f: u64, w: u8) {
        let kind = if self.who.contains_key(&f) { IdRegisterEventType::Transfer } else { IdRegisterEventType::Register };
        self.who.insert(f, w);
        let a = eip712::wallet(w).address().to_vec();
        self.event(events_factory::create_id_register_event(f, kind, a.clone(), None));
        self.t.rec(json!({"op": "custody", "f": f, "by": addr(&a)}));
    }
    fn chain(&mut self, f: u64, k: usize, on: bool) {
        self.event(events_factory::create_signer_event(f, signing(k), if on { SignerEventType::Add } else { SignerEventType::Remove }, None, None));
        self.t.rec(json!({"op": "chain", "f": f, "key": name(k), "on": on}));
    }
    fn make_add(&mut self, r: &mut Rng, f: u64, k: usize, app: u64, flaw: Flaw) -> Req {
        let n = self.nonce.entry(f).or_insert(0);
        let nonce = match flaw {
            Flaw::Nonce => *n,
            Flaw::OldNonce => n.saturating_sub(1),
            _ => {
                *n += [1, 1, 1, 2, 70_000, 17_000_000][r.gen_range(0..6)];
                *n
            }
        };
        let far = |r: &mut Rng| [1, 60, 4000, 5_000_000][r.gen_range(0..4)];
        let ts = self.now - [0, 0, 5, 500][r.gen_range(0..4)];
        let dl = match flaw {
            Flaw::Deadline => ts - far(r),
            Flaw::DeadlineEdge => ts,
            _ => ts + far(r),
        };
        let adl = match flaw {
            Flaw::AppDeadline => ts - far(r),
            Flaw::AppDeadlineEdge => ts,
            _ => ts + far(r),
        };
        let scopes: Vec<i32> = (0..r.gen_range(1..6)).map(|_| TYPES[r.gen_range(0..13)] as i32).collect();
        let ttl = [1, 300, 301, 3600, DAY, 30 * DAY, 90 * DAY][r.gen_range(0..7)];
        let key = pubkey(k);
        let w = eip712::wallet(if flaw == Flaw::NotCustody { 77 } else { *self.who.get(&f).unwrap_or(&66) });
        let chain = if flaw == Flaw::Chain { 10 } else { 1 };
        let mut s = (f, key.clone(), 1u64, scopes.clone(), ttl as u64, nonce as u64, dl as u64);
        if let Flaw::Field(n) = flaw {
            match n {
                0 => s.0 += 1,
                1 => s.1[7] ^= 1,
                2 => s.2 = 2,
                3 => s.3.push(13),
                4 => s.4 += 1,
                5 => s.5 += 1,
                _ => s.6 += 1,
            }
        }
        let mut sig = eip712::sign(&w, eip712::key_add_digest(s.0, &s.1, s.2, &s.3, s.4, s.5, s.6, chain));
        if flaw == Flaw::Cut {
            match r.gen_range(0..3) {
                0 => { sig.pop(); }
                1 => sig.push(0),
                _ => sig.clear(),
            }
        }
        let aw = eip712::wallet(if flaw == Flaw::AppSigner { 78 } else { *self.who.get(&app).unwrap_or(&67) });
        let mut ak = key.clone();
        if flaw == Flaw::AppKey { ak[31] ^= 1; }
        let asig = eip712::sign(&aw, eip712::key_request_digest(app, &ak, adl as u64 + if flaw == Flaw::AppDeadlineSigned { 1 } else { 0 }, 1));
        let stated = if flaw == Flaw::AppStated { eip712::wallet(79).address() } else { aw.address() };
        let meta = eip712::key_request_metadata(eip712::word_u(app), stated.as_slice(), &asig, eip712::word_u(adl as u64));
        let by = eip712::signer_of(&sig, eip712::key_add_digest(f, &key, 1, &scopes, ttl as u64, nonce as u64, dl as u64, 1)).map(|a| addr(a.as_slice())).unwrap_or_default();
        let aok = eip712::signer_of(&asig, eip712::key_request_digest(app, &key, adl as u64, 1)) == Some(stated);
        let body = KeyAddBody { key, key_type: 1, custody_signature: sig, deadline: dl, nonce, metadata: meta, metadata_type: 1, registration_tx_hash: vec![], scopes: scopes.clone(), ttl };
        let m = messages_factory::create_message_with_data(f, MessageType::KeyAdd, message_data::Body::KeyAddBody(body), Some(ts), Some(&signing(r.gen_range(0..4))));
        let j = json!({"f": f, "key": name(k), "by": by, "dl": dl, "nonce": nonce, "ttl": ttl, "scopes": scopes, "ts": ts, "h": hash(&m), "aok": aok, "app": app, "asigner": addr(stated.as_slice()), "adl": adl});
        Req { m, j, add: true }
    }
    fn make_remove(&mut self, r: &mut Rng, f: u64, k: usize, own: bool, flaw: Flaw) -> Req {
        let ts = self.now - [0, 0, 5, 500][r.gen_range(0..4)];
        let app = *self.app_of.get(&(f, k)).unwrap_or(&5);
        let n = if own { self.app_nonce.entry(app).or_insert(0) } else { self.nonce.entry(f).or_insert(0) };
        let nonce = match flaw {
            Flaw::Nonce => *n,
            Flaw::OldNonce => n.saturating_sub(1),
            _ => {
                *n += [1, 1, 2, 300][r.gen_range(0..4)];
                *n
            }
        };
        let dl = match flaw {
            Flaw::Deadline => ts - 3,
            Flaw::DeadlineEdge => ts,
            _ => ts + 60,
        };
        let key = pubkey(k);
        let w = eip712::wallet(if flaw == Flaw::NotCustody { 77 } else { *self.who.get(&f).unwrap_or(&66) });
        let mut s = (f, key.clone(), nonce as u64, dl as u64);
        if let Flaw::Field(n) = flaw {
            match n {
                0 => s.0 += 1,
                1 => s.1[7] ^= 1,
                2 | 3 => s.2 += 1,
                _ => s.3 += 1,
            }
        }
        let mut sig = if own && r.gen_bool(0.8) { vec![] } else { eip712::sign(&w, eip712::key_remove_digest(s.0, &s.1, s.2, s.3, if flaw == Flaw::Chain { 10 } else { 1 })) };
        if flaw == Flaw::Cut { sig.truncate(64); }
        let by = eip712::signer_of(&sig, eip712::key_remove_digest(f, &key, nonce as u64, dl as u64, 1)).map(|a| addr(a.as_slice())).unwrap_or_default();
        let body = KeyRemoveBody { key, signature: sig, signature_type: if own { 2 } else { 1 }, deadline: dl, nonce };
        let env = if own && flaw != Flaw::Env { k } else { (k + r.gen_range(1..4)) % 4 };
        let m = messages_factory::create_message_with_data(f, MessageType::KeyRemove, message_data::Body::KeyRemoveBody(body), Some(ts), Some(&signing(env)));
        let j = json!({"f": f, "key": name(k), "mode": if own { "self" } else { "custody" }, "by": by, "env": name(env), "dl": dl, "nonce": nonce, "ts": ts, "h": hash(&m)});
        Req { m, j, add: false }
    }
    fn give(&mut self, q: &Req, replay: bool) -> bool {
        let (db, ev) = (self.db.clone(), self.events.clone());
        let txn = &mut self.txn;
        let res = guarded(|| if q.add { merge_key_add(&db, &ev, &q.m, txn, replay) } else { merge_key_remove(&db, &ev, &q.m, txn) });
        let (ok, out, said) = match &res {
            Ok(Ok(e)) => {
                let (m, d) = match &e.body {
                    Some(hub_event::Body::MergeMessageBody(b)) => (b.message.clone(), b.deleted_messages.clone()),
                    _ => (None, vec![]),
                };
                (true, json!({"said": m.map(|m| m == q.m).unwrap_or(false), "gone": d.iter().map(hash).collect::<Vec<_>>()}), "ok".to_string())
            }
            Ok(Err(e)) => (false, json!({}), format!("{e:?}")),
            Err(p) => (false, json!({}), format!("panic {p}")),
        };
        self.t.rec(json!({"op": if q.add { "add" } else { "remove" }, "m": q.j, "replay": replay, "ok": ok, "out": out, "why": said}));
        if ok && q.add {
            self.app_of.insert((q.j["f"].as_u64().unwrap(), (0..4).find(|n| name(*n) == q.j["key"]).unwrap()), q.j["app"].as_u64().unwrap());
        }
        self.said.push(q.clone());
        ok
    }
    fn active(&mut self, f: u64, k: usize) {
        let got = guarded(|| get_active_key(&self.events, &self.db, &self.txn, f, &pubkey(k)));
        let j = match got {
            Ok(Ok(None)) => json!({"k": "none"}),
            Ok(Ok(Some(a @ ActiveKey::OnChain))) => json!({"k": "chain", "scopes": (0..22).filter(|n| MessageType::try_from(*n).map(|m| a.admits(m)).unwrap_or(false)).collect::<Vec<i32>>()}),
            Ok(Ok(Some(a @ ActiveKey::Gasless { ttl_seconds, .. }))) => json!({"k": "key", "ttl": ttl_seconds, "scopes": (0..22).filter(|n| MessageType::try_from(*n).map(|m| a.admits(m)).unwrap_or(false)).collect::<Vec<i32>>()}),
            e => json!({"k": format!("{e:?}")}),
        };
        self.t.rec(json!({"op": "active", "f": f, "key": name(k), "got": j}));
    }
    /// What the engine asks before it takes a message.
    fn uses(&mut self, f: u64, k: usize, ty: MessageType, ts: u32, now: u64) {
        let (db, ev) = (self.db.clone(), self.events.clone());
        let txn = &mut self.txn;
        let got = guarded(|| match get_active_key(&ev, &db, txn, f, &pubkey(k)) {
            Ok(Some(a)) => {
                if !a.admits(ty) {
                    return "scope".to_string();
                }
                match a {
                    ActiveKey::OnChain => "ok".into(),
                    ActiveKey::Gasless { ttl_seconds, .. } => match check_and_bump_last_used_at(&db, txn, f, &pubkey(k), ttl_seconds, ts, now) {
                        Ok(()) => "ok".into(),
                        Err(e) => e.code,
                    },
                }
            }
            Ok(None) => "no-key".into(),
            Err(e) => format!("{e:?}"),
        });
        let got = got.unwrap_or("panic".into());
        self.t.rec(json!({"op": "use", "f": f, "key": name(k), "type": ty as i32, "ts": ts, "now": now, "ok": got == "ok", "why": got}));
    }
    fn commit(&mut self) {
        let t = std::mem::replace(&mut self.txn, RocksDbTransactionBatch::new());
        self.db.commit(t).unwrap();
        self.t.rec(json!({"op": "commit"}));
    }
    fn discard(&mut self) {
        self.txn = RocksDbTransactionBatch::new();
        self.t.rec(json!({"op": "discard"}));
    }
    fn fill(&mut self, f: u64, n: u32) {
        for _ in 0..n {
            increment_gasless_key_count(&self.db, &mut self.txn, f).unwrap();
        }
        self.t.rec(json!({"op": "fill", "f": f, "n": n}));
    }
    /// Everything kept, read the ways the code reads it; only of what is committed.
    fn state(&mut self, page: usize) {
        let txn = RocksDbTransactionBatch::new();
        let mut recs = vec![];
        let mut counts = vec![];
        for f in ACCOUNTS {
            let mut token = None;
            loop {
                let p = list_gasless_keys_by_fid(&self.db, f, &PageOptions { page_size: Some(page), page_token: token.clone(), reverse: false }).unwrap();
                let over = p.records.len() > page;
                for (k, rec) in &p.records {
                    recs.push(json!({"f": f, "key": named(k), "h": rec.message.as_ref().map(hash).unwrap_or(0), "app": rec.request_fid, "over": over,
                        "one": get_gasless_key_record(&self.db, &txn, f, k).unwrap().as_ref() == Some(rec)}));
                }
                token = p.next_page_token;
                if token.is_none() {
                    break;
                }
            }
            counts.push(json!({"f": f, "n": get_gasless_key_count(&self.db, &txn, f).unwrap(), "un": get_user_nonce(&self.db, &txn, f).unwrap().unwrap_or(0)}));
        }
        let mut used = vec![];
        for f in ACCOUNTS {
            for k in 0..4 {
                if let Some(at) = get_last_used_at(&self.db, &txn, f, &pubkey(k)).unwrap() {
                    used.push(json!({"f": f, "key": name(k), "at": at}));
                }
            }
        }
        let owners: Vec<Value> = (0..4).filter_map(|k| get_gasless_key_owner_fid(&self.db, &txn, &pubkey(k)).unwrap().map(|f| json!({"key": name(k), "f": f}))).collect();
        let apps: Vec<Value> = APPS.iter().map(|a| json!({"app": a, "an": get_app_nonce(&self.db, &txn, *a).unwrap().unwrap_or(0)})).collect();
        self.t.rec(json!({"op": "state", "recs": recs, "counts": counts, "used": used, "owners": owners, "apps": apps}));
    }
}

fn fresh() -> (Arc<RocksDB>, tempfile::TempDir, OnchainEventStore) {
    let dir = tmp();
    let db = RocksDB::new(dir.path().to_str().unwrap());
    db.open().unwrap();
    let db = Arc::new(db);
    let events = OnchainEventStore::new(db.clone(), StoreEventHandler::new());
    (db, dir, events)
}

/// A message sealed by a key that is not the one it is about must never count as its own request.
fn script(w: &mut World, r: &mut Rng, steps: &[String]) {
    w.reset();
    for s in steps {
        w.now += [0, 1, 299, 301, 3600, 2 * DAY][r.gen_range(0..6)];
        match s.as_str() {
            "add" => { let q = w.make_add(r, 1, 0, 5, Flaw::None); w.give(&q, false); }
            "late" => { let q = w.make_add(r, 1, 0, 5, Flaw::AppDeadline); w.give(&q, false); }
            "readd" => if let Some(q) = w.said.iter().rev().find(|q| q.add).cloned() { w.give(&q, false); },
            "other-app" => { let q = w.make_add(r, 1, 0, 6, Flaw::None); w.give(&q, false); }
            "other-account" => { let q = w.make_add(r, 2, 0, 5, Flaw::None); w.give(&q, false); }
            "remove" => { let q = w.make_remove(r, 1, 0, false, Flaw::None); w.give(&q, false); }
            "self" => { let q = w.make_remove(r, 1, 0, true, Flaw::None); w.give(&q, false); }
            "chain" => w.chain(1, 0, true),
            "unchain" => w.chain(1, 0, false),
            "use" => { let (ts, now) = (w.now, w.now as u64); w.uses(1, 0, TYPES[r.gen_range(0..3)], ts, now) }
            "transfer" => { let n = if w.who[&1] == 1 { 50 } else { 1 }; w.custody(1, n) }
            x => panic!("{x}"),
        }
        if r.gen_bool(0.3) {
            w.commit();
        }
    }
    w.active(1, 0);
    w.commit();
    w.state(2);
}

fn history(w: &mut World, r: &mut Rng) {
    w.reset();
    if r.gen_bool(0.3) {
        w.fill(ACCOUNTS[r.gen_range(0..2)], 1000 - r.gen_range(0..4));
        w.commit();
    }
    let keys = r.gen_range(1..5);
    let narrow = r.gen_bool(0.5);
    for _ in 0..r.gen_range(8..40) {
        w.now += [0, 0, 1, 60, 299, 300, 301, 3600, DAY, 30 * DAY, 89 * DAY][r.gen_range(0..11)] / if r.gen_bool(0.5) { 1 } else { 10 };
        let f = ACCOUNTS[if narrow { 0 } else { r.gen_range(0..3) }];
        let k = r.gen_range(0..keys);
        match r.gen_range(0..20) {
            0..=5 => {
                let flaw = if r.gen_bool(0.6) { Flaw::None } else {
                    match r.gen_range(0..16) {
                        0 => if r.gen_bool(0.3) { Flaw::Deadline } else { Flaw::None },
                        1 => Flaw::AppDeadline,
                        2 => Flaw::DeadlineEdge,
                        3 => Flaw::AppDeadlineEdge,
                        4 => Flaw::Nonce,
                        5 => Flaw::OldNonce,
                        6 => Flaw::NotCustody,
                        7 | 8 => Flaw::Field(r.gen_range(0..7)),
                        9 => Flaw::Cut,
                        10 => Flaw::AppSigner,
                        11 => Flaw::AppStated,
                        12 => Flaw::AppKey,
                        13 => Flaw::AppDeadlineSigned,
                        _ => Flaw::Chain,
                    }
                };
                let app = *w.app_of.get(&(f, k)).filter(|_| r.gen_bool(0.6)).unwrap_or(&APPS[[0, 0, 0, 1, 2, 3][r.gen_range(0..6)]]);
                let q = w.make_add(r, f, k, app, flaw);
                if r.gen_bool(0.9) { w.give(&q, r.gen_bool(0.25)); } else { w.said.push(q); }
            }
            6 => if !w.said.is_empty() { let q = w.said[r.gen_range(0..w.said.len())].clone(); w.give(&q, r.gen_bool(0.3)); },
            7..=9 => {
                let own = r.gen_bool(0.5);
                let flaw = if r.gen_bool(0.6) { Flaw::None } else {
                    match r.gen_range(0..8) {
                        0 => if r.gen_bool(0.3) { Flaw::Deadline } else { Flaw::None },
                        1 => Flaw::DeadlineEdge,
                        2 => Flaw::Nonce,
                        3 => Flaw::OldNonce,
                        4 => Flaw::NotCustody,
                        5 => Flaw::Field(r.gen_range(0..7)),
                        6 => if own { Flaw::Env } else { Flaw::Cut },
                        _ => if own { Flaw::Env } else { Flaw::Chain },
                    }
                };
                let q = w.make_remove(r, f, k, own, flaw);
                w.give(&q, false);
            }
            10 => { let on = r.gen_bool(0.5); w.chain(f, k, on) }
            11 => { let (g, n) = ([1u64, 2, 300, 5, 6][r.gen_range(0..5)], [1u8, 2, 50, 51][r.gen_range(0..4)]); w.custody(g, n) }
            12..=15 => {
                let txn = RocksDbTransactionBatch::new();
                let at = get_last_used_at(&w.db, &txn, f, &pubkey(k)).unwrap();
                let rec = get_gasless_key_record(&w.db, &txn, f, &pubkey(k)).unwrap();
                let body = rec.and_then(|r| r.message).and_then(|m| m.data).and_then(|d| d.body);
                let (ttl, scopes) = match body { Some(message_data::Body::KeyAddBody(b)) => (b.ttl, b.scopes), _ => (300, vec![]) };
                let ty = if !scopes.is_empty() && r.gen_bool(0.7) { MessageType::try_from(scopes[r.gen_range(0..scopes.len())]).unwrap() } else { TYPES[r.gen_range(0..13)] };
                let at = at.unwrap_or(w.now);
                let now = match r.gen_range(0..4) { 0 => at + ttl, 1 => at + ttl + 1, 2 => w.now, _ => at + ttl / 2 };
                let ts = match r.gen_range(0..5) { 0 => at + 300, 1 => at + 301, 2 => at.saturating_sub(10), 3 => now, _ => now.saturating_sub(600) };
                w.now = w.now.max(ts);
                w.uses(f, k, ty, ts, now as u64);
            }
            16 => w.active(f, k),
            17 => w.commit(),
            18 => w.discard_but(r),
            _ => { w.commit(); let p = r.gen_range(1..6); w.state(p) }
        }
    }
    w.commit();
    w.state(100);
}

impl World {
    /// A block that came to nothing.
    fn discard_but(&mut self, r: &mut Rng) {
        if r.gen_bool(0.5) {
            // what the chain said is remembered by the caller
            let who = self.who.clone();
            self.discard();
            for (f, w) in who {
                self.custody(f, w);
            }
        }
    }
}

pub fn run(ctx: &Ctx) {
    let mut r = ctx.rng(71);
    let _ = (signing(0).sign(b""), key::MAX_KEY_TTL_SECONDS, proto::Message::default().encode_to_vec());
    let mut w = World::new(ctx.trace("histories"));
    for _ in 0..ctx.scale(250, 4000) {
        history(&mut w, &mut r);
    }
    let all = ctx.behaviours();
    for (n, part) in all.chunks(700).enumerate() {
        w.t = ctx.trace(&format!("generated-{n:02}"));
        for b in part {
            let steps: Vec<String> = b.as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect();
            script(&mut w, &mut r, &steps);
        }
    }
}
