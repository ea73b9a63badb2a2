//! Events read from chains: the real store, driven by histories.
use crate::common::*;
use rand::Rng as _;
use serde_json::{json, Value};
use snapchain::core::util::FarcasterTime;
use snapchain::proto::{self, on_chain_event::Body, *};
use snapchain::storage::db::{PageOptions, RocksDB, RocksDbTransactionBatch};
use snapchain::storage::store::account::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub struct Ev {
    pub e: OnChainEvent,
    pub j: Value,
}

/// What distinguishes one event from another, by its whole content.
pub fn content(e: &OnChainEvent) -> String {
    use prost::Message as _;
    hex::encode(&blake3::hash(&e.encode_to_vec()).as_bytes()[..6])
}

pub(crate) fn jfy(e: OnChainEvent) -> Ev {
    let mut j = json!({"tn": e.r#type, "f": e.fid, "b": e.block_number, "x": e.tx_index, "l": e.log_index, "ts": e.block_timestamp, "id": content(&e),
        "k": "", "key": "", "kt": 0, "tier": 0, "days": 0, "ck": "", "lab": "", "labok": false, "own": "", "ownok": false, "kc": false, "exp": 0});
    match e.body.as_ref().unwrap() {
        Body::IdRegisterEventBody(b) => {
            j["k"] = json!(match b.event_type {
                1 => "register",
                2 => "transfer",
                3 => "recovery",
                _ => "other",
            })
        }
        Body::SignerEventBody(b) => {
            j["k"] = json!(match b.event_type {
                1 => "add",
                2 => "remove",
                3 => "reset",
                _ => "other",
            });
            j["key"] = json!(hex::encode(&b.key));
            j["kt"] = json!(b.key_type);
        }
        Body::TierPurchaseEventBody(b) => {
            j["tier"] = json!(b.tier_type);
            j["days"] = json!(b.for_days);
        }
        Body::ChannelRegisterEventBody(b) => {
            j["k"] = json!(match b.event_type {
                1 => "register",
                2 => "renew",
                3 => "transfer",
                _ => "none",
            });
            j["ck"] = json!(b.channel_key);
            j["lab"] = json!(hex::encode(&b.label));
            j["labok"] = json!(b.label.len() == 32);
            j["own"] = json!(hex::encode(&b.owner_address));
            j["ownok"] = json!(b.owner_address.len() == 20);
            j["kc"] = json!(alloy_primitives::keccak256(b.channel_key.as_bytes()).as_slice() == b.label.as_slice());
            j["exp"] = json!(b.expiry);
        }
        _ => {}
    }
    Ev { e, j }
}

pub(crate) fn base(tn: i32, fid: u64, b: u32, l: u32, x: u32, ts: u64, salt: u64, body: Body) -> Ev {
    jfy(OnChainEvent {
        r#type: tn,
        chain_id: if tn >= 5 { 8453 } else { 10 },
        block_number: b,
        block_hash: blake3::hash(&b.to_be_bytes()).as_bytes().to_vec(),
        block_timestamp: ts,
        transaction_hash: blake3::hash(&salt.to_be_bytes()).as_bytes().to_vec(),
        log_index: l,
        fid,
        tx_index: x,
        version: 0,
        body: Some(body),
    })
}
pub fn addr(n: u8) -> Vec<u8> {
    let mut a = vec![0x11; 20];
    a[0] = n.wrapping_mul(37);
    a[19] = n;
    a
}
fn key(n: u8) -> Vec<u8> {
    let mut k = vec![n; 32];
    k[31] = 1;
    k
}
fn label(ck: &str) -> Vec<u8> {
    alloy_primitives::keccak256(ck.as_bytes()).to_vec()
}

struct Sys {
    st: OnchainEventStore,
    db: Arc<RocksDB>,
    _dir: tempfile::TempDir,
    txn: RocksDbTransactionBatch,
    seen: BTreeMap<String, OnChainEvent>,
    fids: BTreeSet<u64>,
    keys: BTreeSet<(u64, Vec<u8>)>,
    cks: BTreeSet<String>,
    labs: BTreeSet<Vec<u8>>,
    owners: BTreeSet<Vec<u8>>,
}

impl Sys {
    fn new() -> Sys {
        let dir = tmp();
        let db = Arc::new(RocksDB::new(dir.path().to_str().unwrap()));
        db.open().unwrap();
        Sys {
            st: OnchainEventStore::new(db.clone(), StoreEventHandler::new()),
            db,
            _dir: dir,
            txn: RocksDbTransactionBatch::new(),
            seen: Default::default(),
            fids: Default::default(),
            keys: Default::default(),
            cks: Default::default(),
            labs: Default::default(),
            owners: Default::default(),
        }
    }
    fn merge(&mut self, ev: &Ev) -> Value {
        self.seen.insert(content(&ev.e), ev.e.clone());
        self.fids.insert(ev.e.fid);
        match ev.e.body.as_ref().unwrap() {
            Body::SignerEventBody(b) => {
                self.keys.insert((ev.e.fid, b.key.clone()));
            }
            Body::ChannelRegisterEventBody(b) => {
                self.cks.insert(b.channel_key.clone());
                self.labs.insert(b.label.clone());
                if b.owner_address.len() == 20 {
                    self.owners.insert(b.owner_address.clone());
                }
            }
            _ => {}
        }
        let (res, event) = match guarded(|| self.st.merge_onchain_event(ev.e.clone(), &mut self.txn)) {
            Err(p) => (format!("panic {p}"), String::new()),
            Ok(Err(OnchainEventStorageError::DuplicateOnchainEvent)) => ("dup".into(), String::new()),
            Ok(Err(e)) => (format!("error {e}"), String::new()),
            Ok(Ok(h)) => (
                "ok".into(),
                match h.body {
                    Some(hub_event::Body::MergeOnChainEventBody(b)) => content(&b.on_chain_event.unwrap()),
                    _ => "other".into(),
                },
            ),
        };
        json!({"op": "merge", "e": ev.j, "res": res, "event": event})
    }
    fn commit(&mut self) -> Value {
        let t = std::mem::replace(&mut self.txn, RocksDbTransactionBatch::new());
        self.db.commit(t).unwrap();
        json!({"op": "commit"})
    }
    fn drop(&mut self) -> Value {
        self.txn = RocksDbTransactionBatch::new();
        json!({"op": "drop"})
    }
    fn name(&self, e: &OnChainEvent) -> String {
        let c = content(e);
        if self.seen.contains_key(&c) {
            c
        } else {
            format!("strange {c}")
        }
    }
    fn point(&self, txn: bool) -> Value {
        let t = if txn { Some(&self.txn) } else { None };
        let one = |r: Result<Option<OnChainEvent>, OnchainEventStorageError>| match r {
            Ok(None) => String::new(),
            Ok(Some(e)) => self.name(&e),
            Err(e) => format!("error {e}"),
        };
        let id: Vec<_> = self.fids.iter().map(|f| json!([f, one(self.st.get_id_register_event_by_fid(*f, t))])).collect();
        let act: Vec<_> = self
            .keys
            .iter()
            .map(|(f, k)| json!([f, hex::encode(k), one(self.st.get_active_signer(*f, k.clone(), t))]))
            .collect();
        let chan: Vec<_> = self
            .cks
            .iter()
            .map(|c| match self.st.get_channel_owner(c, t) {
                Ok(None) => json!([c, "", 0, 0, 0, 0]),
                Ok(Some(o)) => json!([c, hex::encode(&o.owner_address), o.expiry, o.block_number, o.tx_index, o.log_index]),
                Err(e) => json!([c, format!("error {e}"), 0, 0, 0, 0]),
            })
            .collect();
        let lab: Vec<_> = self
            .labs
            .iter()
            .map(|l| json!([hex::encode(l), self.st.get_channel_key_by_label(l, t).unwrap_or_else(|e| Some(format!("error {e}"))).unwrap_or_default()]))
            .collect();
        json!({"op": "peek", "id": id, "act": act, "chan": chan, "lab": lab})
    }
    /// Page after page until there is no further token.
    fn paged(&self, size: Option<usize>, mut f: impl FnMut(&PageOptions) -> Result<OnchainEventsPage, OnchainEventStorageError>) -> Vec<String> {
        let mut out = vec![];
        let mut token = None;
        for _ in 0..100_000 {
            match f(&PageOptions { page_size: size, page_token: token.clone(), reverse: false }) {
                Err(e) => {
                    out.push(format!("error {e}"));
                    return out;
                }
                Ok(p) => {
                    if size.is_some_and(|n| p.onchain_events.len() > n) {
                        out.push("page too long".into());
                    }
                    out.extend(p.onchain_events.iter().map(|e| self.name(e)));
                    token = p.next_page_token;
                    if token.is_none() {
                        return out;
                    }
                }
            }
        }
        out.push("endless".into());
        out
    }
    fn state(&self, rng: &mut Rng, asofs: &[u64]) -> Value {
        let size = *[None, Some(1), Some(2), Some(3), Some(7)].get(rng.gen_range(0..5)).unwrap();
        let mut j = self.point(false);
        j["op"] = json!("state");
        j["all"] = json!(self.paged(size, |o| self.st.get_all_onchain_events(o)));
        let mut kinds = vec![];
        for tn in 1..=6 {
            let t = OnChainEventType::try_from(tn).unwrap();
            let mut who: Vec<Option<u64>> = vec![None];
            who.extend(self.fids.iter().take(4).map(|f| Some(*f)));
            for f in who {
                let got = self.st.get_onchain_events(t, f).unwrap_or_default();
                kinds.push(json!({"tn": tn, "f": f.map(|f| f as i64).unwrap_or(-1), "ids": got.iter().map(|e| self.name(e)).collect::<Vec<_>>()}));
            }
        }
        j["kind"] = json!(kinds);
        let mut signers = vec![json!({"f": -1, "ids": self.paged(size, |o| self.st.get_signers(None, o))})];
        for f in self.fids.iter().take(4) {
            signers.push(json!({"f": f, "ids": self.paged(size, |o| self.st.get_signers(Some(*f), o))}));
        }
        j["signers"] = json!(signers);
        let mut fids: Vec<u64> = vec![];
        let mut token = None;
        for _ in 0..100_000 {
            let (f, t) = self.st.get_fids(&PageOptions { page_size: size, page_token: token.clone(), reverse: false }).unwrap();
            fids.extend(f);
            token = t;
            if token.is_none() {
                break;
            }
        }
        j["fids"] = json!(fids);
        let starts: Vec<u64> = std::iter::once(0).chain(self.fids.iter().copied().filter(|_| rng.gen_bool(0.2)).take(3)).collect();
        j["after"] = json!(starts.iter().map(|s| json!({"start": s, "fids": FIDIterator::new(self.db.clone(), *s).collect::<Vec<u64>>()})).collect::<Vec<_>>());
        let mut tier = vec![];
        if self.seen.values().any(|e| e.r#type == 5) {
            for f in self.fids.iter().take(4) {
                for t in [TierType::Pro, TierType::None] {
                    let until = |a: Option<&FarcasterTime>| self.st.tier_subscription_exires_at(t, *f, a).unwrap();
                    tier.push(json!({"f": f, "tier": t as i32, "asof": -1, "until": until(None), "on": false}));
                    for a in asofs {
                        let at = FarcasterTime::from_unix_seconds(*a);
                        tier.push(json!({"f": f, "tier": t as i32, "asof": a, "until": until(Some(&at)), "on": self.st.is_tier_subscription_active_at(t, *f, &at).unwrap()}));
                    }
                }
            }
        }
        j["tier"] = json!(tier);
        j["exists"] = json!(self.seen.iter().filter(|(_, e)| {
            // of two contents under one position only the first can be there; ask by position
            self.seen.values().filter(|o| (o.r#type, o.fid, o.block_number, o.log_index) == (e.r#type, e.fid, e.block_number, e.log_index)).count() == 1
        }).take(12).map(|(c, e)| json!([c, self.st.exists(e).unwrap()])).collect::<Vec<_>>());
        let mut owned = vec![];
        for a in &self.owners {
            let mut cks = vec![];
            let mut token = None;
            for _ in 0..100_000 {
                let (c, t) = get_channel_keys_by_owner_address(&self.db, a, &PageOptions { page_size: size, page_token: token.clone(), reverse: false }).unwrap();
                cks.extend(c);
                token = t;
                if token.is_none() {
                    break;
                }
            }
            owned.push(json!([hex::encode(a), cks]));
        }
        j["owned"] = json!(owned);
        let all: Vec<Vec<u8>> = self.owners.iter().cloned().collect();
        let mut many = vec![];
        for skip in [usize::MAX, 0, 1] {
            let some: Vec<(usize, Vec<u8>)> = all.iter().cloned().enumerate().filter(|(i, _)| skip == usize::MAX || i % 2 == skip).collect();
            let addrs: Vec<Vec<u8>> = some.iter().map(|(_, a)| a.clone()).collect();
            let n = rng.gen_range(1..=4usize);
            let mut pairs = vec![];
            let mut token: Option<Vec<u8>> = None;
            for _ in 0..10_000 {
                let (p, t) = get_channel_keys_for_owner_addresses(&self.db, &addrs, token.as_deref(), n).unwrap();
                if p.len() > n {
                    pairs.push(json!(["too", "long"]));
                }
                pairs.extend(p.iter().map(|(a, c)| json!([hex::encode(a), c])));
                token = t;
                if token.is_none() {
                    break;
                }
            }
            many.push(json!({"addrs": some.iter().map(|(i, _)| i + 1).collect::<Vec<_>>(), "pairs": pairs}));
        }
        j["many"] = json!(many);
        let o = PageOptions::default();
        j["bad_address"] = json!(get_channel_keys_by_owner_address(&self.db, &[1; 19], &o).is_err() && get_channel_keys_by_owner_address(&self.db, &[1; 21], &o).is_err());
        j
    }
}

fn generated(ctx: &Ctx) {
    let mut rng = ctx.rng(1);
    for (n, part) in ctx.behaviours().chunks(1600).enumerate() {
        let mut tr = ctx.trace(&format!("gen{n}"));
        for b in part {
            let mut sys = Sys::new();
            tr.rec(json!({"op": "start"}));
            let fam = b["fam"].as_str().unwrap();
            let h = b["h"].as_array().unwrap();
            for (i, s) in h.iter().enumerate() {
                let (bl, l) = (s["at"][0].as_u64().unwrap() as u32, s["at"][1].as_u64().unwrap() as u32);
                let k = s["k"].as_str().unwrap();
                let ev = match fam {
                    "id" => base(3, 7, bl, l, 0, 1_700_000_000, i as u64, Body::IdRegisterEventBody(IdRegisterEventBody {
                        to: addr(i as u8),
                        event_type: match k { "register" => 1, "transfer" => 2, _ => 3 },
                        from: vec![],
                        recovery_address: vec![],
                    })),
                    "key" => base(1, 7, bl, l, 0, 1_700_000_000, i as u64, Body::SignerEventBody(SignerEventBody {
                        key: key(1),
                        key_type: if k == "add" { 1 } else { 0 },
                        event_type: match k { "add" => 1, "remove" => 2, _ => 3 },
                        metadata: vec![],
                        metadata_type: 0,
                    })),
                    // places double as (transaction, log) of one block for half of the histories
                    _ => {
                        let (bb, xx, ll) = if i % 2 == 0 || h[0]["at"][0] == 1 { (bl, 0, l) } else { (1, bl, l) };
                        base(6, 0, bb, ll, xx, 1_700_000_000, i as u64, Body::ChannelRegisterEventBody(ChannelRegisterBody {
                            channel_key: if k.starts_with("transfer") { String::new() } else { "chan".into() },
                            expiry: 1000 + i as u64,
                            owner_address: match k { "register1" | "transfer1" => addr(1), "register2" | "transfer2" => addr(2), _ => vec![] },
                            event_type: match k { "register1" | "register2" => 1, "renew" => 2, _ => 3 },
                            label: label("chan"),
                        }))
                    }
                };
                tr.rec(sys.merge(&ev));
                if s["commit"].as_bool().unwrap() || i + 1 == h.len() {
                    if !s["commit"].as_bool().unwrap() {
                        tr.rec(sys.point(true));
                    }
                    tr.rec(sys.commit());
                }
            }
            tr.rec(sys.point(false));
            if rng.gen_bool(0.1) {
                tr.rec(sys.state(&mut rng, &[]));
            }
        }
    }
}

fn random_event(rng: &mut Rng, n: u64, fids: &[u64], blocks: u32, t0: u64) -> Ev {
    let fid = fids[rng.gen_range(0..fids.len())];
    let b = if rng.gen_bool(0.1) { 250 + rng.gen_range(0..12) } else if rng.gen_bool(0.05) { 65530 + rng.gen_range(0..12) } else { rng.gen_range(1..=blocks) };
    let (l, x) = (if rng.gen_bool(0.1) { 254 + rng.gen_range(0..4) } else { rng.gen_range(0..3) }, rng.gen_range(0..3));
    // later blocks carry later timestamps, except rarely
    let ts = if rng.gen_bool(0.1) { t0 + rng.gen_range(0..90 * 86400) } else { t0 + (b as u64 % 40) * 86400 };
    match rng.gen_range(0..12) {
        0..=2 => base(3, fid, b, l, x, ts, n, Body::IdRegisterEventBody(IdRegisterEventBody {
            to: addr(n as u8),
            event_type: *[1, 1, 2, 3, 0].get(rng.gen_range(0..5)).unwrap(),
            from: vec![],
            recovery_address: addr(3),
        })),
        3..=5 => {
            let k = *[1, 1, 2, 3].get(rng.gen_range(0..4)).unwrap();
            base(1, fid, b, l, x, ts, n, Body::SignerEventBody(SignerEventBody {
                key: if rng.gen_bool(0.05) { vec![] } else { key(rng.gen_range(1..4)) },
                key_type: if rng.gen_bool(0.15) { rng.gen_range(0..3) } else { 1 },
                event_type: k,
                metadata: vec![n as u8],
                metadata_type: 1,
            }))
        }
        6 => base(2, 0, b, l, x, ts, n, Body::SignerMigratedEventBody(SignerMigratedEventBody { migrated_at: 5 })),
        7 => base(4, fid, b, l, x, ts, n, Body::StorageRentEventBody(StorageRentEventBody { payer: addr(1), units: 1, expiry: 5 })),
        8 => base(5, fid, b, l, x, ts, n, Body::TierPurchaseEventBody(TierPurchaseBody {
            tier_type: if rng.gen_bool(0.1) { 0 } else { 1 },
            for_days: *[0u64, 1, 30, 31, 365].get(rng.gen_range(0..5)).unwrap(),
            payer: addr(2),
        })),
        _ => {
            let ck = *["a", "ab", "b", "é", "chan-1", ""].get(rng.gen_range(0..6)).unwrap();
            let et = *[1, 1, 2, 3, 3, 0].get(rng.gen_range(0..6)).unwrap();
            let mut lab = label(ck);
            if rng.gen_bool(0.08) {
                lab = label("other");
            } else if rng.gen_bool(0.05) {
                lab.pop();
            } else if rng.gen_bool(0.05) {
                lab.push(0);
            }
            let mut own = addr(rng.gen_range(1..5));
            if rng.gen_bool(0.06) {
                own.pop();
            } else if rng.gen_bool(0.04) {
                own.push(1);
            }
            base(6, 0, b, l, x, ts, n, Body::ChannelRegisterEventBody(ChannelRegisterBody {
                channel_key: if et == 3 && rng.gen_bool(0.7) { String::new() } else { ck.into() },
                expiry: rng.gen_range(1..1_000_000),
                owner_address: if et == 2 { vec![] } else { own },
                event_type: et,
                label: lab,
            }))
        }
    }
}

fn random(ctx: &Ctx) {
    let mut tr = ctx.trace("random0");
    for h in 0..ctx.scale(80, 1200) {
        let mut rng = ctx.rng(100 + h as u64);
        if h > 0 && h % 40 == 0 {
            tr = ctx.trace(&format!("random{}", h / 40));
        }
        let mut sys = Sys::new();
        tr.rec(json!({"op": "start"}));
        let pool = [1u64, 2, 255, 256, 257, 65535, 65536, 16_777_217];
        let nf = rng.gen_range(1..5);
        let fids: Vec<u64> = (0..nf).map(|_| pool[rng.gen_range(0..pool.len())]).collect();
        let blocks = *[2u32, 5, 30].get(rng.gen_range(0..3)).unwrap();
        let t0 = 1_700_000_000u64;
        let mut sent: Vec<Ev> = vec![];
        for n in 0..rng.gen_range(8..40u64) {
            let ev = if !sent.is_empty() && rng.gen_bool(0.15) {
                // redelivered, possibly with other content
                let o = &sent[rng.gen_range(0..sent.len())];
                let mut e = o.e.clone();
                if rng.gen_bool(0.4) {
                    e.transaction_hash = vec![n as u8; 32];
                }
                jfy(e)
            } else {
                random_event(&mut rng, n, &fids, blocks, t0)
            };
            tr.rec(sys.merge(&ev));
            sent.push(ev);
            if rng.gen_bool(0.2) {
                tr.rec(sys.point(true));
            }
            match rng.gen_range(0..10) {
                0..=4 => tr.rec(sys.commit()),
                5 => tr.rec(sys.drop()),
                _ => {}
            }
        }
        tr.rec(sys.commit());
        let asofs: Vec<u64> = (0..4).map(|_| t0 + rng.gen_range(0..100) * 86400 + *[0u64, 1, 86399].get(rng.gen_range(0..3)).unwrap()).collect();
        let st = sys.state(&mut rng, &asofs);
        // exactly when it ends, and a second around that
        let ends: Vec<u64> = st["tier"].as_array().unwrap().iter().filter_map(|t| t["until"].as_u64()).filter(|u| *u > t0).take(2).flat_map(|u| vec![u - 1, u, u + 1]).collect();
        tr.rec(st);
        if !ends.is_empty() {
            tr.rec(sys.state(&mut rng, &ends));
        }
    }
    // more accounts than one page of the account walk, some registered twice, some never
    let mut tr = ctx.trace("many");
    for h in 0..ctx.scale(2, 8) {
        let mut rng = ctx.rng(5000 + h as u64);
        let mut sys = Sys::new();
        tr.rec(json!({"op": "start"}));
        let n = *[99u64, 100, 101, 230].get(rng.gen_range(0..4)).unwrap() + rng.gen_range(0..3);
        for f in 1..=n {
            let et = if rng.gen_bool(0.05) { 2 } else { 1 };
            let times = if rng.gen_bool(0.1) { 2 } else { 1 };
            for t in 0..times {
                let ev = base(3, f * 3, 10 + t, 0, 0, 1_700_000_000, f * 10 + t as u64, Body::IdRegisterEventBody(IdRegisterEventBody {
                    to: addr(f as u8),
                    event_type: et,
                    from: vec![],
                    recovery_address: vec![],
                }));
                tr.rec(sys.merge(&ev));
            }
        }
        tr.rec(sys.commit());
        tr.rec(sys.state(&mut rng, &[]));
    }
    let _ = proto::OnChainEventType::EventTypeNone;
}

pub fn run(ctx: &Ctx) {
    generated(ctx);
    random(ctx);
}
