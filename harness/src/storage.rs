//! Renting and lending storage: the real stores and the real block engine.
use crate::common::*;
use crate::onchain::content;
use crate::validate::versions;
use ed25519_dalek::SigningKey;
use rand::Rng as _;
use serde_json::{json, Value};
use snapchain::core::util::FarcasterTime;
use snapchain::proto::{self, *};
use snapchain::storage::db::{RocksDB, RocksDbTransactionBatch};
use snapchain::storage::store::account::*;
use snapchain::storage::store::block_engine::{BlockEngine, BlockStores};
use snapchain::storage::store::block_engine_test_helpers as bh;
use snapchain::storage::store::mempool_poller::MempoolMessage;
use snapchain::storage::store::stores::{StoreLimits, Stores};
use snapchain::storage::store::test_helper::statsd_client;
use snapchain::storage::trie::merkle_trie::MerkleTrie;
use snapchain::utils::factory::{events_factory, messages_factory};
use snapchain::version::version::EngineVersion;
use std::collections::{HashMap, HashSet};
use std::sync::Arc;

const YEAR: i64 = 365 * 24 * 3600;
const EPOCH: i64 = 1609459200;
const NETS: [(FarcasterNetwork, &str); 3] = [(FarcasterNetwork::Mainnet, "mainnet"), (FarcasterNetwork::Testnet, "testnet"), (FarcasterNetwork::Devnet, "devnet")];

fn now() -> i64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64
}
fn cap(n: u64) -> u64 {
    n.min(i32::MAX as u64)
}
fn slot(s: &StorageSlot) -> Value {
    json!([s.units_for(UNIT[0]), s.units_for(UNIT[1]), s.units_for(UNIT[2]), cap(s.invalidate_at as u64)])
}
fn kind(u: StorageUnitType) -> &'static str {
    match u {
        StorageUnitType::UnitTypeLegacy => "legacy",
        StorageUnitType::UnitType2024 => "2024",
        StorageUnitType::UnitType2025 => "2025",
    }
}
const UNIT: [StorageUnitType; 3] = [StorageUnitType::UnitTypeLegacy, StorageUnitType::UnitType2024, StorageUnitType::UnitType2025];

/// A time of purchase near one of the dates that matter.
fn bought(r: &mut Rng) -> u32 {
    let n = now();
    let at: i64 = match r.gen_range(0..6) {
        0 => 1724889600 + r.gen_range(-2..3),
        1 => [1752685200, 1752426000][r.gen_range(0..2)] + r.gen_range(-2..3),
        2 => [1782147600, 1781283600][r.gen_range(0..2)] + r.gen_range(-2..3),
        3 | 4 => n - r.gen_range(1..=4) * YEAR + [-1, 0, 300, -5000, 90_000][r.gen_range(0..5)],
        _ => n - r.gen_range(0..5 * YEAR),
    };
    at as u32
}

struct Rent {
    e: OnChainEvent,
    j: Value,
}
fn rent(fid: u64, units: u32, ts: u32) -> Rent {
    let mut e = events_factory::create_rent_event_with_timestamp(fid, units, ts);
    // later purchases come in later blocks
    e.block_number = ts >> 2;
    static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    e.log_index = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let j = json!({"id": content(&e), "f": fid, "units": units, "ts": ts});
    Rent { e, j }
}

#[derive(Clone)]
struct Loan {
    m: Message,
    j: Value,
}
fn loan(from: u64, to: u64, units: u64, u: StorageUnitType, ts: i64, key: &SigningKey) -> Loan {
    let m = messages_factory::storage_lend::create_storage_lend(from, to, units, u, Some((ts - EPOCH) as u32), Some(key));
    let h = u32::from_be_bytes([0, m.hash[0], m.hash[1], m.hash[2]]);
    let j = json!({"from": from, "to": to, "units": units, "kind": kind(u), "ts": ts - EPOCH, "h": h});
    Loan { m, j }
}

fn pure(ctx: &Ctx) {
    let mut r = ctx.rng(1);
    let mut t = ctx.trace("facts");
    t.rec(json!({"op": "reset", "net": "devnet"}));
    let vs = versions();
    for (n, name) in NETS {
        t.rec(json!({"op": "cutoff", "net": name, "got": [StorageSlot::unit_type_2024_cutoff(n), StorageSlot::unit_type_2025_cutoff(n)]}));
    }
    for _ in 0..ctx.scale(400, 4000) {
        let (n, name) = NETS[r.gen_range(0..3)];
        let v = vs[r.gen_range(0..vs.len())];
        let (ts, units) = (bought(&mut r), r.gen_range(0..50));
        let got = StorageSlot::from_event(&rent(1, units, ts).e, n, v).unwrap();
        t.rec(json!({"op": "event", "net": name, "v": v as u32, "ts": ts, "units": units, "got": slot(&got)}));
    }
    let some = |r: &mut Rng| {
        let e = match r.gen_range(0..5) {
            0 => 0,
            1 => u32::MAX,
            2 => (now() + r.gen_range(-2..1)) as u32,
            _ => (now() + r.gen_range(-1000..10000)) as u32,
        };
        let u: [u32; 3] = [r.gen_range(0..9), r.gen_range(0..9), r.gen_range(0..9)];
        (StorageSlot::new(u[0], u[1], u[2], e), json!([u[0], u[1], u[2], cap(e as u64)]))
    };
    for _ in 0..ctx.scale(700, 7000) {
        let ((a, aj), (b, bj)) = (some(&mut r), some(&mut r));
        let n0 = now();
        match r.gen_range(0..5) {
            0 => {
                let g = a.is_active();
                t.rec(json!({"op": "active", "a": aj, "got": g, "now": n0, "now1": now()}));
            }
            1 => {
                let l = proto::LendStorageBody { to_fid: 2, num_units: r.gen_range(0..5000), unit_type: r.gen_range(0..3) };
                t.rec(json!({"op": "loan", "kind": kind(l.unit_type()), "units": l.num_units, "got": slot(&StorageSlot::from_storage_lend(&l))}));
            }
            2 => t.rec(json!({"op": "for", "a": aj, "got": UNIT.iter().map(|u| a.units_for(*u)).collect::<Vec<_>>()})),
            3 => {
                let mut g = a.clone();
                g.merge(&b);
                t.rec(json!({"op": "merge", "a": aj, "b": bj, "got": slot(&g), "now": n0, "now1": now()}));
            }
            _ => {
                let mut g = a.clone();
                g.sub(&b);
                t.rec(json!({"op": "sub", "a": aj, "b": bj, "got": slot(&g), "now": n0, "now1": now()}));
            }
        }
        let l = StoreLimits::default();
        let got: Vec<u32> = TYPES.iter().map(|s| l.max_messages(&a, *s)).collect();
        if r.gen_bool(0.2) {
            t.rec(json!({"op": "max", "slot": aj, "got": got}));
        }
    }
}
const TYPES: [StoreType; 7] =
    [StoreType::Casts, StoreType::Links, StoreType::Reactions, StoreType::UserData, StoreType::Verifications, StoreType::UsernameProofs, StoreType::StorageLends];

/// The stores of a data shard and of shard 0, given the same rents and loans.
struct Both {
    _dirs: Vec<tempfile::TempDir>,
    data: Stores,
    zero: BlockStores,
    dbs: [Arc<RocksDB>; 2],
    net: FarcasterNetwork,
}
impl Both {
    fn new(net: FarcasterNetwork) -> Both {
        let dirs = vec![tmp(), tmp()];
        let open = |d: &tempfile::TempDir| {
            let db = Arc::new(RocksDB::new(d.path().to_str().unwrap()));
            db.open().unwrap();
            db
        };
        let dbs = [open(&dirs[0]), open(&dirs[1])];
        let data = Stores::new(dbs[0].clone(), 1, MerkleTrie::new().unwrap(), StoreLimits::default(), net, statsd_client());
        let zero = BlockStores::new(dbs[1].clone(), MerkleTrie::new().unwrap(), net);
        Both { _dirs: dirs, data, zero, dbs, net }
    }
    fn rent(&self, e: &OnChainEvent) {
        for (db, st) in self.dbs.iter().zip([&self.data.onchain_event_store, &self.zero.onchain_event_store]) {
            let mut txn = RocksDbTransactionBatch::new();
            st.merge_onchain_event(e.clone(), &mut txn).unwrap();
            db.commit(txn).unwrap();
        }
    }
    fn lend(&self, m: &Message) -> Vec<(bool, bool)> {
        let ctx = MergeContext { version: EngineVersion::latest() };
        self.dbs
            .iter()
            .zip([&self.data.storage_lend_store, &self.zero.storage_lend_store])
            .map(|(db, st)| {
                let mut txn = RocksDbTransactionBatch::new();
                match StorageLendStore::merge(st, m, &mut txn, &ctx) {
                    Ok(ev) => {
                        db.commit(txn).unwrap();
                        (true, ev.iter().any(|e| matches!(e.body, Some(hub_event::Body::PruneMessageBody(_)))))
                    }
                    Err(_) => (false, false),
                }
            })
            .collect()
    }
}

fn limits(t: &mut Trace, st: &Stores, fid: u64, v: EngineVersion) {
    let n0 = now();
    let l = st.get_storage_limits(fid).unwrap();
    let of = |s: StoreType| l.limits.iter().find(|x| x.store_type == i32::from(s.into_proto())).map(|x| x.limit).unwrap_or(u64::MAX);
    let d: Vec<Value> = UNIT
        .iter()
        .map(|u| {
            let x = l.unit_details.iter().find(|d| d.unit_type == *u as i32).unwrap();
            json!([x.unit_size, x.purchased_unit_size, x.borrowed_unit_size, x.lent_unit_size])
        })
        .collect();
    t.rec(json!({"op": "limits", "fid": fid, "v": v as u32, "units": l.units, "details": d, "limits": TYPES.iter().map(|s| cap(of(*s))).collect::<Vec<_>>(), "now": n0, "now1": now()}));
}

trait IntoProto {
    fn into_proto(self) -> proto::StoreType;
}
impl IntoProto for StoreType {
    fn into_proto(self) -> proto::StoreType {
        match self {
            StoreType::Casts => proto::StoreType::Casts,
            StoreType::Links => proto::StoreType::Links,
            StoreType::Reactions => proto::StoreType::Reactions,
            StoreType::UserData => proto::StoreType::UserData,
            StoreType::Verifications => proto::StoreType::Verifications,
            StoreType::UsernameProofs => proto::StoreType::UsernameProofs,
            StoreType::StorageLends => proto::StoreType::StorageLends,
            StoreType::None => proto::StoreType::None,
        }
    }
}

fn stores(ctx: &Ctx) {
    let mut t = ctx.trace("stores");
    let mut r = ctx.rng(2);
    let vs = versions();
    let key = SigningKey::from_bytes(&[7; 32]);
    for _ in 0..ctx.scale(60, 600) {
        let (net, name) = NETS[r.gen_range(0..3)];
        let b = Both::new(net);
        t.rec(json!({"op": "reset", "net": name}));
        let fids = [1u64, 2, 70_000, 4_000_000_000];
        let mut said: Vec<Loan> = vec![];
        for _ in 0..r.gen_range(5..40) {
            let f = fids[r.gen_range(0..4)];
            let g = fids[r.gen_range(0..4)];
            match r.gen_range(0..10) {
                0..=2 => {
                    let x = rent(f, r.gen_range(0..30), bought(&mut r));
                    b.rent(&x.e);
                    t.rec(json!({"op": "rent", "rent": x.j}));
                }
                3..=5 => {
                    let units = [0u64, 0, 1, 5, 20][r.gen_range(0..5)];
                    let l = if !said.is_empty() && r.gen_bool(0.15) {
                        said[r.gen_range(0..said.len())].clone()
                    } else {
                        loan(f, g, units, UNIT[r.gen_range(0..3)], now() - 500 + r.gen_range(0..12), &key)
                    };
                    let got = b.lend(&l.m);
                    said.push(l.clone());
                    for (n, (taken, pruned)) in got.iter().enumerate() {
                        if n == 0 || got[0] != got[1] {
                            t.rec(json!({"op": "lend", "m": l.j, "taken": taken, "pruned": pruned}));
                        }
                    }
                }
                6 | 7 => {
                    let v = vs[r.gen_range(0..vs.len())];
                    let pend: Vec<Rent> = (0..r.gen_range(0..3)).map(|_| rent(fids[r.gen_range(0..4)], r.gen_range(0..9), bought(&mut r))).collect();
                    let mut pe: Vec<OnChainEvent> = pend.iter().map(|p| p.e.clone()).collect();
                    if r.gen_bool(0.3) {
                        pe.push(events_factory::create_id_register_event(f, IdRegisterEventType::Register, vec![1; 20], None));
                    }
                    let borrowed = r.gen_bool(0.6);
                    let n0 = now();
                    if r.gen_bool(0.5) {
                        let s = b.data.get_storage_slot_for_fid(f, v, borrowed, &pe).unwrap();
                        t.rec(json!({"op": "slot", "fid": f, "v": v as u32, "lent": true, "borrowed": borrowed, "pend": pend.iter().map(|p| p.j.clone()).collect::<Vec<_>>(), "got": slot(&s), "now": n0, "now1": now()}));
                    } else {
                        let lent = r.gen_bool(0.6);
                        let s = b.zero.get_storage_slot_for_fid(f, v, &pe, lent, borrowed).unwrap();
                        t.rec(json!({"op": "slot", "fid": f, "v": v as u32, "lent": lent, "borrowed": borrowed, "pend": pend.iter().map(|p| p.j.clone()).collect::<Vec<_>>(), "got": slot(&s), "now": n0, "now1": now()}));
                    }
                }
                _ => limits(&mut t, &b.data, f, EngineVersion::current(b.net)),
            }
        }
    }
}

/// Loans through the engine of shard 0: proposed, validated and committed.
fn engine(ctx: &Ctx) {
    let mut t = ctx.trace("engine");
    let mut r = ctx.rng(3);
    for h in 0..ctx.scale(40, 400) {
        let (net, name) = NETS[r.gen_range(0..3)];
        let (mut e, _dir): (BlockEngine, _) = bh::setup_with_options(bh::BlockEngineOptions { network: net, ..Default::default() });
        t.rec(json!({"op": "reset", "net": name}));
        let fids = [1u64, 2, 3, 9_999_999];
        let keys: Vec<SigningKey> = (0..4).map(|k| SigningKey::from_bytes(&[k as u8 + 1; 32])).collect();
        // versions from the fix of lending limits on
        let mut at = now() - r.gen_range(0..40) * 10 * 86400 / if net == FarcasterNetwork::Devnet { 1 } else { 1 };
        let first = 1759942800 + 100_000;
        at = at.max(first);
        let _ = h;
        let big = net == FarcasterNetwork::Mainnet;
        for (f, k) in fids.iter().zip(&keys) {
            bh::commit_event(&mut e, &events_factory::create_id_register_event(*f, IdRegisterEventType::Register, vec![*f as u8; 20], None));
            bh::commit_event(&mut e, &events_factory::create_signer_event(*f, k.clone(), SignerEventType::Add, None, None));
        }
        let mut said: Vec<Loan> = vec![];
        for _ in 0..r.gen_range(4..14) {
            at = (at + [0, 0, 1, 3, 60, 300, 86400][r.gen_range(0..7)]).min(now());
            let time = FarcasterTime::from_unix_seconds(at as u64);
            let v = EngineVersion::version_for(&time, net);
            let mut offered: HashMap<u64, (Vec<Rent>, Vec<Loan>)> = HashMap::new();
            let mut msgs = vec![];
            for _ in 0..r.gen_range(1..6) {
                let n = r.gen_range(0..4);
                let f = fids[n];
                let o = offered.entry(f).or_default();
                if r.gen_bool(0.35) {
                    let units = if big { r.gen_range(300..1500) } else { r.gen_range(1..12) };
                    let ts = if r.gen_bool(0.7) { (now() - r.gen_range(0..100) * 86400) as u32 } else { bought(&mut r) };
                    // none that runs out while this runs
                    let left = [1, 2, 3, 4].iter().any(|y| (0..600).contains(&(ts as i64 + y * YEAR - now())));
                    if left {
                        continue;
                    }
                    let x = rent(f, units, ts);
                    msgs.push(MempoolMessage::OnchainEvent(x.e.clone()));
                    o.0.push(x);
                } else {
                    let l = if !said.is_empty() && r.gen_bool(0.15) {
                        let l = said[r.gen_range(0..said.len())].clone();
                        if l.m.fid() != f || o.1.iter().any(|x| x.m.hash == l.m.hash) {
                            continue;
                        }
                        l
                    } else {
                        let units = match r.gen_range(0..8) {
                            0 => 0,
                            1 => 5001,
                            2 => 5000,
                            _ => {
                                if big {
                                    r.gen_range(0..1200)
                                } else {
                                    r.gen_range(0..9)
                                }
                            }
                        };
                        loan(f, fids[r.gen_range(0..4)], units, if r.gen_bool(0.8) { StorageUnitType::UnitType2025 } else { UNIT[r.gen_range(0..3)] }, at - [0, 1, 2, 3, 4, 599, 600, 601, 700][r.gen_range(0..9)], &keys[n])
                    };
                    if o.1.iter().any(|x| x.m.hash == l.m.hash) {
                        continue;
                    }
                    msgs.push(MempoolMessage::UserMessage(l.m.clone()));
                    said.push(l.clone());
                    o.1.push(l);
                }
            }
            // when what is offered fills the lender exactly
            let n0 = now();
            if std::env::var("SNAPSPEC_WHY").is_ok() {
                for (_, o) in &offered { for l in &o.1 { eprintln!("{} {:?}", l.j, e.simulate_message(&l.m)); } }
            }
            let height = e.get_confirmed_height().increment();
            let change = e.propose_state_change(msgs, height, Some(time));
            let valid = e.validate_state_change(&change, height);
            let merged: HashSet<Vec<u8>> = change
                .events
                .iter()
                .filter_map(|b| match b.data.as_ref().and_then(|d| d.body.as_ref()) {
                    Some(block_event_data::Body::MergeMessageEventBody(m)) => Some(m.message.as_ref().unwrap().hash.clone()),
                    _ => None,
                })
                .collect();
            let mut txns = vec![];
            for tx in &change.transactions {
                let o = offered.remove(&tx.fid).unwrap_or_default();
                let ms: Vec<Value> = tx
                    .user_messages
                    .iter()
                    .map(|m| {
                        let mut j = o.1.iter().find(|l| l.m.hash == m.hash).map(|l| l.j.clone()).unwrap_or(json!({}));
                        j["taken"] = json!(merged.contains(&m.hash));
                        j
                    })
                    .collect();
                txns.push(json!({"fid": tx.fid, "rents": o.0.iter().map(|x| x.j.clone()).collect::<Vec<_>>(), "offered": o.1.iter().map(|l| l.j["h"].clone()).collect::<Vec<_>>(), "msgs": ms}));
            }
            for (f, o) in offered {
                txns.push(json!({"fid": f, "rents": o.0.iter().map(|x| x.j.clone()).collect::<Vec<_>>(), "offered": o.1.iter().map(|l| l.j["h"].clone()).collect::<Vec<_>>(), "msgs": []}));
            }
            t.rec(json!({"op": "block", "at": at - EPOCH, "v": v as u32, "now": n0, "txns": txns, "valid": valid}));
            bh::validate_and_commit_state_change(&mut e, &change);
            for f in fids {
                if r.gen_bool(0.4) {
                    let (lent, borrowed) = (r.gen_bool(0.7), r.gen_bool(0.7));
                    let n0 = now();
                    let s = e.stores().get_storage_slot_for_fid(f, v, &vec![], lent, borrowed).unwrap();
                    t.rec(json!({"op": "slot", "fid": f, "v": v as u32, "lent": lent, "borrowed": borrowed, "pend": [], "got": slot(&s), "now": n0, "now1": now()}));
                }
            }
        }
    }
}

pub fn run(ctx: &Ctx) {
    pure(ctx);
    stores(ctx);
    engine(ctx);
}
