//! The root shard's events on their way to a data shard, with everything that can go wrong there.
use crate::channels::World;
use crate::common::*;
use libp2p::identity::ed25519::{Keypair, PublicKey, SecretKey};
use informalsystems_malachitebft_core_types::{NilOrVal, Round};
use prost::Message as _;
use rand::seq::SliceRandom;
use rand::Rng as _;
use rand::RngCore as _;
use serde_json::{json, Value};
use snapchain::consensus::consensus::SystemMessage;
use snapchain::consensus::validator::{StoredValidatorSet, StoredValidatorSets};
use snapchain::core::types::{Address, ShardId, SnapchainShard, SnapchainValidator, SnapchainValidatorSet, Vote};
use snapchain::mempool::block_receiver::{BlockReceiver, Config};
use snapchain::mempool::mempool::{MempoolRequest, MempoolSource};
use snapchain::proto::*;
use snapchain::storage::store::account::BlockEventStore;
use snapchain::storage::store::block_engine_test_helpers as bh;
use snapchain::utils::factory::events_factory;
use snapchain::storage::store::mempool_poller::MempoolMessage;
use snapchain::storage::store::test_helper as th;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sync::{broadcast, mpsc};

#[derive(Default)]
struct Seen {
    out: Vec<Value>,
    pool: Vec<(u64, BlockEvent)>,
    /// by event: the block that has it; by block: its answer
    of: BTreeMap<u64, usize>,
    arch: Vec<Option<Block>>,
    genuine: BTreeMap<u64, BlockEvent>,
    wrong: bool,
}

struct Net {
    rt: tokio::runtime::Runtime,
    seen: Arc<Mutex<Seen>>,
    block_tx: Option<broadcast::Sender<Block>>,
    quiet: broadcast::Sender<HubEvent>,
    tasks: Vec<tokio::task::JoinHandle<()>>,
}

fn handed(s: &mut Seen, m: MempoolRequest) {
    if let MempoolRequest::AddMessage(MempoolMessage::BlockEvent { for_shard, message }, source, _) = m {
        let n = message.seqnum();
        if for_shard != 1 || !matches!(source, MempoolSource::Local) || s.genuine.get(&n) != Some(&message) {
            s.wrong = true;
        }
        s.out.push(json!(["s", n]));
        s.pool.push((n, message));
    } else {
        s.wrong = true;
    }
}

impl Net {
    fn settle(&mut self) {
        self.rt.block_on(async {
            for _ in 0..400 {
                tokio::task::yield_now().await;
            }
        });
    }
    fn sleep(&mut self, ms: u64) {
        self.rt.block_on(async move { tokio::time::sleep(Duration::from_millis(ms)).await });
        self.settle();
    }
    fn out(&mut self) -> Value {
        let mut s = self.seen.lock().unwrap();
        let mut o = std::mem::take(&mut s.out);
        if std::mem::take(&mut s.wrong) {
            o.push(json!(["altered", 0]));
        }
        json!(o)
    }
    fn start(&mut self, w: &World, sets: &dyn Fn() -> StoredValidatorSets, batch: u64, cap: usize, told: bool) {
        let (block_tx, block_rx) = broadcast::channel(cap);
        let (mempool_tx, mut mempool_rx) = mpsc::channel(1000);
        let (system_tx, mut system_rx) = mpsc::channel(100);
        let mut b = BlockReceiver {
            shard_id: 1,
            block_rx,
            mempool_tx,
            system_tx,
            event_rx: if told { w.shard.get_senders().events_tx.subscribe() } else { self.quiet.subscribe() },
            stores: w.shard.get_stores(),
            validator_sets: sets(),
            config: Config { single_block_confirmation_timeout: Duration::from_millis(11_000), sync_confirmation_timeout: Duration::from_millis(9_000), sync_batch_size: batch, enabled: true },
            statsd: th::statsd_client(),
        };
        let seen = self.seen.clone();
        self.tasks.push(self.rt.spawn(async move { b.run().await }));
        self.tasks.push(self.rt.spawn(async move {
            loop {
                tokio::select! {
                    m = mempool_rx.recv() => match m {
                        Some(m) => handed(&mut seen.lock().unwrap(), m),
                        None => return,
                    },
                    q = system_rx.recv() => match q {
                        Some(SystemMessage::BlockRequest { block_event_seqnum, block_tx }) => {
                            let mut s = seen.lock().unwrap();
                            while let Ok(m) = mempool_rx.try_recv() {
                                handed(&mut s, m);
                            }
                            s.out.push(json!(["r", block_event_seqnum]));
                            // nobody needs a thousand answers
                            if s.out.len() > 2000 {
                                return;
                            }
                            let a = s.of.get(&block_event_seqnum).and_then(|b| s.arch[*b].clone());
                            let _ = block_tx.send(a);
                        }
                        _ => return,
                    },
                }
            }
        }));
        self.block_tx = Some(block_tx);
        self.settle();
    }
    fn stop(&mut self) {
        for t in self.tasks.drain(..) {
            t.abort();
        }
        self.block_tx = None;
        self.settle();
    }
    fn tell(&mut self, b: &Block) {
        if let Some(tx) = &self.block_tx {
            let _ = tx.send(b.clone());
        }
    }
}

fn certify(b: &mut Block, keys: &[Keypair]) {
    let height = b.header.as_ref().unwrap().height.unwrap();
    let value = ShardHash { shard_index: height.shard_index, hash: b.header.as_ref().unwrap().state_root.clone() };
    let round = Round::from(0u32);
    let signatures = keys
        .iter()
        .map(|k| {
            let signer = k.public().to_bytes().to_vec();
            let vote = Vote::new_precommit(height, round, NilOrVal::Val(value.clone()), Address::from_vec(signer.clone()));
            CommitSignature { signature: k.sign(&vote.to_sign_bytes()), signer }
        })
        .collect();
    b.commits = Some(Commits { height: Some(height), round: round.as_i64(), value: Some(value), signatures });
}

/// The same block, but something in it is not what was decided.
fn spoilt(r: &mut Rng, b: &Block, keys: &[Keypair], stranger: &Keypair) -> Block {
    let mut x = b.clone();
    let n = r.gen_range(0..x.events.len());
    let other = |x: &mut Block, hash: bool| {
        x.events[n].data.as_mut().unwrap().event_index += 1;
        if hash {
            x.events[n].hash = blake3::hash(&x.events[n].data.as_ref().unwrap().encode_to_vec()).as_bytes().to_vec();
        }
    };
    match r.gen_range(0..8) {
        0 => other(&mut x, false),
        1 => other(&mut x, true),
        2 => x.header.as_mut().unwrap().events_hash[3] ^= 1,
        3 => x.events[n].hash = vec![],
        4 => {
            let e = x.events[n].clone();
            x.events.push(e);
        }
        5 => certify(&mut x, &keys[..keys.len() * 2 / 3]),
        6 => {
            let mut k = keys[1..].to_vec();
            k.push(stranger.clone());
            certify(&mut x, &k)
        }
        _ => {
            let s = &mut x.commits.as_mut().unwrap().signatures[0].signature;
            s[5] ^= 4;
        }
    }
    x
}

fn history(h: u64, seed: &mut Rng, recs: &mut Vec<Value>) {
    let mut r = seed.clone();
    let r = &mut r;
    let mut w = World::new(None);
    let mut owned = [false; 5];
    let mut keys: Vec<Keypair> = (0..r.gen_range(1..=4))
        .map(|_| {
            let mut b = [0u8; 32];
            r.fill_bytes(&mut b);
            Keypair::from(SecretKey::try_from_bytes(b).unwrap())
        })
        .collect();
    keys.sort_by_key(|k| k.public().to_bytes());
    let stranger = Keypair::generate();
    let mut set = SnapchainValidatorSet::new(vec![]);
    for k in &keys {
        set.add(SnapchainValidator::new(SnapchainShard::new(0), PublicKey::try_from_bytes(&k.public().to_bytes()).unwrap(), None, 0));
    }
    let sets = || StoredValidatorSets::new(0, vec![StoredValidatorSet { effective_at: 0, validators: set.clone(), shard_ids: vec![0] }]);
    let (batch, cap) = ([1, 2, 3, 500][r.gen_range(0..4)], [2usize, 4, 16][r.gen_range(0..3)]);
    let told = r.gen_bool(0.7);
    let spicy = r.gen_bool(0.5);
    recs.push(json!({"op": "reset", "batch": batch, "cap": cap, "told": told, "h": h}));
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let mut net = Net { rt, seen: Default::default(), block_tx: None, quiet: broadcast::channel(4).0, tasks: vec![] };
    let mut blocks: Vec<Block> = vec![];
    let first_height = w.zero.get_confirmed_height().block_number + 1;
    let mut shorts = 0;
    let mut up = false;
    let steps = r.gen_range(12..40);
    let mut stored = 0u64;
    let mut k = 0;
    let mut healing = 0;
    let mut backlog: Vec<usize> = vec![];
    loop {
        k += 1;
        let heal = k > steps;
        if heal && healing == 0 {
            for b in 0..blocks.len() {
                if net.seen.lock().unwrap().arch[b].as_ref() != Some(&blocks[b]) {
                    net.seen.lock().unwrap().arch[b] = Some(blocks[b].clone());
                    recs.push(json!({"op": "arch", "b": b + 1, "a": "ok"}));
                }
            }
            if !up {
                net.start(&w, &sets, batch, cap, told);
                up = true;
                recs.push(json!({"op": "start", "out": net.out()}));
            }
            net.sleep(1_000_000);
            recs.push(json!({"op": "long", "out": net.out()}));
        }
        let pool = net.seen.lock().unwrap().pool.len();
        let what = if !heal { r.gen_range(0..14) } else if pool > 0 { 6 } else { [0, 11][healing % 2] };
        if heal && what != 6 {
            healing += 1;
        }
        match what {
            // the root shard makes blocks
            0..=4 => {
                let n = if heal { 5 } else { r.gen_range(1..=6) };
                for _ in 0..n {
                    let ms = if r.gen_bool(0.35) && !heal { w.pool(r, &mut owned) } else { vec![] };
                    let height = w.zero.get_confirmed_height().increment();
                    let c = w.zero.propose_state_change(ms, height, None);
                    let mut b = bh::validate_and_commit_state_change(&mut w.zero, &c);
                    if !b.events.is_empty() {
                        let signers = if keys.len() == 4 && r.gen_bool(0.5) { let mut k = keys.clone(); k.remove(r.gen_range(0..4)); k } else { keys.clone() };
                        certify(&mut b, &signers);
                    }
                    let (at, no) = (b.header.as_ref().unwrap().timestamp, height.block_number);
                    let data: Vec<&BlockEventData> = b.events.iter().map(|e| e.data.as_ref().unwrap()).collect();
                    let beats = data.iter().filter(|d| d.r#type == BlockEventType::Heartbeat as i32).count();
                    let proper = data.iter().enumerate().all(|(k, d)| d.event_index == k as u64 && d.seqnum == data[0].seqnum + k as u64 && d.block_number == no && d.block_timestamp == at)
                        && b.events.iter().zip(&data).all(|(e, d)| e.hash == blake3::hash(&d.encode_to_vec()).as_bytes().to_vec())
                        && beats == (no % 5 == 0) as usize
                        && (beats == 0 || data.last().unwrap().r#type == BlockEventType::Heartbeat as i32);
                    let found: Vec<u64> = data.iter().map(|d| w.zero.stores().get_block_by_event_seqnum(d.seqnum).map(|x| x.header.unwrap().height.unwrap().block_number + 1 - first_height).unwrap_or(0)).collect();
                    recs.push(json!({"op": "made", "first": data.first().map(|d| d.seqnum).unwrap_or(0), "last": data.last().map(|d| d.seqnum).unwrap_or(0), "proper": proper, "found": found}));
                    let mut s = net.seen.lock().unwrap();
                    for e in &b.events {
                        s.of.insert(e.seqnum(), blocks.len());
                        s.genuine.insert(e.seqnum(), e.clone());
                    }
                    s.arch.push(Some(b.clone()));
                    backlog.push(blocks.len());
                    blocks.push(b);
                }
                // and says so: each block at once, all together, or some never
                let news: Vec<usize> = backlog.drain(..).collect();
                let together = !heal && r.gen_bool(0.4);
                let mut group = vec![];
                for b in news {
                    if !heal && r.gen_bool(0.15) {
                        continue;
                    }
                    let bad = spicy && !heal && !blocks[b].events.is_empty() && r.gen_bool(0.2);
                    let x = if bad { spoilt(r, &blocks[b], &keys, &stranger) } else { blocks[b].clone() };
                    net.tell(&x);
                    group.push(json!([b + 1, !bad]));
                    if !together {
                        net.settle();
                        recs.push(json!({"op": "tell", "blocks": group, "out": net.out()}));
                        group = vec![];
                    }
                }
                if !group.is_empty() {
                    net.settle();
                    recs.push(json!({"op": "tell", "blocks": group, "out": net.out()}));
                }
            }
            // the data shard makes a block
            5..=8 => {
                let mut all: Vec<(u64, BlockEvent)> = std::mem::take(&mut net.seen.lock().unwrap().pool);
                let mut given = vec![];
                if !heal {
                    let mut rest = vec![];
                    for e in all {
                        match r.gen_range(0..12) {
                            0 => {}
                            1 => rest.push(e),
                            2 => {
                                rest.push(e.clone());
                                given.push(e);
                            }
                            _ => given.push(e),
                        }
                    }
                    if r.gen_bool(0.15) {
                        given.shuffle(r);
                    }
                    net.seen.lock().unwrap().pool = rest;
                    if r.gen_bool(0.1) {
                        let g = net.seen.lock().unwrap().genuine.clone();
                        if let Some((n, e)) = g.iter().nth(r.gen_range(0..g.len().max(1))) {
                            given.push((*n, e.clone()));
                        }
                    }
                } else {
                    all.sort_by_key(|e| e.0);
                    given = all;
                }
                let c = w.shard.propose_state_change(1, given.iter().map(|e| MempoolMessage::BlockEvent { for_shard: 1, message: e.1.clone() }).collect(), None);
                let taken: Vec<u64> = c.transactions.iter().flat_map(|t| t.system_messages.iter().filter_map(|m| m.block_event.as_ref().map(|e| e.seqnum()))).collect();
                let mut rx = w.shard.get_senders().events_tx.subscribe();
                block_on(th::validate_and_commit_state_change(&mut w.shard, &c));
                let mut confirmed = 0;
                while let Ok(e) = rx.try_recv() {
                    if let Some(hub_event::Body::BlockConfirmedBody(b)) = e.body {
                        confirmed = b.max_block_event_seqnum;
                    }
                }
                let st = w.shard.get_stores().block_event_store.clone();
                stored = st.max_seqnum().unwrap();
                let g = net.seen.lock().unwrap().genuine.clone();
                let kept = (1..).take_while(|n| st.get_block_event_by_seqnum(*n).unwrap().is_some()).count();
                let exact = (1..=kept as u64).all(|n| st.get_block_event_by_seqnum(n).unwrap().as_ref() == g.get(&n));
                net.settle();
                if !told {
                    net.sleep(500);
                    shorts += 1;
                }
                recs.push(json!({"op": "commit", "given": given.iter().map(|e| e.0).collect::<Vec<_>>(), "taken": taken, "stored": stored, "kept": kept, "exact": exact, "confirmed": confirmed, "out": net.out()}));
            }
            9 => {
                if shorts < 8 {
                    net.sleep(500);
                    recs.push(json!({"op": "short", "out": net.out()}));
                }
                shorts += 1;
            }
            10 => {
                for _ in 0..120 {
                    net.sleep(500);
                    if !net.seen.lock().unwrap().out.is_empty() {
                        break;
                    }
                }
                shorts = 0;
                recs.push(json!({"op": "next", "out": net.out()}));
            }
            11 => {
                net.sleep(1_000_000);
                shorts = 0;
                recs.push(json!({"op": "long", "out": net.out()}));
            }
            12 => {
                if up {
                    net.stop();
                    recs.push(json!({"op": "stop", "out": net.out()}));
                    up = false;
                } else {
                    net.start(&w, &sets, batch, cap, told);
                    recs.push(json!({"op": "start", "out": net.out()}));
                    up = true;
                    shorts = 0;
                }
            }
            _ => {
                if spicy && !blocks.is_empty() {
                    let b = r.gen_range(0..blocks.len());
                    let a = if blocks[b].events.is_empty() { "ok" } else { ["ok", "none", "bad"][r.gen_range(0..3)] };
                    let x = match a {
                        "ok" => Some(blocks[b].clone()),
                        "none" => None,
                        _ => Some(loop {
                            // what identifies the events stays, so that one can tell what was asked for
                            let x = spoilt(r, &blocks[b], &keys, &stranger);
                            if x.events.len() == blocks[b].events.len() {
                                break x;
                            }
                        }),
                    };
                    net.seen.lock().unwrap().arch[b] = x;
                    recs.push(json!({"op": "arch", "b": b + 1, "a": a}));
                }
            }
        }
        if !up && k == 1 {
            net.start(&w, &sets, batch, cap, told);
            recs.push(json!({"op": "start", "out": net.out()}));
            up = true;
        }
        if !told && shorts > 7 {
            net.sleep(1_000_000);
            recs.push(json!({"op": "long", "out": net.out()}));
            shorts = 0;
        }
        let made = net.seen.lock().unwrap().genuine.keys().max().copied().unwrap_or(0);
        if heal && ((healing >= 3 && stored == made) || healing > 200) {
            recs.push(json!({"op": "healed", "stored": stored, "same": stored != made || w.alike(r)}));
            break;
        }
    }
    net.stop();
}

/// The store of events by number, over the whole range of numbers; numbers are told as ranks.
fn tables(ctx: &Ctx) {
    let mut t = ctx.trace("tables");
    let mut r = ctx.rng(1);
    let d = Config::default();
    t.rec(json!({"op": "defaults", "single": d.single_block_confirmation_timeout.as_millis() as u64, "sync": d.sync_confirmation_timeout.as_millis() as u64, "batch": d.sync_batch_size, "enabled": d.enabled}));
    for _ in 0..ctx.scale(12, 100) {
        let dir = tmp();
        let db = Arc::new(snapchain::storage::db::RocksDB::new(dir.path().join("d").to_str().unwrap()));
        db.open().unwrap();
        let st = BlockEventStore::new(db.clone());
        let mut ns: Vec<u64> = (0..64u32).flat_map(|b| [(1u64 << b) - 1, 1u64 << b, (1u64 << b) + 1]).chain([u64::MAX, u64::MAX - 1]).collect();
        for _ in 0..20 {
            ns.push(r.gen::<u64>() >> r.gen_range(0..64));
        }
        ns.shuffle(&mut r);
        ns.truncate(r.gen_range(5..50));
        ns.retain(|n| *n > 0);
        ns.sort();
        ns.dedup();
        let mut order: Vec<usize> = (0..ns.len()).collect();
        order.shuffle(&mut r);
        let (mut max, mut found) = (vec![], vec![]);
        let rank = |n: u64| ns.iter().position(|x| *x == n).map(|x| x + 1).unwrap_or(0);
        for k in &order {
            let mut b = snapchain::storage::db::RocksDbTransactionBatch::new();
            st.put_block_event(&events_factory::create_heartbeat_event(ns[*k]), &mut b).unwrap();
            db.commit(b).unwrap();
            max.push(rank(st.max_seqnum().unwrap()));
            found.push(ns.iter().filter(|n| st.get_block_event_by_seqnum(**n).unwrap().is_some_and(|e| e == events_factory::create_heartbeat_event(**n))).map(|n| rank(*n)).collect::<Vec<_>>());
        }
        t.rec(json!({"op": "table", "put": order.iter().map(|k| k + 1).collect::<Vec<_>>(), "max": max, "found": found}));
    }
}

pub fn run(ctx: &Ctx) {
    tables(ctx);
    let n = ctx.scale(64, 900);
    let threads = 8;
    std::thread::scope(|s| {
        for t in 0..threads {
            s.spawn(move || {
                let mut tr = ctx.trace(&format!("h{t}"));
                let mut h = t;
                while h < n {
                    let mut recs = vec![];
                    history(h as u64, &mut ctx.rng(10 + h as u64), &mut recs);
                    recs.into_iter().for_each(|x| tr.rec(x));
                    h += threads;
                }
            });
        }
    });
}
