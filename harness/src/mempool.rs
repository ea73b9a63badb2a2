//! Runs the real mempool: submissions, hand-outs, commits, rates, routing.
use crate::common::*;
use rand::seq::SliceRandom;
use rand::Rng as _;
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use snapchain::core::error::HubError;
use snapchain::mempool::mempool::*;
use snapchain::mempool::routing::{route_message, MessageRouter, ShardRouter};
use snapchain::network::gossip::GossipEvent;
use snapchain::core::types::SnapchainValidatorContext;
use snapchain::proto::message_data::Body;
use snapchain::proto::*;
use snapchain::storage::db::{RocksDB, RocksDbTransactionBatch};
use snapchain::storage::store::account::{make_message_primary_key, make_ts_hash, type_to_set_postfix};
use snapchain::storage::store::block_engine::BlockStores;
use snapchain::storage::store::mempool_poller::MempoolMessage;
use snapchain::storage::store::stores::{StoreLimits, Stores};
use snapchain::storage::trie::merkle_trie::MerkleTrie;
use snapchain::storage::store::test_helper::statsd_client;
use snapchain::version::version::EngineVersion;
use std::collections::HashMap;
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio::sync::{broadcast, mpsc, oneshot};

const EPOCH: u64 = 1609459200;

fn unix_now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs()
}

/// The leading 32 bits of an account's digest, in two halves.
fn halves(fid: u64) -> (u64, u64) {
    let h = Sha256::digest((fid as u32).to_be_bytes());
    ((h[0] as u64) << 8 | h[1] as u64, (h[2] as u64) << 8 | h[3] as u64)
}
fn shard_of(fid: u64, n: u32) -> u32 {
    let (hi, lo) = halves(fid);
    ((hi * 65536 + lo) % n as u64) as u32 + 1
}

fn tyname(t: MessageType) -> String {
    format!("{t:?}")
}

pub const TYPES: &[MessageType] = &[
    MessageType::CastAdd,
    MessageType::CastRemove,
    MessageType::ReactionAdd,
    MessageType::ReactionRemove,
    MessageType::LinkAdd,
    MessageType::LinkRemove,
    MessageType::LinkCompactState,
    MessageType::VerificationAddEthAddress,
    MessageType::VerificationRemove,
    MessageType::UserDataAdd,
    MessageType::UsernameProof,
    MessageType::FrameAction,
    MessageType::LendStorage,
    MessageType::KeyAdd,
    MessageType::KeyRemove,
    MessageType::ChannelUpdate,
    MessageType::ChannelMember,
    MessageType::ChannelPin,
    MessageType::ChannelModerate,
];

fn body_of(t: MessageType, live: bool, to: u64) -> Option<Body> {
    Some(match t {
        MessageType::CastAdd => Body::CastAddBody(CastAddBody { text: "x".into(), ..Default::default() }),
        MessageType::CastRemove => Body::CastRemoveBody(CastRemoveBody { target_hash: vec![1; 20] }),
        MessageType::ReactionAdd | MessageType::ReactionRemove => Body::ReactionBody(ReactionBody { r#type: 1, target: Some(reaction_body::Target::TargetUrl("https://a.b".into())) }),
        MessageType::LinkAdd | MessageType::LinkRemove => Body::LinkBody(LinkBody { r#type: "follow".into(), display_timestamp: None, target: Some(link_body::Target::TargetFid(7)) }),
        MessageType::LinkCompactState => Body::LinkCompactStateBody(LinkCompactStateBody { r#type: "follow".into(), target_fids: vec![7] }),
        MessageType::VerificationAddEthAddress => Body::VerificationAddAddressBody(VerificationAddAddressBody { address: vec![3; 20], ..Default::default() }),
        MessageType::VerificationRemove => Body::VerificationRemoveBody(VerificationRemoveBody { address: vec![3; 20], protocol: 0 }),
        MessageType::UserDataAdd => Body::UserDataBody(UserDataBody { r#type: if live { UserDataType::LiveAt as i32 } else { UserDataType::Bio as i32 }, value: "v".into() }),
        MessageType::UsernameProof => Body::UsernameProofBody(UserNameProof { name: b"a.eth".to_vec(), ..Default::default() }),
        MessageType::LendStorage => Body::LendStorageBody(LendStorageBody { to_fid: to, num_units: 1, unit_type: 0 }),
        MessageType::KeyAdd => Body::KeyAddBody(KeyAddBody::default()),
        MessageType::KeyRemove => Body::KeyRemoveBody(KeyRemoveBody::default()),
        _ => return None,
    })
}

fn user(r: &mut Rng, t: MessageType, fid: u64, ts: u32, live: bool, to: u64) -> Message {
    let data = MessageData { r#type: t as i32, fid, timestamp: ts, network: 3, body: body_of(t, live, to) };
    Message { data: Some(data), hash: (0..20).map(|_| r.gen()).collect(), hash_scheme: 1, signature: vec![7; 64], signature_scheme: 1, signer: vec![5; 32], data_bytes: None }
}

struct Item {
    id: usize,
    m: MempoolMessage,
    kind: &'static str,
    fid: u64,
    ts: u64,
    ty: String,
    live: bool,
    seq: u64,
    target: u32,
    bad: bool,
    rent: u64,
}

struct Run<'a> {
    n: u32,
    stores: HashMap<u32, Stores>,
    blocks: BlockStores,
    _dirs: Vec<tempfile::TempDir>,
    tx: mpsc::Sender<MempoolRequest>,
    pull: mpsc::Sender<MempoolMessagesRequest>,
    chunk: broadcast::Sender<ShardChunk>,
    block: broadcast::Sender<Block>,
    gossip: mpsc::Receiver<GossipEvent<SnapchainValidatorContext>>,
    task: tokio::task::JoinHandle<()>,
    items: Vec<Item>,
    t0: Instant,
    tr: &'a mut Trace,
    dead: bool,
    read: bool,
    twins: Vec<usize>,
}

fn new_db(dirs: &mut Vec<tempfile::TempDir>) -> Arc<RocksDB> {
    let d = tmp();
    let db = Arc::new(RocksDB::new(d.path().to_str().unwrap()));
    db.open().unwrap();
    dirs.push(d);
    db
}

impl<'a> Run<'a> {
    fn new(tr: &'a mut Trace, n: u32, net: FarcasterNetwork, limits: bool, read: bool) -> Run<'a> {
        let mut dirs = vec![];
        let mut stores = HashMap::new();
        for s in 1..=n {
            stores.insert(s, Stores::new(new_db(&mut dirs), s, MerkleTrie::new().unwrap(), StoreLimits::default(), net, statsd_client()));
        }
        let mut trie = MerkleTrie::new().unwrap();
        let db0 = new_db(&mut dirs);
        trie.initialize(&db0).unwrap();
        let blocks = BlockStores::new(db0, trie, net);
        let (tx, rx) = mpsc::channel(1000);
        let (pull, pull_rx) = mpsc::channel(100);
        let (chunk, chunk_rx) = broadcast::channel(100);
        let (block, block_rx) = broadcast::channel(100);
        let (gtx, gossip) = mpsc::channel(10000);
        let task = if read {
            let mut m = ReadNodeMempool::new(rx, n, stores.clone(), blocks.clone(), gtx, statsd_client(), net);
            tokio::spawn(async move { m.run().await })
        } else {
            let cfg = Config { enable_rate_limits: limits, ..Config::default() };
            let mut m = Mempool::new(cfg, net, rx, pull_rx, n, stores.clone(), blocks.clone(), gtx, chunk_rx, block_rx, statsd_client());
            tokio::spawn(async move { m.run().await })
        };
        let netname = match net {
            FarcasterNetwork::Mainnet => "mainnet",
            FarcasterNetwork::Testnet => "testnet",
            _ => "devnet",
        };
        tr.rec(json!({"op":"begin","n":n,"net":netname,"now":unix_now(),"limits":limits,"read":read}));
        Run { n, stores, blocks, _dirs: dirs, tx, pull, chunk, block, gossip, task, items: vec![], t0: Instant::now(), tr, dead: false, read, twins: vec![] }
    }

    fn item(&mut self, m: MempoolMessage, bad: bool) -> usize {
        let id = self.items.len() + 1;
        let (kind, fid, ts, ty, live, seq, target, rent, hash): (&'static str, u64, u64, String, bool, u64, u32, u64, Vec<u8>) = match &m {
            MempoolMessage::UserMessage(u) => {
                let d = u.data.clone().unwrap_or_default();
                let live = matches!(&d.body, Some(Body::UserDataBody(b)) if b.r#type == UserDataType::LiveAt as i32);
                ("user", d.fid, EPOCH + d.timestamp as u64, tyname(MessageType::try_from(d.r#type).unwrap_or(MessageType::None)), live, 0, 0, 0, u.hash.clone())
            }
            MempoolMessage::OnchainEvent(e) | MempoolMessage::OnchainEventForMigration(e) => {
                let k = if matches!(m, MempoolMessage::OnchainEvent(_)) { "onchain" } else { "migration" };
                let rent = match &e.body {
                    Some(on_chain_event::Body::StorageRentEventBody(b)) => b.units as u64,
                    _ => 0,
                };
                (k, e.fid, e.block_timestamp, String::new(), false, 0, 0, rent, vec![])
            }
            MempoolMessage::FnameTransfer(f) => {
                let p = f.proof.as_ref().unwrap();
                ("fname", p.fid, p.timestamp, String::new(), false, 0, 0, 0, vec![])
            }
            MempoolMessage::BlockEvent { for_shard, message } => ("block", 0, message.block_timestamp(), String::new(), false, message.seqnum(), *for_shard, 0, vec![]),
        };
        let (hi, lo) = halves(fid);
        self.tr.rec(json!({"op":"msg","id":id,"kind":kind,"fid":fid,"ts":ts,"hi":hi,"lo":lo,"type":ty,"live":live,"hash":hash,"seq":seq,"for":target,"bad":bad}));
        self.items.push(Item { id, m, kind, fid, ts, ty, live, seq, target, bad, rent });
        id
    }

    fn find(&self, m: &MempoolMessage) -> usize {
        self.items.iter().find(|i| i.m == *m || matches!((&i.m, m), (MempoolMessage::OnchainEvent(a), MempoolMessage::OnchainEventForMigration(b)) if a == b)).map(|i| i.id).unwrap_or(0)
    }

    async fn submit(&mut self, id: usize, source: &str) -> String {
        if self.dead {
            return "dead".into();
        }
        let m = self.items[id - 1].m.clone();
        let (tx, rx) = oneshot::channel();
        let src = match source {
            "gossip" => MempoolSource::Gossip,
            "rpc" => MempoolSource::RPC,
            _ => MempoolSource::Local,
        };
        let a = self.t0.elapsed().as_millis() as u64;
        let _ = self.tx.send(MempoolRequest::AddMessage(m.clone(), src, Some(tx))).await;
        let got = match rx.await {
            Ok(g) => g,
            Err(_) => {
                self.dead = true;
                self.tr.rec(json!({"op":"dead","id":id,"source":source}));
                return "dead".into();
            }
        };
        let b = self.t0.elapsed().as_millis() as u64;
        let res = match got {
            Ok(()) => "ok",
            Err(HubError { code, .. }) if code.contains("duplicate") => "duplicate",
            Err(HubError { code, .. }) if code.contains("rate_limited") => "limited",
            Err(_) => "refused",
        };
        let mut told = 0;
        while let Ok(e) = self.gossip.try_recv() {
            told += if matches!(&e, GossipEvent::BroadcastMempoolMessage(x) if *x == m) { 1 } else { 100 };
        }
        self.tr.rec(json!({"op":"submit","id":id,"source":source,"res":res,"told":told,"ms":[a,b]}));
        res.into()
    }

    async fn pull(&mut self, s: u32, max: u32) -> Vec<usize> {
        if self.dead || self.read {
            return vec![];
        }
        let (tx, rx) = oneshot::channel();
        let _ = self.pull.send(MempoolMessagesRequest { shard_id: s, message_tx: tx, max_messages_per_block: max }).await;
        match rx.await {
            Ok(ms) => {
                let ids: Vec<usize> = ms.iter().map(|m| self.find(m)).collect();
                self.tr.rec(json!({"op":"pull","s":s,"max":max,"ids":ids}));
                ids
            }
            Err(_) => {
                self.dead = true;
                self.tr.rec(json!({"op":"dead","pull":s}));
                vec![]
            }
        }
    }

    async fn sizes(&mut self, rec: bool) -> HashMap<u32, u64> {
        if self.dead {
            return HashMap::new();
        }
        let (tx, rx) = oneshot::channel();
        let _ = self.tx.send(MempoolRequest::GetSize(tx)).await;
        match rx.await {
            Ok(z) => {
                if rec {
                    let v: Vec<u64> = (0..=self.n).map(|s| z.get(&s).cloned().unwrap_or(0)).collect();
                    self.tr.rec(json!({"op":"size","sizes":v}));
                }
                z
            }
            Err(_) => {
                self.dead = true;
                self.tr.rec(json!({"op":"dead","size":0}));
                HashMap::new()
            }
        }
    }

    fn db(&self, s: u32) -> Arc<RocksDB> {
        if s == 0 {
            self.blocks.db.clone()
        } else {
            self.stores[&s].db.clone()
        }
    }

    /// The message becomes part of the shard's stored state.
    fn stored(&mut self, s: u32, id: usize) {
        if let MempoolMessage::UserMessage(m) = &self.items[id - 1].m {
            let Some(d) = &m.data else { return };
            if d.r#type() == MessageType::LendStorage {
                return;
            }
            let (Ok(p), Ok(th)) = (type_to_set_postfix(d.r#type()), make_ts_hash(d.timestamp, &m.hash)) else { return };
            use prost::Message as _;
            self.db(s).put(&make_message_primary_key(d.fid, p as u8, Some(&th)), &m.encode_to_vec()).unwrap();
            self.tr.rec(json!({"op":"stored","s":s,"id":id}));
        }
    }

    fn rent(&mut self, fid: u64, units: u32) {
        let s = shard_of(fid, self.n);
        let e = rent_event(fid, units);
        let st = &self.stores[&s];
        let mut txn = RocksDbTransactionBatch::new();
        st.onchain_event_store.merge_onchain_event(e, &mut txn).unwrap();
        st.db.commit(txn).unwrap();
        self.tr.rec(json!({"op":"rent","fid":fid,"units":units}));
    }

    fn block_seq(&mut self, s: u32, seq: u64) {
        if s == 0 {
            return;
        }
        let st = &self.stores[&s];
        let mut txn = RocksDbTransactionBatch::new();
        st.block_event_store.put_block_event(&block_event(seq, 1), &mut txn).unwrap();
        st.db.commit(txn).unwrap();
        self.tr.rec(json!({"op":"blockseq","s":s,"seq":seq}));
    }

    /// A decided block of shard `s` with these messages.
    async fn commit(&mut self, s: u32, ids: &[usize]) {
        if self.dead || self.read {
            return;
        }
        let z = self.sizes(false).await;
        if !z.contains_key(&s) {
            return;
        }
        let mut txns: Vec<Transaction> = vec![];
        let mut raise = vec![];
        let mut done = vec![];
        for id in ids {
            let i = &self.items[id - 1];
            if i.bad {
                continue;
            }
            done.push(*id);
            let mut t = Transaction { fid: i.fid, ..Default::default() };
            match &i.m {
                MempoolMessage::UserMessage(m) => {
                    if let Some(Body::LendStorageBody(b)) = &m.data.as_ref().unwrap().body {
                        raise.push(i.fid);
                        raise.push(b.to_fid);
                    }
                    t.user_messages.push(m.clone())
                }
                MempoolMessage::OnchainEvent(e) | MempoolMessage::OnchainEventForMigration(e) => {
                    if i.rent > 0 {
                        raise.push(i.fid);
                    }
                    t.system_messages.push(ValidatorMessage { on_chain_event: Some(e.clone()), ..Default::default() })
                }
                MempoolMessage::FnameTransfer(f) => t.system_messages.push(ValidatorMessage { fname_transfer: Some(f.clone()), ..Default::default() }),
                MempoolMessage::BlockEvent { message, .. } => t.system_messages.push(ValidatorMessage { block_event: Some(message.clone()), ..Default::default() }),
            }
            match txns.iter_mut().find(|x| x.fid == t.fid) {
                Some(x) => {
                    x.user_messages.extend(t.user_messages);
                    x.system_messages.extend(t.system_messages);
                }
                None => txns.push(t),
            }
        }
        let height = Some(Height { shard_index: s, block_number: 1 });
        if s == 0 {
            let _ = self.block.send(Block { header: Some(BlockHeader { height, ..Default::default() }), transactions: txns, ..Default::default() });
        } else {
            let _ = self.chunk.send(ShardChunk { header: Some(ShardHeader { height, ..Default::default() }), transactions: txns, ..Default::default() });
        }
        self.tr.rec(json!({"op":"commit","s":s,"ids":done,"raise":raise}));
        self.sizes(true).await;
    }

    async fn end(self) {
        self.task.abort();
        let _ = self.task.await;
    }
}

fn rent_event(fid: u64, units: u32) -> OnChainEvent {
    let mut e = snapchain::utils::factory::events_factory::create_onchain_event(fid);
    e.r#type = OnChainEventType::EventTypeStorageRent as i32;
    e.block_timestamp = unix_now() - 1000;
    e.body = Some(on_chain_event::Body::StorageRentEventBody(StorageRentEventBody { payer: vec![1; 20], units, expiry: 0 }));
    e
}
fn block_event(seq: u64, ts: u64) -> BlockEvent {
    BlockEvent {
        hash: vec![],
        data: Some(BlockEventData { seqnum: seq, r#type: 0, block_number: 1, event_index: 0, block_timestamp: ts, body: Some(block_event_data::Body::HeartbeatEventBody(HeartbeatEventBody::default())) }),
    }
}
fn transfer(r: &mut Rng, fid: u64, ts: u64) -> FnameTransfer {
    FnameTransfer {
        id: r.gen_range(1..2_000_000),
        from_fid: 0,
        proof: Some(UserNameProof { timestamp: ts, name: format!("n{}", r.gen::<u32>()).into_bytes(), owner: vec![1; 20], signature: vec![2; 65], fid, r#type: 1 }),
    }
}

fn fid_in(r: &mut Rng, s: u32, n: u32) -> u64 {
    loop {
        let f = r.gen_range(1..1_000_000);
        if shard_of(f, n) == s {
            return f;
        }
    }
}

fn ts32() -> u32 {
    (unix_now() - EPOCH) as u32
}

fn random_item(r: &mut Rng, run: &mut Run, fids: &[u64], lasts: &mut HashMap<String, u64>) -> usize {
    let n = run.n;
    let fid = *fids.choose(r).unwrap();
    // every message gets a moment of its own, in no particular order
    let k = lasts.entry("used".into()).or_insert(0);
    *k += 1;
    let off = (*k * 7919 + r.gen_range(0..3)) % 100_003;
    let ts = ts32() - 200_000 + off as u32;
    match r.gen_range(0..20) {
        0..=2 => {
            let m = if r.gen_bool(0.5) {
                let mut e = rent_event(fid, r.gen_range(1..3));
                e.block_timestamp = EPOCH + ts as u64;
                e
            } else {
                let mut e = snapchain::utils::factory::events_factory::create_onchain_event(fid);
                e.block_timestamp = EPOCH + ts as u64;
                e.log_index = r.gen_range(0..20);
                e
            };
            // one transaction can have several logs, and a block several transactions
            let twin = r.gen_bool(0.4).then(|| {
                let mut e: OnChainEvent = m.clone();
                if r.gen() {
                    e.log_index += 1 + r.gen_range(0..12);
                } else {
                    e.transaction_hash = r.gen::<[u8; 32]>().to_vec();
                    e.tx_index += 1;
                    e.block_number ^= 1;
                }
                e
            });
            if let Some(e) = twin {
                let id = run.item(MempoolMessage::OnchainEvent(e), false);
                run.twins.push(id);
            }
            let m = if r.gen_bool(0.2) { MempoolMessage::OnchainEventForMigration(m) } else { MempoolMessage::OnchainEvent(m) };
            run.item(m, false)
        }
        3..=4 => {
            let f = transfer(r, fid, EPOCH + ts as u64);
            if r.gen_bool(0.4) {
                let to = *fids.choose(r).unwrap();
                let other = transfer(r, to, EPOCH + ts as u64);
                let id = run.item(MempoolMessage::FnameTransfer(other), false);
                run.twins.push(id);
            }
            run.item(MempoolMessage::FnameTransfer(f), false)
        }
        5..=7 => {
            let s = r.gen_range(0..=n);
            let s = if s == 0 && r.gen_bool(0.7) { 1 } else { s };
            let seq = r.gen_range(1..130);
            // block events in sequence order carry increasing block times, several per block
            let e = block_event(seq, (seq / 4) * 4 + 1000);
            let m = MempoolMessage::BlockEvent { for_shard: s, message: e };
            match run.items.iter().find(|i| i.m == m) {
                Some(i) => i.id,
                None => run.item(m, false),
            }
        }
        8..=10 => {
            let same = r.gen_bool(0.3);
            let prev = run.items.iter().rev().find(|i| i.live && i.fid == fid).map(|i| (i.ts - EPOCH) as u32);
            let t = if same { prev.unwrap_or(ts) } else { ts };
            let m = user(r, MessageType::UserDataAdd, fid, t, true, 0);
            run.item(MempoolMessage::UserMessage(m), false)
        }
        11 => {
            let mut m = user(r, MessageType::CastAdd, fid, ts, false, 0);
            match r.gen_range(0..4) {
                0 => m.data = None,
                1 => m.hash.truncate(r.gen_range(0..20)),
                2 => m.hash.push(1),
                _ => {
                    m.data = None;
                    m.hash = vec![];
                }
            }
            run.item(MempoolMessage::UserMessage(m), true)
        }
        12 => {
            let t = *[MessageType::KeyAdd, MessageType::KeyAdd, MessageType::KeyRemove].choose(r).unwrap();
            let m = user(r, t, fid, ts, false, 0);
            run.item(MempoolMessage::UserMessage(m), false)
        }
        _ => {
            let t = *TYPES.choose(r).unwrap();
            let to = *fids.choose(r).unwrap();
            let m = user(r, t, fid, ts, false, to);
            run.item(MempoolMessage::UserMessage(m), false)
        }
    }
}

async fn random_run(r: &mut Rng, tr: &mut Trace, len: usize) {
    let n = r.gen_range(1..=4);
    let net = *[FarcasterNetwork::Devnet, FarcasterNetwork::Devnet, FarcasterNetwork::Mainnet].choose(r).unwrap();
    let limits = r.gen_bool(0.5);
    let read = r.gen_bool(0.15);
    let mut run = Run::new(tr, n, net, limits, read);
    let fids: Vec<u64> = (0..3).map(|_| r.gen_range(1..1_000_000)).collect();
    for f in &fids {
        if r.gen_bool(0.8) {
            run.rent(*f, r.gen_range(1..4));
        }
    }
    let mut l = HashMap::new();
    for _ in 0..len {
        match r.gen_range(0..20) {
            0..=10 => {
                let id = random_item(r, &mut run, &fids, &mut l);
                for twin in std::mem::take(&mut run.twins) {
                    run.submit(twin, "local").await;
                }
                run.submit(id, ["gossip", "rpc", "local"].choose(r).unwrap()).await;
            }
            11..=12 if !run.items.is_empty() => {
                let id = r.gen_range(1..=run.items.len());
                run.submit(id, ["gossip", "rpc", "local"].choose(r).unwrap()).await;
            }
            13..=14 => {
                let s = r.gen_range(0..=n);
                let m = *[0u32, 1, 2, 3, 5, 100].choose(r).unwrap();
                let ids = run.pull(s, m).await;
                if r.gen_bool(0.5) {
                    for id in &ids {
                        run.stored(s, *id);
                    }
                    run.commit(s, &ids).await;
                }
            }
            15..=16 if !run.items.is_empty() => {
                // a block some other node proposed
                let s = r.gen_range(0..=n);
                let mut ids: Vec<usize> = (1..=run.items.len()).collect();
                ids.shuffle(r);
                ids.truncate(r.gen_range(1..4));
                let keep: Vec<usize> = ids.into_iter().filter(|i| { let i = &run.items[*i - 1]; i.kind != "block" || i.target == s }).collect();
                if r.gen_bool(0.7) {
                    for id in &keep {
                        run.stored(s, *id);
                    }
                }
                run.commit(s, &keep).await;
            }
            17 if !run.items.is_empty() => {
                let id = r.gen_range(1..=run.items.len());
                let s = r.gen_range(0..=n);
                run.stored(s, id);
            }
            18 => {
                let s = r.gen_range(1..=n);
                let have = run.stores[&s].block_event_store.max_seqnum().unwrap();
                run.block_seq(s, have + r.gen_range(1..20));
            }
            _ => {
                run.sizes(true).await;
            }
        }
    }
    for s in 0..=n {
        run.pull(s, 1000).await;
    }
    run.sizes(true).await;
    run.end().await;
}

/// A history of the specification: named templates and steps on them.
async fn behaviour(r: &mut Rng, tr: &mut Trace, b: &[Value]) {
    let n = 2;
    let mut run = Run::new(tr, n, FarcasterNetwork::Devnet, true, false);
    let fid = fid_in(r, 1, n);
    run.rent(fid, 1);
    let now = ts32() - 1000;
    let mut ids: HashMap<String, usize> = HashMap::new();
    for step in b {
        let o = step["o"].as_str().unwrap();
        let t = step["t"].as_str().unwrap_or("").to_string();
        if !t.is_empty() && !ids.contains_key(&t) {
            let m = match t.as_str() {
                "c1" => MempoolMessage::UserMessage(user(r, MessageType::CastAdd, fid, now, false, 0)),
                "c2" => MempoolMessage::UserMessage(user(r, MessageType::CastAdd, fid, now - 50, false, 0)),
                "v" => MempoolMessage::UserMessage(user(r, MessageType::VerificationAddEthAddress, fid, now - 20, false, 0)),
                "l1" => MempoolMessage::UserMessage(user(r, MessageType::UserDataAdd, fid, now - 30, true, 0)),
                "l2" => MempoolMessage::UserMessage(user(r, MessageType::UserDataAdd, fid, now - 10, true, 0)),
                "k" => MempoolMessage::UserMessage(user(r, MessageType::KeyAdd, fid, now - 5, false, 0)),
                "o" => {
                    let mut e = rent_event(fid, 1);
                    e.block_timestamp = EPOCH + now as u64;
                    MempoolMessage::OnchainEvent(e)
                }
                "f" => MempoolMessage::FnameTransfer(transfer(r, fid, EPOCH + now as u64 - 7)),
                "b9" => MempoolMessage::BlockEvent { for_shard: 1, message: block_event(9, 500) },
                "b10" => MempoolMessage::BlockEvent { for_shard: 1, message: block_event(10, 500) },
                x => panic!("template {x}"),
            };
            let id = run.item(m, false);
            ids.insert(t.clone(), id);
        }
        let s = step["s"].as_u64().unwrap_or(1) as u32;
        match o {
            "submit" => {
                run.submit(ids[&t], "rpc").await;
            }
            "pull" => {
                run.pull(s, step["n"].as_u64().unwrap() as u32).await;
            }
            "commit" => run.commit(s, &[ids[&t]]).await,
            "stored" => {
                if t.starts_with('b') {
                    let seq = run.items[ids[&t] - 1].seq;
                    run.block_seq(s, seq);
                } else {
                    run.stored(s, ids[&t])
                }
            }
            x => panic!("step {x}"),
        }
    }
    for s in 0..=n {
        run.pull(s, 100).await;
    }
    run.end().await;
}

/// One account using up its hourly allowance through the mempool.
async fn spend(r: &mut Rng, tr: &mut Trace, units: u32) {
    let n = 2;
    let mut run = Run::new(tr, n, FarcasterNetwork::Devnet, true, false);
    let fid = fid_in(r, 1, n);
    let other = fid_in(r, 1, n);
    run.rent(fid, units);
    run.rent(other, 1);
    let most = 100.max(533 * units / 10);
    let now = ts32() - 5000;
    let mut first = 0;
    for k in 0..most + 3 {
        let m = user(r, MessageType::CastAdd, fid, now + k, false, 0);
        let id = run.item(MempoolMessage::UserMessage(m), false);
        if k == 0 {
            first = id;
        }
        run.submit(id, "rpc").await;
        if k % 40 == 7 {
            // asking again for the same message costs nothing
            run.submit(first, "rpc").await;
        }
        if k == most / 2 {
            run.pull(1, 10).await;
        }
    }
    for f in [other, fid] {
        let m = user(r, MessageType::CastAdd, f, now, false, 0);
        let id = run.item(MempoolMessage::UserMessage(m), false);
        run.submit(id, "gossip").await;
        let m = user(r, MessageType::UserDataAdd, f, now, true, 0);
        let id = run.item(MempoolMessage::UserMessage(m), false);
        run.submit(id, "gossip").await;
    }
    // more storage: a new allowance
    let mut e = rent_event(fid, 1);
    e.block_timestamp = unix_now() - 999;
    let id = run.item(MempoolMessage::OnchainEvent(e), false);
    run.submit(id, "local").await;
    if r.gen_bool(0.5) {
        run.rent(fid, 1);
        let ids = run.pull(1, 1).await;
        run.commit(1, &ids).await;
        for k in 0..3 {
            let m = user(r, MessageType::CastAdd, fid, now - 1 - k, false, 0);
            let id = run.item(MempoolMessage::UserMessage(m), false);
            run.submit(id, "rpc").await;
        }
    } else {
        // borrowed storage counts as well
        let m = user(r, MessageType::LendStorage, other, now, false, fid);
        let id = run.item(MempoolMessage::UserMessage(m), false);
        run.submit(id, "rpc").await;
        run.commit(0, &[id]).await;
        for f in [fid, other] {
            let m = user(r, MessageType::CastAdd, f, now - 1, false, 0);
            let id = run.item(MempoolMessage::UserMessage(m), false);
            run.submit(id, "rpc").await;
        }
    }
    run.pull(1, 10000).await;
    run.end().await;
}

fn bursts(r: &mut Rng, tr: &mut Trace) {
    let n = 2;
    let mut dirs = vec![];
    let mut stores = HashMap::new();
    for s in 1..=n {
        stores.insert(s, Stores::new(new_db(&mut dirs), s, MerkleTrie::new().unwrap(), StoreLimits::default(), FarcasterNetwork::Devnet, statsd_client()));
    }
    let fids: Vec<(u64, u32)> = (0..6u32).map(|k| (r.gen_range(1..1_000_000), [0, 1, 2, 3, 5, 9][k as usize])).collect();
    for (f, u) in &fids {
        if *u > 0 {
            let st = &stores[&shard_of(*f, n)];
            let mut txn = RocksDbTransactionBatch::new();
            st.onchain_event_store.merge_onchain_event(rent_event(*f, *u), &mut txn).unwrap();
            st.db.commit(txn).unwrap();
        }
    }
    let mut general = RateLimits::new(stores.clone(), RateLimitsConfig::default(), statsd_client(), n);
    let live = LiveAtRateLimits::new(stores.clone(), statsd_client(), n);
    let keys = KeyAddRateLimits::new(statsd_client());
    for (f, u) in &fids {
        for which in ["gen", "live", "keys"] {
            let most = match which {
                "gen" => 100.max(533 * u / 10),
                "live" => 5000 * u,
                _ => 1,
            };
            for tries in [most.saturating_sub(most / 2), most + 20] {
                // the allowance is spent across both rounds: only the first starts full
                if tries != most + 20 {
                    continue;
                }
                let t = Instant::now();
                let granted = (0..tries)
                    .filter(|_| match which {
                        "gen" => general.consume_for_fid(*f),
                        "live" => live.consume_for_fid(*f),
                        _ => keys.consume_for_fid(*f),
                    })
                    .count();
                tr.rec(json!({"op":"burst","which":which,"units":u,"tries":tries,"granted":granted,"ms":t.elapsed().as_millis() as u64 + 1}));
            }
        }
    }
}

fn routes(r: &mut Rng, tr: &mut Trace, fids: usize) {
    let router: Box<dyn MessageRouter> = Box::new(ShardRouter {});
    let mut fs: Vec<u64> = vec![0, 1, 2, 3, 255, 256, 65535, 65536, u32::MAX as u64, 16777216, 2147483648];
    fs.extend((0..fids).map(|_| r.gen_range(1..2_000_000)));
    for f in fs {
        for t in TYPES {
            let v = r.gen_range(0..=21u8);
            let vs = if matches!(t, MessageType::VerificationAddEthAddress | MessageType::VerificationRemove) { vec![0, 20, 21, v] } else { vec![v] };
            for v in vs {
                let n = r.gen_range(1..=16u32);
                let m = user(r, *t, f, 5, false, 0);
                let ver = version(v);
                let got = route_message(&router, &m, n, ver);
                let (hi, lo) = halves(f);
                tr.rec(json!({"op":"route","type":tyname(*t),"hi":hi,"lo":lo,"n":n,"v":v,"got":got}));
            }
        }
    }
}

fn version(v: u8) -> EngineVersion {
    use EngineVersion::*;
    [V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21][v as usize]
}

pub fn run(ctx: &Ctx) {
    let rt = || tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    let mut r = ctx.rng(9);
    {
        let mut tr = ctx.trace("routes");
        tr.rec(json!({"op":"begin","n":1,"net":"devnet","now":unix_now(),"limits":false,"read":false}));
        routes(&mut r, &mut tr, ctx.scale(60, 400));
        bursts(&mut r, &mut tr);
    }
    let mut bs = ctx.behaviours();
    bs.shuffle(&mut r);
    bs.truncate(ctx.scale(400, 6000));
    for (k, part) in bs.chunks(200.max(bs.len() / 6)).enumerate() {
        let mut tr = ctx.trace(&format!("gen{k}"));
        for b in part {
            rt().block_on(behaviour(&mut r, &mut tr, b.as_array().unwrap()));
        }
    }
    for k in 0..ctx.scale(4, 16) {
        let mut tr = ctx.trace(&format!("rand{k}"));
        for _ in 0..ctx.scale(25, 120) {
            let len = r.gen_range(15..60);
            rt().block_on(random_run(&mut r, &mut tr, len));
        }
        rt().block_on(spend(&mut r, &mut tr, 1 + k as u32 % 4));
    }
    let _ = Duration::from_secs(0);
}
