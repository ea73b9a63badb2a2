//! Validator sets, certificates, followers and proposals against Consensus.tla.
use crate::common::*;
use informalsystems_malachitebft_core_types::{Context as _, NilOrVal, Round, Validity, ValidatorSet as _};
use libp2p::identity::ed25519::{Keypair, SecretKey};
use prost::Message as _;
use rand::seq::SliceRandom;
use rand::{Rng as _, RngCore as _};
use serde_json::{json, Value};
use snapchain::consensus::consensus::{Config, SystemMessage, ValidatorSetConfig};
use snapchain::consensus::proposer::{BlockProposer, ProposedValues, ShardProposer};
use snapchain::consensus::read_validator::{Engine, ReadValidator};
use snapchain::consensus::validator::{ProposalSource, ShardValidator};
use snapchain::core::types::{Address, CommitsExt, Proposal, ShardId, SnapchainShard, SnapchainValidatorContext, Vote};
use snapchain::core::util::verify_signatures;
use snapchain::mempool::mempool::MempoolMessagesRequest;
use snapchain::proto::{self, *};
use snapchain::storage::db::RocksDB;
use snapchain::storage::store::account::StoreOptions;
use snapchain::storage::store::block_engine::BlockEngine;
use snapchain::storage::store::engine::ShardEngine;
use snapchain::storage::store::mempool_poller::MempoolMessage;
use snapchain::storage::store::node_local_state::LocalStateStore;
use snapchain::storage::store::test_helper::{self, EngineOptions};
use snapchain::storage::trie::merkle_trie::MerkleTrie;
use snapchain::utils::factory::{events_factory, messages_factory};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sync::{broadcast, mpsc};

type Vset = (u64, Vec<usize>, Vec<u32>);

/// Validators by number, 1.. in the order of their addresses; the last two are in no set.
struct Keys(Vec<Keypair>);
impl Keys {
    fn new(r: &mut Rng, n: usize) -> Keys {
        let mut v: Vec<Keypair> = (0..n)
            .map(|_| {
                let mut b = [0u8; 32];
                r.fill_bytes(&mut b);
                Keypair::from(SecretKey::try_from_bytes(b).unwrap())
            })
            .collect();
        v.sort_by_key(|k| k.public().to_bytes());
        Keys(v)
    }
    fn addr(&self, k: usize) -> Address {
        Address(self.0[k - 1].public().to_bytes())
    }
    fn id(&self, a: &[u8]) -> usize {
        self.0.iter().position(|k| k.public().to_bytes() == a).map(|x| x + 1).unwrap_or(0)
    }
    fn hex(&self, k: usize) -> String {
        hex::encode(self.0[k - 1].public().to_bytes())
    }
}

const IN_SETS: usize = 7;
const ALL: usize = 9;

fn gen_sets(r: &mut Rng) -> Vec<Vset> {
    let n = r.gen_range(1..=5);
    let mut at = 0;
    let mut out: Vec<Vset> = vec![];
    for _ in 0..n {
        let mut keys: Vec<usize> = (0..r.gen_range(1..=6)).map(|_| r.gen_range(1..=IN_SETS)).collect();
        if r.gen_bool(0.7) {
            keys.sort();
            keys.dedup();
            keys.shuffle(r);
        }
        let shards: Vec<u32> = match r.gen_range(0..6) {
            0 | 1 => vec![0, 1, 2],
            2 => vec![1],
            3 => vec![0],
            4 => vec![2, 1],
            _ => vec![0, 2],
        };
        // two entries that begin together name different shards
        let clash = |o: &Vec<Vset>, at: u64| o.iter().any(|x| x.0 == at && x.2.iter().any(|y| shards.contains(y)));
        if clash(&out, at) {
            at += r.gen_range(1..4);
        }
        out.push((at, keys, shards));
        if r.gen_bool(0.5) {
            at += r.gen_range(0..4);
        }
    }
    out
}
fn sets_json(s: &[Vset]) -> Value {
    json!(s.iter().map(|x| json!({"at": x.0, "keys": x.1, "shards": x.2})).collect::<Vec<_>>())
}
fn config(k: &Keys, s: &[Vset]) -> Config {
    let sets = s
        .iter()
        .map(|x| ValidatorSetConfig {
            effective_at: x.0,
            validator_public_keys: x.1.iter().map(|y| k.hex(*y)).collect(),
            shard_ids: x.2.clone(),
        })
        .collect();
    Config::default().with(vec![0, 1, 2], sets)
}
/// The same thing said the deprecated way: one list of addresses.
fn old_config(k: &Keys, keys: &[usize]) -> Config {
    let mut v = serde_json::to_value(Config::default()).unwrap();
    v["validator_addresses"] = json!(keys.iter().map(|y| k.hex(*y)).collect::<Vec<_>>());
    serde_json::from_value(v).unwrap()
}
/// Who is in force, to build good certificates from; the specification decides for itself.
fn members(s: &[Vset], shard: u32, h: u64) -> Vec<usize> {
    let mut best: Option<&Vset> = None;
    for x in s {
        if x.2.contains(&shard) && x.0 <= h && best.is_none_or(|b| x.0 > b.0) {
            best = Some(x);
        }
    }
    let mut m = best.unwrap_or(&s[0]).1.clone();
    m.sort();
    m.dedup();
    m
}

fn hash_of(b: &[u8]) -> Vec<u8> {
    blake3::hash(b).as_bytes().to_vec()
}
fn height(shard: u32, n: u64) -> Height {
    Height::new(shard, n)
}

fn precommit(k: &Keys, who: usize, h: Height, round: i64, value: &ShardHash) -> CommitSignature {
    let v = Vote::new_precommit(h, Round::from(round), NilOrVal::Val(value.clone()), k.addr(who));
    CommitSignature { signature: k.0[who - 1].sign(&v.to_sign_bytes()), signer: k.addr(who).to_vec() }
}
/// A signature by `who` that is not its precommit for this certificate.
fn spoilt(r: &mut Rng, k: &Keys, who: usize, h: Height, round: i64, value: &ShardHash) -> CommitSignature {
    let sign = |v: Vote| k.0[who - 1].sign(&v.to_sign_bytes());
    let val = NilOrVal::Val(value.clone());
    let a = k.addr(who);
    let rd = Round::from(round);
    let signature = match r.gen_range(0..9) {
        0 => sign(Vote::new_prevote(h, rd, val, a)),
        1 => sign(Vote::new_precommit(h, rd, NilOrVal::Nil, a)),
        2 => sign(Vote::new_precommit(h.increment(), rd, val, a)),
        3 => sign(Vote::new_precommit(height(h.shard_index + 1, h.block_number), rd, val, a)),
        4 => sign(Vote::new_precommit(h, Round::from(round + 1), val, a)),
        5 => {
            let mut o = value.clone();
            o.hash[0] ^= 1;
            sign(Vote::new_precommit(h, rd, NilOrVal::Val(o), a))
        }
        6 => {
            let other = who % ALL + 1;
            k.0[other - 1].sign(&Vote::new_precommit(h, rd, val, k.addr(who)).to_sign_bytes())
        }
        7 => {
            let mut s = precommit(k, who, h, round, value).signature;
            let at = r.gen_range(0..s.len());
            s[at] ^= 1 << r.gen_range(0..8);
            s
        }
        _ => vec![],
    };
    CommitSignature { signature, signer: a_vec(k, who) }
}
fn a_vec(k: &Keys, who: usize) -> Vec<u8> {
    k.addr(who).to_vec()
}

/// Signatures and what is true of them.
fn gen_sigs(r: &mut Rng, k: &Keys, m: &[usize], h: Height, round: i64, value: &ShardHash, flaw: u32) -> Vec<(usize, bool, CommitSignature)> {
    let need = 2 * m.len() / 3 + 1;
    let mut who: Vec<usize> = m.to_vec();
    who.shuffle(r);
    who.truncate(match flaw {
        1 => need - 1,
        2 => r.gen_range(0..need),
        _ => r.gen_range(need..=m.len()),
    });
    who.sort();
    let mut bad: Option<usize> = None;
    match flaw {
        3 => {
            // one signer twice, in place of another or on top
            if let Some(x) = who.choose(r).cloned() {
                if r.gen_bool(0.5) && who.len() > 1 {
                    let p = who.iter().position(|y| *y != x).unwrap();
                    who.remove(p);
                }
                let at = who.iter().position(|y| *y == x).unwrap();
                who.insert(at, x);
            }
        }
        4 => {
            // somebody else's signature: of another set, or of nobody's
            let other: Vec<usize> = (1..=ALL).filter(|x| !m.contains(x)).collect();
            let x = *other.choose(r).unwrap();
            if r.gen_bool(0.5) && !who.is_empty() {
                let p = r.gen_range(0..who.len());
                who.remove(p);
            }
            who.push(x);
            who.sort();
        }
        5 => who.shuffle(r),
        6 if !who.is_empty() => bad = Some(r.gen_range(0..who.len())),
        7 if !who.is_empty() => bad = Some(0),
        8 if !who.is_empty() => bad = Some(who.len() - 1),
        9 => {
            // one signer over and over
            let x = *m.choose(r).unwrap();
            who = vec![x; m.len()];
        }
        _ => {}
    }
    who.iter()
        .enumerate()
        .map(|(i, x)| {
            if bad == Some(i) {
                (*x, false, spoilt(r, k, *x, h, round, value))
            } else {
                (*x, true, precommit(k, *x, h, round, value))
            }
        })
        .collect()
}
fn cert_json(c: &Commits, sigs: &[(usize, bool, CommitSignature)]) -> Value {
    json!({"h": c.height.unwrap().block_number, "r": c.round, "value": hex::encode(&c.value.as_ref().unwrap().hash),
           "sigs": sigs.iter().map(|x| json!({"who": x.0, "good": x.1})).collect::<Vec<_>>()})
}
fn make_cert(r: &mut Rng, k: &Keys, sets: &[Vset], h: Height, round: i64, value: &ShardHash, flaw: u32) -> (Commits, Value) {
    let m = members(sets, h.shard_index, h.block_number);
    let sigs = gen_sigs(r, k, &m, h, round, value, flaw);
    let c = Commits { height: Some(h), round, value: Some(value.clone()), signatures: sigs.iter().map(|x| x.2.clone()).collect() };
    let j = cert_json(&c, &sigs);
    (c, j)
}

// ---------------------------------------------------------------------------
fn sets_part(ctx: &Ctx, t: &mut Trace) {
    let mut r = ctx.rng(20);
    let k = Keys::new(&mut r, ALL);
    for n in 0..ctx.scale(60, 800) {
        let mut sets = gen_sets(&mut r);
        let old = n % 6 == 5;
        let shard0 = r.gen_range(0..3);
        let cfg = if old {
            sets = vec![(0, sets[0].1.clone(), vec![shard0])];
            old_config(&k, &sets[0].1)
        } else {
            config(&k, &sets)
        };
        t.rec(json!({"op": "reset", "sets": sets_json(&sets), "shard": shard0, "n": n}));
        if !old {
            let got: Vec<usize> = cfg.latest_validator_public_keys().iter().map(|x| k.id(&hex::decode(x).unwrap())).collect();
            t.rec(json!({"op": "latest", "got": got}));
        }
        let mut shards = vec![0u32, 1, 2];
        if old {
            shards = vec![shard0];
        }
        for shard in shards {
            let stored = cfg.to_stored_validator_sets(shard);
            let top = sets.last().unwrap().0 + 2;
            for h in 0..=top {
                let set = stored.get_validator_set(h);
                let got: Vec<usize> = set.validators.iter().map(|v| k.id(&v.address.0)).collect();
                t.rec(json!({"op": "set", "shard": shard, "h": h, "got": got, "count": set.count()}));
                if h == 0 {
                    continue;
                }
                let ctxt = SnapchainValidatorContext::new(k.0[0].clone());
                for rd in 0..3i64 {
                    let p = ctxt.select_proposer(&set, height(shard, h), Round::from(rd));
                    t.rec(json!({"op": "proposer", "shard": shard, "h": h, "r": rd, "got": k.id(&p.address.0)}));
                }
                let mut same = set.validators.iter().all(|v| {
                    v.shard_index == shard && set.exists(&v.address) && set.get_by_address(&v.address) == Some(v) && Address::from_vec(v.address.to_vec()) == v.address
                });
                same &= (1..=ALL).all(|x| set.exists(&k.addr(x)) == got.contains(&x)) && set.shard_id() == shard;
                same &= (0..set.count()).all(|i| set.get_by_index(i) == set.validators.get(i)) && set.total_voting_power() == set.count() as u64;
                t.rec(json!({"op": "codec", "what": "set", "same": same}));
                for _ in 0..ctx.scale(4, 8) {
                    let flaw = [0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9][r.gen_range(0..12)];
                    let value = ShardHash { hash: hash_of(&r.next_u32().to_be_bytes()), shard_index: shard };
                    let round = r.gen_range(0..3);
                    let (c, j) = make_cert(&mut r, &k, &sets, height(shard, h), round, &value, flaw);
                    let got = match guarded(|| verify_signatures(&c, &stored)) {
                        Ok(true) => "yes",
                        Ok(false) => "no",
                        Err(_) => "died",
                    };
                    t.rec(json!({"op": "cert", "shard": shard, "c": j, "flaw": flaw, "got": got}));
                    let back = Commits::from_commit_certificate(&c.to_commit_certificate());
                    t.rec(json!({"op": "codec", "what": "commits", "same": back == c}));
                }
            }
        }
        codec_part(&mut r, &k, t);
    }
}

fn codec_part(r: &mut Rng, k: &Keys, t: &mut Trace) {
    let h = height(r.gen_range(0..3), r.gen_range(0..1 << 40));
    let value = ShardHash { hash: hash_of(&r.next_u32().to_be_bytes()), shard_index: h.shard_index };
    let rd = Round::from(r.gen_range(-1i64..5));
    let who = r.gen_range(1..=ALL);
    let val = if r.gen_bool(0.3) { NilOrVal::Nil } else { NilOrVal::Val(value.clone()) };
    let vote = if r.gen_bool(0.5) { Vote::new_prevote(h, rd, val, k.addr(who)) } else { Vote::new_precommit(h, rd, val, k.addr(who)) };
    t.rec(json!({"op": "codec", "what": "vote", "same": Vote::from_proto(vote.to_proto()) == vote && vote.to_sign_bytes() == vote.to_proto().encode_to_vec()}));
    let p = Proposal { height: h, round: rd, shard_hash: value.clone(), pol_round: Round::from(r.gen_range(-1i64..3)), proposer: k.addr(who) };
    t.rec(json!({"op": "codec", "what": "proposal", "same": Proposal::from_proto(p.to_proto()) == p}));
    // what is signed tells every field apart
    let mut all = vec![vote.to_sign_bytes()];
    let v2 = |f: &dyn Fn(&mut Vote)| {
        let mut v = vote.clone();
        f(&mut v);
        v.to_sign_bytes()
    };
    all.push(v2(&|v| v.height = v.height.increment()));
    all.push(v2(&|v| v.height.shard_index += 1));
    all.push(v2(&|v| v.round = Round::from(v.round.as_i64() + 1)));
    all.push(v2(&|v| v.voter = k.addr(who % ALL + 1)));
    all.push(v2(&|v| {
        v.vote_type = match v.vote_type {
            informalsystems_malachitebft_core_types::VoteType::Prevote => informalsystems_malachitebft_core_types::VoteType::Precommit,
            _ => informalsystems_malachitebft_core_types::VoteType::Prevote,
        }
    }));
    all.push(v2(&|v| {
        v.shard_hash = match &v.shard_hash {
            NilOrVal::Nil => NilOrVal::Val(value.clone()),
            NilOrVal::Val(_) => NilOrVal::Nil,
        }
    }));
    let n = all.len();
    all.sort();
    all.dedup();
    t.rec(json!({"op": "codec", "what": "signed-fields", "same": all.len() == n}));
}

fn values_part(ctx: &Ctx, t: &mut Trace) {
    let mut r = ctx.rng(21);
    for _ in 0..ctx.scale(60, 500) {
        t.rec(json!({"op": "reset", "sets": [], "shard": 1}));
        t.rec(json!({"op": "pv"}));
        let mut pv = ProposedValues::new();
        let mut tag = 0;
        for _ in 0..r.gen_range(5..25) {
            match r.gen_range(0..10) {
                0..=4 => {
                    tag += 1;
                    let (h, x) = (r.gen_range(1..5u64), r.gen_range(1..5));
                    let shard = r.gen_bool(0.5);
                    let header = ShardHeader { height: Some(height(1, h)), ..Default::default() };
                    let hash = vec![h as u8, x as u8];
                    let value = if shard {
                        full_proposal::ProposedValue::Shard(ShardChunk { header: Some(header), hash, ..Default::default() })
                    } else {
                        full_proposal::ProposedValue::Block(Block {
                            header: Some(BlockHeader { height: Some(height(1, h)), ..Default::default() }),
                            hash,
                            ..Default::default()
                        })
                    };
                    pv.add_proposed_value(FullProposal { height: Some(height(1, h)), round: tag, proposed_value: Some(value), proposer: vec![] });
                    t.rec(json!({"op": "pv-add", "x": [h, x], "tag": tag, "h": h}));
                }
                5 => {
                    let h = r.gen_range(0..5u64);
                    pv.decide(height(1, h));
                    t.rec(json!({"op": "pv-decide", "h": h}));
                }
                _ => {}
            }
            t.rec(json!({"op": "pv-count", "got": pv.count()}));
            for h in 1..5u64 {
                let x = r.gen_range(1..5u64);
                let got = pv.get_by_shard_hash(&ShardHash { hash: vec![h as u8, x as u8], shard_index: 1 }).map(|p| p.round).unwrap_or(0);
                t.rec(json!({"op": "pv-get", "x": [h, x], "got": got}));
            }
        }
    }
}

// ---------------------------------------------------------------------------
type Queue = Arc<Mutex<Vec<MempoolMessage>>>;
fn mempool(q: &Queue) -> mpsc::Sender<MempoolMessagesRequest> {
    let (tx, mut rx) = mpsc::channel::<MempoolMessagesRequest>(10);
    let q = q.clone();
    tokio::spawn(async move {
        while let Some(req) = rx.recv().await {
            let m = std::mem::take(&mut *q.lock().unwrap());
            let _ = req.message_tx.send(m);
        }
    });
    tx
}
fn open(dir: &tempfile::TempDir, name: &str) -> Arc<RocksDB> {
    let db = RocksDB::new(dir.path().join(name).to_str().unwrap());
    db.open().unwrap();
    Arc::new(db)
}
async fn shard_engine(db: Arc<RocksDB>, q: &Queue) -> ShardEngine {
    test_helper::new_engine_with_options(EngineOptions { db: Some(db), messages_request_tx: Some(mempool(q)), ..Default::default() }).await.0
}
fn block_engine(db: Arc<RocksDB>, q: &Queue) -> BlockEngine {
    BlockEngine::new_with_opts(MerkleTrie::new().unwrap(), test_helper::statsd_client(), db, 100, Some(mempool(q)), FarcasterNetwork::Devnet, StoreOptions::default())
}

/// One validator's databases and what runs on them.
struct Node {
    shard: u32,
    dir: tempfile::TempDir,
    db: Arc<RocksDB>,
    local: Arc<RocksDB>,
    q: Queue,
    v: ShardValidator,
    me: Address,
}
async fn validator(shard: u32, db: &Arc<RocksDB>, local: &Arc<RocksDB>, q: &Queue, me: &Address, sets: &[ValidatorSetConfig], chunks: Option<&Arc<RocksDB>>) -> ShardValidator {
    let id = SnapchainShard::new(shard);
    let sd = test_helper::statsd_client();
    let (bp, sp) = if shard == 0 {
        let mut stores = HashMap::new();
        let other = shard_engine(chunks.unwrap().clone(), q).await;
        stores.insert(1, other.get_stores());
        (Some(BlockProposer::new(me.clone(), id, stores, 1, FarcasterNetwork::Devnet, None, block_engine(db.clone(), q), sd.clone())), None)
    } else {
        let (tx, _) = broadcast::channel(100);
        (None, Some(ShardProposer::new(me.clone(), id, shard_engine(db.clone(), q).await, sd.clone(), tx)))
    };
    ShardValidator::new(me.clone(), id, sets.to_vec(), bp, sp, LocalStateStore::new(local.clone()), sd)
}
impl Node {
    async fn new(shard: u32, me: Address, sets: &[ValidatorSetConfig], chunks: Option<&Arc<RocksDB>>) -> Node {
        let dir = tempfile::TempDir::new().unwrap();
        let (db, local) = (open(&dir, "db"), open(&dir, "local"));
        let q: Queue = Default::default();
        let v = validator(shard, &db, &local, &q, &me, sets, chunks).await;
        Node { shard, dir, db, local, q, v, me }
    }
    async fn restart(&mut self, sets: &[ValidatorSetConfig], chunks: Option<&Arc<RocksDB>>) {
        self.v = validator(self.shard, &self.db, &self.local, &self.q, &self.me, sets, chunks).await;
    }
}

struct Users {
    n: u64,
    next: u32,
}
impl Users {
    /// Something for a block of this shard.
    fn messages(&mut self, r: &mut Rng, shard: u32) -> Vec<MempoolMessage> {
        let mut out = vec![];
        let signer = test_helper::default_signer();
        let on = |e: OnChainEvent| MempoolMessage::OnchainEvent(e);
        let ts = snapchain::core::util::FarcasterTime::current().to_u64() as u32;
        if self.n < 3 && r.gen_bool(0.7) || self.n == 0 {
            self.n += 1;
            let fid = 1000 + self.n;
            for mut e in [
                test_helper::default_storage_event(fid),
                events_factory::create_id_register_event(fid, IdRegisterEventType::Register, vec![7; 20], None),
                events_factory::create_signer_event(fid, signer.clone(), SignerEventType::Add, None, None),
            ] {
                self.next += 1;
                e.block_number = self.next;
                e.block_timestamp = 1_700_000_000 + self.next as u64;
                out.push(on(e));
            }
        } else if shard != 0 {
            for _ in 0..r.gen_range(0..3) {
                self.next += 1;
                let fid = 1001 + r.gen_range(0..self.n);
                let m = messages_factory::casts::create_cast_add(fid, &format!("cast {}", self.next), Some(ts - r.gen_range(0..50)), Some(&signer));
                out.push(MempoolMessage::UserMessage(m));
            }
        } else if r.gen_bool(0.6) {
            self.next += 1;
            let mut e = test_helper::default_storage_event(1001 + r.gen_range(0..self.n));
            e.block_number = self.next;
            e.block_timestamp = 1_700_000_000 + self.next as u64;
            out.push(on(e));
        }
        out
    }
}

fn header_hash(p: &FullProposal) -> Vec<u8> {
    match p.proposed_value.as_ref().unwrap() {
        full_proposal::ProposedValue::Block(b) => hash_of(&b.header.as_ref().unwrap().encode_to_vec()),
        full_proposal::ProposedValue::Shard(c) => hash_of(&c.header.as_ref().unwrap().encode_to_vec()),
    }
}
fn parent(p: &FullProposal) -> Vec<u8> {
    match p.proposed_value.as_ref().unwrap() {
        full_proposal::ProposedValue::Block(b) => b.header.as_ref().unwrap().parent_hash.clone(),
        full_proposal::ProposedValue::Shard(c) => c.header.as_ref().unwrap().parent_hash.clone(),
    }
}
fn number(p: &FullProposal) -> Height {
    match p.proposed_value.as_ref().unwrap() {
        full_proposal::ProposedValue::Block(b) => b.header.as_ref().unwrap().height.unwrap(),
        full_proposal::ProposedValue::Shard(c) => c.header.as_ref().unwrap().height.unwrap(),
    }
}
fn rehash(p: &mut FullProposal) {
    let h = header_hash(p);
    match p.proposed_value.as_mut().unwrap() {
        full_proposal::ProposedValue::Block(b) => b.hash = h,
        full_proposal::ProposedValue::Shard(c) => c.hash = h,
    }
}

const GOOD: [&str; 7] = ["chain", "version", "parent", "hash", "wit", "body", "events"];

/// A proposal with one thing wrong (two when the header is not hashed again), and what that is.
fn corrupt(r: &mut Rng, p: &FullProposal) -> Option<(FullProposal, Value, &'static str)> {
    let mut q = p.clone();
    let h = number(p).block_number;
    let mut j = json!({"kind": if number(p).shard_index == 0 { "block" } else { "chunk" }, "h": h});
    for g in GOOD {
        j[g] = json!(true);
    }
    let what;
    let flip = |r: &mut Rng, v: &mut Vec<u8>| {
        if v.is_empty() {
            v.push(1);
            return;
        }
        let at = r.gen_range(0..v.len());
        v[at] ^= 1 << r.gen_range(0..8);
    };
    let mut header = true;
    let txns = |r: &mut Rng, t: &mut Vec<Transaction>| -> Option<&'static str> {
        if t.is_empty() {
            return None;
        }
        let at = r.gen_range(0..t.len());
        Some(match r.gen_range(0..4) {
            0 => {
                t.remove(at);
                "transaction dropped"
            }
            1 => {
                let v = &mut t[at].account_root;
                if v.is_empty() {
                    v.push(1)
                } else {
                    v[0] ^= 1
                }
                "account root"
            }
            2 if !t[at].user_messages.is_empty() => {
                t[at].user_messages.remove(0);
                "user message dropped"
            }
            _ => {
                if t[at].system_messages.is_empty() {
                    return None;
                }
                t[at].system_messages.remove(0);
                "system message dropped"
            }
        })
    };
    match q.proposed_value.as_mut().unwrap() {
        full_proposal::ProposedValue::Shard(c) => {
            let hd = c.header.as_mut().unwrap();
            match r.gen_range(0..8) {
                0 => {
                    flip(r, &mut hd.shard_root);
                    j["body"] = json!(false);
                    what = "state root";
                }
                1 | 2 => {
                    what = txns(r, &mut c.transactions)?;
                    j["body"] = json!(false);
                    header = false;
                }
                3 => {
                    let n = [h - 1, h + 1, h + 7][r.gen_range(0..3)];
                    hd.height = Some(height(1, n));
                    j["h"] = json!(n);
                    q.height = hd.height;
                    what = "height";
                }
                4 => {
                    flip(r, &mut hd.parent_hash);
                    j["parent"] = json!(false);
                    what = "parent";
                }
                5 => {
                    flip(r, &mut c.hash);
                    j["hash"] = json!(false);
                    header = false;
                    what = "hash";
                }
                6 => {
                    if hd.shard_root.is_empty() {
                        return None;
                    }
                    hd.shard_root = vec![];
                    j["body"] = json!(false);
                    what = "no state root";
                }
                _ => {
                    // of the other kind
                    q.proposed_value = Some(full_proposal::ProposedValue::Block(Block {
                        header: Some(BlockHeader { height: Some(height(1, h)), ..Default::default() }),
                        hash: c.hash.clone(),
                        ..Default::default()
                    }));
                    j["kind"] = json!("block");
                    header = false;
                    what = "kind";
                }
            }
        }
        full_proposal::ProposedValue::Block(b) => {
            let hd = b.header.as_mut().unwrap();
            match r.gen_range(0..15) {
                0 => {
                    flip(r, &mut hd.state_root);
                    j["body"] = json!(false);
                    what = "state root";
                }
                1 | 2 => {
                    what = txns(r, &mut b.transactions)?;
                    j["body"] = json!(false);
                    header = false;
                }
                3 => {
                    let n = [h - 1, h + 1, h + 7][r.gen_range(0..3)];
                    hd.height = Some(height(0, n));
                    j["h"] = json!(n);
                    q.height = hd.height;
                    what = "height";
                }
                4 => {
                    flip(r, &mut hd.parent_hash);
                    j["parent"] = json!(false);
                    what = "parent";
                }
                5 => {
                    flip(r, &mut b.hash);
                    j["hash"] = json!(false);
                    header = false;
                    what = "hash";
                }
                6 => {
                    hd.chain_id = [0, 1, 2, 7][r.gen_range(0..4)];
                    if hd.chain_id == FarcasterNetwork::Devnet as i32 {
                        return None;
                    }
                    j["chain"] = json!(false);
                    what = "chain id";
                }
                7 => {
                    hd.version = if r.gen_bool(0.5) { hd.version + 1 } else { hd.version - 1 };
                    j["version"] = json!(false);
                    what = "version";
                }
                8 => {
                    if r.gen_bool(0.5) {
                        hd.shard_witnesses_hash = vec![];
                    } else {
                        flip(r, &mut hd.shard_witnesses_hash);
                    }
                    j["wit"] = json!(false);
                    what = "witness hash";
                }
                9 => {
                    b.shard_witness = None;
                    j["wit"] = json!(false);
                    header = false;
                    what = "no witness";
                }
                10 => {
                    let w = &mut b.shard_witness.as_mut().unwrap().shard_chunk_witnesses;
                    if r.gen_bool(0.5) {
                        w.clear();
                    } else {
                        let x = w[0].clone();
                        w.push(x);
                    }
                    if r.gen_bool(0.7) {
                        hd.shard_witnesses_hash = hash_of(&b.shard_witness.as_ref().unwrap().encode_to_vec());
                    }
                    j["wit"] = json!(false);
                    what = "witness count";
                }
                11 => {
                    flip(r, &mut b.shard_witness.as_mut().unwrap().shard_chunk_witnesses[0].shard_root);
                    j["wit"] = json!(false);
                    header = false;
                    what = "witness changed";
                }
                12 => {
                    if hd.events_hash.is_empty() {
                        return None;
                    }
                    flip(r, &mut hd.events_hash);
                    j["body"] = json!(false);
                    what = "events hash";
                }
                13 => {
                    if b.events.is_empty() {
                        return None;
                    }
                    b.events.pop();
                    j["events"] = json!(false);
                    header = false;
                    what = "event dropped";
                }
                _ => {
                    j["kind"] = json!("chunk");
                    q.proposed_value = Some(full_proposal::ProposedValue::Shard(ShardChunk {
                        header: Some(ShardHeader { height: Some(height(0, h)), ..Default::default() }),
                        hash: b.hash.clone(),
                        ..Default::default()
                    }));
                    header = false;
                    what = "kind";
                }
            }
        }
    }
    if header {
        if r.gen_bool(0.6) {
            rehash(&mut q);
        } else {
            j["hash"] = json!(false);
        }
    }
    Some((q, j, what))
}

fn judge(v: &mut ShardValidator, p: &FullProposal) -> &'static str {
    match guarded(|| v.add_proposed_value(p, ProposalSource::Consensus).validity) {
        Ok(Validity::Valid) => "valid",
        Ok(Validity::Invalid) => "invalid",
        Err(_) => "died",
    }
}

/// A chain as validators make it: proposals, spoilt ones in between, restarts, decisions.
async fn chain(r: &mut Rng, t: &mut Trace, k: &Keys, sets: &[Vset], shard: u32, len: u64, spoil: usize, chunks: Option<&Arc<RocksDB>>) -> (Node, Vec<DecidedValue>) {
    let cfg = config(k, sets).get_validator_set_config(shard);
    let mut p = Node::new(shard, k.addr(1), &cfg, chunks).await;
    let mut w = Node::new(shard, k.addr(2), &cfg, chunks).await;
    let kind = if shard == 0 { "block" } else { "chunk" };
    t.rec(json!({"op": "validator", "kind": kind, "last": 0}));
    let mut users = Users { n: 0, next: 0 };
    let mut prev: Vec<u8> = vec![];
    let mut out = vec![];
    for h in 1..=len {
        let ht = height(shard, h);
        let mut round = 0i64;
        let mut props: Vec<FullProposal> = vec![];
        loop {
            p.v.start_round(ht, Round::from(round), p.me.clone());
            w.v.start_round(ht, Round::from(round), p.me.clone());
            *p.q.lock().unwrap() = users.messages(r, shard);
            let x = p.v.propose_value(ht, Round::from(round), Duration::from_millis(50)).await;
            let want = match (shard, h) {
                (0, 1) => snapchain::consensus::proposer::GENESIS_MESSAGE.as_bytes().to_vec(),
                (_, 1) => vec![0, 32],
                _ => prev.clone(),
            };
            let wit = match x.proposed_value.as_ref().unwrap() {
                full_proposal::ProposedValue::Block(b) => {
                    let w = b.shard_witness.as_ref().unwrap();
                    hash_of(&w.encode_to_vec()) == b.header.as_ref().unwrap().shard_witnesses_hash && w.shard_chunk_witnesses.len() == 1 && w.shard_chunk_witnesses[0].height == Some(height(1, h))
                }
                _ => true,
            };
            t.rec(json!({"op": "propose", "h": x.height().block_number, "r": x.round().as_i64(), "asked": round, "number": number(&x) == ht && x.proposer == p.me.to_vec(),
                         "hash": x.shard_hash().hash == header_hash(&x) && x.shard_hash().shard_index == shard, "parent": parent(&x) == want, "wit": wit, "value": hex::encode(hash_of(&x.encode_to_vec()))}));
            if !props.iter().any(|y| y == &x) {
                props.push(x.clone());
            }
            for _ in 0..spoil {
                if let Some((q, j, what)) = corrupt(r, &x) {
                    // a fresh validator on the same state, so that nothing of a spoilt one stays
                    let got = judge(&mut w.v, &q);
                    t.rec(json!({"op": "judge", "p": j, "what": what, "got": got}));
                    if got == "died" {
                        w.restart(&cfg, chunks).await;
                    }
                }
            }
            let mut j = json!({"kind": kind, "h": h});
            for g in GOOD {
                j[g] = json!(true);
            }
            t.rec(json!({"op": "judge", "p": j, "what": "as it is", "got": judge(&mut w.v, &x)}));
            if r.gen_bool(0.25) {
                p.restart(&cfg, chunks).await;
                if r.gen_bool(0.6) {
                    // the same round again after the restart
                    continue;
                }
            }
            if round < 2 && r.gen_bool(0.25) {
                round += 1;
                continue;
            }
            break;
        }
        let x = props.choose(r).unwrap().clone();
        let m = members(sets, shard, h);
        let (mut commits, _) = make_cert(r, k, sets, ht, x.round().as_i64(), &x.shard_hash(), 0);
        if m.is_empty() {
            commits.signatures.clear();
        }
        // as at the start of any round, what was worked out for another proposal is dropped
        for n in [&mut p, &mut w] {
            n.v.start_round(ht, Round::from(round + 1), n.me.clone());
            let _ = n.v.add_proposed_value(&x, ProposalSource::Sync);
            n.v.decide(commits.clone()).await;
        }
        let last = w.v.get_current_height().block_number;
        let mut same = true;
        let mut value = None;
        for n in [&p, &w] {
            match n.v.get_decided_value(ht).await {
                None => same = false,
                Some((c, v)) => {
                    let want = match &v {
                        full_proposal::ProposedValue::Block(_) => x.block(commits.clone()).map(|b| full_proposal::ProposedValue::Block(b)),
                        full_proposal::ProposedValue::Shard(_) => x.shard_chunk(commits.clone()).map(|b| full_proposal::ProposedValue::Shard(b)),
                    };
                    same &= c == commits && Some(&v) == want.as_ref();
                    value = Some(v);
                }
            }
        }
        same &= p.v.get_current_height() == ht;
        let pending = props.iter().filter(|y| w.v.get_proposed_value(&y.shard_hash()).is_some()).count();
        t.rec(json!({"op": "decided", "h": h, "last": last, "stored": if same { "same" } else { "other" }, "link": true, "pending": pending}));
        prev = x.shard_hash().hash;
        out.push(DecidedValue {
            value: value.map(|v| match v {
                full_proposal::ProposedValue::Block(b) => decided_value::Value::Block(b),
                full_proposal::ProposedValue::Shard(b) => decided_value::Value::Shard(b),
            }),
        });
    }
    let _ = &p.dir;
    (p, out)
}

fn proposals_part(ctx: &Ctx, t: &mut Trace) {
    for n in 0..ctx.scale(16, 120) {
        let mut r = ctx.rng(100 + n as u64);
        let k = Keys::new(&mut r, ALL);
        let sets = gen_sets(&mut r);
        block_on(async {
            t.rec(json!({"op": "reset", "sets": sets_json(&sets), "shard": 1, "n": n}));
            let (node, _) = chain(&mut r, t, &k, &sets, 1, 6, 10, None).await;
            let chunks = node.db.clone();
            t.rec(json!({"op": "reset", "sets": sets_json(&sets), "shard": 0, "n": n}));
            chain(&mut r, t, &k, &sets, 0, 6, 16, Some(&chunks)).await;
        });
    }
}

// ---------------------------------------------------------------------------
fn commits_mut(v: &mut DecidedValue) -> &mut Option<Commits> {
    match v.value.as_mut().unwrap() {
        decided_value::Value::Block(b) => &mut b.commits,
        decided_value::Value::Shard(c) => &mut c.commits,
    }
}
fn value_hash(v: &DecidedValue) -> Vec<u8> {
    match v.value.as_ref().unwrap() {
        decided_value::Value::Block(b) => b.hash.clone(),
        decided_value::Value::Shard(c) => c.hash.clone(),
    }
}
fn value_root(v: &DecidedValue) -> Vec<u8> {
    match v.value.as_ref().unwrap() {
        decided_value::Value::Block(b) => b.header.as_ref().unwrap().state_root.clone(),
        decided_value::Value::Shard(c) => c.header.as_ref().unwrap().shard_root.clone(),
    }
}
async fn follower(shard: u32, db: &Arc<RocksDB>, cap: u32, cfg: &Config, tx: mpsc::Sender<SystemMessage>) -> ReadValidator {
    let q: Queue = Default::default();
    let engine = if shard == 0 { Engine::BlockEngine(block_engine(db.clone(), &q)) } else { Engine::ShardEngine(shard_engine(db.clone(), &q).await) };
    let mut v = ReadValidator {
        engine,
        shard_id: shard,
        last_height: height(shard, 0),
        max_num_buffered_blocks: cap,
        buffered_blocks: BTreeMap::new(),
        statsd_client: test_helper::statsd_client(),
        validator_sets: cfg.to_stored_validator_sets(shard),
        system_tx: tx,
    };
    v.initialize_height();
    v
}
fn root(v: &ReadValidator) -> Vec<u8> {
    match &v.engine {
        Engine::ShardEngine(e) => e.get_stores().trie.root_hash().unwrap(),
        Engine::BlockEngine(e) => e.stores().trie.root_hash().unwrap(),
    }
}

async fn follow(r: &mut Rng, t: &mut Trace, k: &Keys, sets: &[Vset], shard: u32, values: &[DecidedValue], steps: usize) {
    let cfg = config(k, sets);
    let (tx, mut rx) = mpsc::channel(1000);
    let dir = tempfile::TempDir::new().unwrap();
    let db = open(&dir, "f");
    let cap = r.gen_range(0..4u32);
    let mut v = follower(shard, &db, cap, &cfg, tx.clone()).await;
    t.rec(json!({"op": "follow", "last": v.last_height.block_number, "cap": cap}));
    let len = values.len() as u64;
    let mut tail: Vec<u64> = vec![];
    let mut step = 0;
    loop {
        step += 1;
        let last = v.last_height.block_number;
        if step > steps {
            if tail.is_empty() {
                tail = (last + 1..=len).rev().collect();
                if step > steps + 1 || tail.is_empty() {
                    break;
                }
            }
        }
        if step <= steps && r.gen_bool(0.08) {
            // the follower stops and starts again
            drop(v);
            v = follower(shard, &db, cap, &cfg, tx.clone()).await;
            t.rec(json!({"op": "follow", "last": v.last_height.block_number, "cap": cap}));
            continue;
        }
        let (h, kind) = match tail.pop() {
            Some(h) => (h, 0),
            None => {
                let lo = last.saturating_sub(1).max(1);
                (r.gen_range(lo..=(last + 4).min(len).max(lo)), if r.gen_bool(0.55) { 0 } else { r.gen_range(1..12) })
            }
        };
        let mut x = values[h as usize - 1].clone();
        let good = commits_mut(&mut x).clone().unwrap();
        let (ht, rd, val) = (good.height.unwrap(), good.round, good.value.clone().unwrap());
        let (mut whole, mut bound, mut hdr, mut version) = (true, true, true, true);
        let mut flaw = 0;
        let (c, mut j) = match kind {
            1..=5 => {
                flaw = [1, 2, 3, 4, 5, 6, 7, 8, 9][r.gen_range(0..9)];
                make_cert(r, k, sets, ht, rd, &val, flaw)
            }
            6 => {
                // good, but for another value of this height
                bound = false;
                let o = ShardHash { hash: hash_of(&r.next_u32().to_be_bytes()), shard_index: shard };
                make_cert(r, k, sets, ht, rd, &o, 0)
            }
            7 => {
                // good, but for another height
                bound = false;
                let other = height(shard, if h > 1 && r.gen_bool(0.5) { h - 1 } else { h + 1 });
                make_cert(r, k, sets, other, rd, &val, 0)
            }
            _ => make_cert(r, k, sets, ht, rd, &val, 0),
        };
        *commits_mut(&mut x) = Some(c);
        match kind {
            8 => {
                hdr = false;
                match x.value.as_mut().unwrap() {
                    decided_value::Value::Block(b) => b.header.as_mut().unwrap().parent_hash[0] ^= 1,
                    decided_value::Value::Shard(c) => c.header.as_mut().unwrap().parent_hash[0] ^= 1,
                }
            }
            9 => {
                if let decided_value::Value::Block(b) = x.value.as_mut().unwrap() {
                    let hd = b.header.as_mut().unwrap();
                    hd.version = if r.gen_bool(0.5) { hd.version + 1 } else { hd.version - 1 };
                    version = false;
                    if r.gen_bool(0.5) {
                        // and not even certified
                        flaw = 1;
                        let (c, jj) = make_cert(r, k, sets, ht, rd, &val, 1);
                        b.commits = Some(c);
                        j = jj;
                    }
                }
            }
            10 => {
                whole = false;
                let c = commits_mut(&mut x);
                match r.gen_range(0..4) {
                    0 => *c = None,
                    1 => c.as_mut().unwrap().value = None,
                    2 => c.as_mut().unwrap().height = None,
                    _ => {
                        let c = c.as_mut().unwrap();
                        let at = r.gen_range(0..c.signatures.len());
                        if r.gen_bool(0.5) {
                            c.signatures[at].signer.pop();
                        } else {
                            c.signatures[at].signer.push(0);
                        }
                    }
                }
            }
            11 => {
                whole = false;
                match (x.value.as_mut().unwrap(), r.gen_bool(0.5)) {
                    (decided_value::Value::Block(b), true) => b.header = None,
                    (decided_value::Value::Block(b), false) => b.header.as_mut().unwrap().height = None,
                    (decided_value::Value::Shard(b), true) => b.header = None,
                    (decided_value::Value::Shard(b), false) => b.header.as_mut().unwrap().height = None,
                }
            }
            _ => {}
        }
        while rx.try_recv().is_ok() {}
        let took = {
            use futures::FutureExt as _;
            std::panic::AssertUnwindSafe(v.process_decided_value(x)).catch_unwind().await
        };
        let mut exits = 0;
        while let Ok(m) = rx.try_recv() {
            if let SystemMessage::ExitWithError(_) = m {
                exits += 1;
            }
        }
        let buf: Vec<u64> = v.buffered_blocks.keys().map(|x| x.block_number).collect();
        t.rec(json!({"op": "deliver", "h": h, "c": j, "case": kind, "flaw": flaw, "whole": whole, "bound": bound, "hdr": hdr, "version": version,
                     "died": took.is_err(), "took": *took.as_ref().unwrap_or(&0), "last": v.last_height.block_number, "buf": buf, "exits": exits}));
        if r.gen_bool(0.3) {
            let at = r.gen_range(1..=len);
            let got = match v.get_decided_value(height(shard, at)) {
                None => "none",
                Some(d) => {
                    if d.certificate.value_id.hash == value_hash(&values[at as usize - 1]) && d.certificate.height == height(shard, at) {
                        "same"
                    } else {
                        "other"
                    }
                }
            };
            t.rec(json!({"op": "serve", "h": at, "got": got}));
            let l = v.last_height.block_number;
            if l > 0 {
                t.rec(json!({"op": "root", "same": root(&v) == value_root(&values[l as usize - 1])}));
            }
        }
    }
}

fn follow_part(ctx: &Ctx, t: &mut Trace) {
    for n in 0..ctx.scale(12, 80) {
        let mut r = ctx.rng(300 + n as u64);
        let k = Keys::new(&mut r, ALL);
        let sets = gen_sets(&mut r);
        block_on(async {
            let mut quiet = Trace::none();
            let (node, values) = chain(&mut r, &mut quiet, &k, &sets, 1, 9, 0, None).await;
            let chunks = node.db.clone();
            let (_b, blocks) = chain(&mut r, &mut quiet, &k, &sets, 0, 9, 0, Some(&chunks)).await;
            for (shard, vals) in [(1, &values), (0, &blocks), (1, &values), (0, &blocks)] {
                t.rec(json!({"op": "reset", "sets": sets_json(&sets), "shard": shard, "n": n}));
                follow(&mut r, t, &k, &sets, shard, vals, ctx.scale(40, 80)).await;
            }
        });
    }
}

/// What a node proposed, as it keeps it across restarts.
fn stored_part(ctx: &Ctx, t: &mut Trace) {
    let r = &mut ctx.rng(93);
    let rounds = [0u32, 1, 2, 3, 7, 254, 255, 256, 257, 511, 65535, 65536, 1 << 24, (1 << 31) - 1];
    let heights = [1u64, 2, 3, 255, 256, 257, 65535, 65536, 1 << 24, 1 << 32, (1 << 32) + 1, u64::MAX - 1, u64::MAX];
    for _ in 0..ctx.scale(30, 300) {
        t.rec(json!({"op": "reset", "sets": [], "shard": 1}));
        let d = tmp();
        let db = RocksDB::new(d.path().join("l").to_str().unwrap());
        db.open().unwrap();
        let st = LocalStateStore::new(Arc::new(db));
        let shards: Vec<u32> = [0u32, 1, 2, 255, 256, 65536].choose_multiple(r, 2).cloned().collect();
        let hs: Vec<u64> = heights.choose_multiple(r, 3).cloned().collect();
        let rs: Vec<u32> = rounds.choose_multiple(r, 3).cloned().collect();
        for tag in 1..r.gen_range(6..20) {
            let (sh, h, rd) = (*shards.choose(r).unwrap(), *hs.choose(r).unwrap(), *rs.choose(r).unwrap());
            if r.gen_bool(0.2) {
                st.delete_proposals(sh, height(sh, h)).unwrap();
                t.rec(json!({"op": "lp-drop", "shard": sh.to_string(), "h": h.to_string()}));
            } else {
                let value = if sh == 0 {
                    full_proposal::ProposedValue::Block(Block { header: Some(BlockHeader { height: Some(height(sh, h)), ..Default::default() }), ..Default::default() })
                } else {
                    full_proposal::ProposedValue::Shard(ShardChunk { header: Some(ShardHeader { height: Some(height(sh, h)), ..Default::default() }), ..Default::default() })
                };
                st.put_proposal(FullProposal { height: Some(height(sh, h)), round: rd as i64, proposed_value: Some(value), proposer: vec![tag as u8] }).unwrap();
                t.rec(json!({"op": "lp-put", "x": [sh.to_string(), h.to_string(), rd.to_string()], "tag": tag}));
            }
            for sh in &shards {
                for h in &hs {
                    for rd in &rs {
                        let got = st.get_proposal(*sh, height(*sh, *h), Round::from(*rd)).unwrap().map(|p| p.proposer[0]).unwrap_or(0);
                        t.rec(json!({"op": "lp-get", "x": [sh.to_string(), h.to_string(), rd.to_string()], "got": got}));
                    }
                }
            }
        }
    }
}

pub fn run(ctx: &Ctx) {
    match ctx.focus.as_str() {
        "proposals" => {
            let mut t = ctx.trace("proposals");
            values_part(ctx, &mut t);
            proposals_part(ctx, &mut t);
            stored_part(ctx, &mut ctx.trace("stored"));
        }
        _ => {
            let mut t = ctx.trace("certificates");
            sets_part(ctx, &mut t);
            let mut t = ctx.trace("followers");
            follow_part(ctx, &mut t);
        }
    }
}
