//! A node copied from the account transactions other nodes hand out.
use crate::channels;
use crate::common::*;
use crate::shard::Grown;
use ed25519_dalek::SigningKey;
use prost::Message as _;
use rand::seq::SliceRandom;
use rand::Rng as _;
use serde_json::{json, Value};
use snapchain::bootstrap::replication::service::{ReplicatorBootstrap, ReplicatorBootstrapConfig, WorkUnitResponse};
use snapchain::network::replication::replication_stores::ReplicationStores;
use snapchain::network::replication::replicator::{Replicator, ReplicatorSnapshotOptions};
use snapchain::network::replication::ReplicationServer;
use snapchain::proto::replication_service_server::{ReplicationService, ReplicationServiceServer};
use snapchain::proto::shard_trie_entry_with_message::TrieMessage;
use snapchain::proto::*;
use snapchain::storage::db::RocksDB;
use snapchain::storage::store::engine::{PostCommitMessage, ShardEngine};
use snapchain::storage::store::node_local_state::LocalStateStore;
use snapchain::storage::store::test_helper::{self as th, EngineOptions};
use snapchain::storage::trie::merkle_trie::{Context, MerkleTrie, TrieKey};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tonic::{Request, Response, Status};

type Map = BTreeMap<Vec<u8>, Vec<u8>>;

// --- writes seen, per database ------------------------------------------------------------------------
static WRITES: Mutex<Vec<rocksdb::shim::Write>> = Mutex::new(Vec::new());
/// What was written to the database at `p`, and everything that is gone by now.
fn writes(p: &Path) -> Vec<rocksdb::shim::Write> {
    let mut all = WRITES.lock().unwrap();
    all.extend(rocksdb::shim::take_writes());
    let (mine, rest) = std::mem::take(&mut *all).into_iter().partition(|w| w.path == p);
    *all = rest;
    mine
}

// --- sources -------------------------------------------------------------------------------------------
enum Source {
    Plain(Grown),
    Social(channels::World, [bool; 5]),
}
impl Source {
    fn engine(&mut self) -> &mut ShardEngine {
        match self {
            Source::Plain(g) => g.engine(),
            Source::Social(w, _) => &mut w.shard,
        }
    }
    fn db(&mut self) -> Arc<RocksDB> {
        self.engine().get_stores().db.clone()
    }
    fn grow(&mut self, rt: &tokio::runtime::Runtime, r: &mut rand_chacha::ChaCha8Rng) {
        match self {
            Source::Plain(g) => {
                rt.block_on(g.grow());
            }
            Source::Social(w, owned) => {
                let ms = w.pool(r, owned);
                w.round(ms);
            }
        }
    }
    fn sound(&self) -> bool {
        match self {
            Source::Plain(g) => g.sound,
            _ => true,
        }
    }
    async fn another(&self, db: &Arc<RocksDB>) -> ShardEngine {
        match self {
            Source::Plain(g) => g.another(db).await,
            Source::Social(..) => th::new_engine_with_options(EngineOptions { network: Some(FarcasterNetwork::Devnet), db: Some(db.clone()), ..Default::default() }).await.0,
        }
    }
}
fn image(db: &RocksDB) -> Map {
    (*rocksdb::shim::image(Path::new(&db.location())).unwrap()).clone()
}

// --- the far side ----------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
struct Plan {
    kind: &'static str,
    vts: u8,
    at: usize, // a record of that unit
}
struct Book {
    lists: BTreeMap<u8, Vec<ShardTrieEntryWithMessage>>,
    roots: HashMap<u64, FidAccountRootHash>,
    meta: Vec<ShardSnapshotMetadata>,
    zero: ShardSnapshotMetadata,
    height: u64,
}
struct Far {
    book: Arc<Book>,
    size: usize,
    real: Option<ReplicationServer>, // pages as they come
    plan: Plan,
    me: usize,
    lacks: bool,
    ahead: bool,
    log: Arc<Mutex<Vec<Value>>>,
    calls: Arc<AtomicU64>,
    fails: Arc<Mutex<HashMap<(u8, usize), u32>>>,
    bad: Arc<AtomicU64>,
    limit: u64,
}
fn fid_of(e: &ShardTrieEntryWithMessage) -> u64 {
    TrieKey::decode(&e.trie_key).unwrap().fid
}
fn resigned(m: &Message, text: bool) -> Message {
    let mut d = m.data.clone().or_else(|| m.data_bytes.as_ref().and_then(|b| MessageData::decode(b.as_slice()).ok())).unwrap();
    d.timestamp ^= 1;
    let mut x = crate::validate::seal(&d, &SigningKey::from_bytes(&[77; 32]), true);
    if text {
        x.hash = m.hash.clone();
        x.signature = m.signature.clone();
        x.signer = m.signer.clone();
    }
    x
}
#[tonic::async_trait]
impl ReplicationService for Far {
    async fn get_shard_snapshot_metadata(&self, q: Request<GetShardSnapshotMetadataRequest>) -> Result<Response<GetShardSnapshotMetadataResponse>, Status> {
        if q.get_ref().shard_id == 0 {
            return Ok(Response::new(GetShardSnapshotMetadataResponse { snapshots: vec![self.book.zero.clone()] }));
        }
        let mut ms = self.book.meta.clone();
        if self.lacks {
            if self.ahead {
                ms.iter_mut().filter(|m| m.height == self.book.height).for_each(|m| m.height += 2);
            } else {
                ms.retain(|m| m.height != self.book.height);
            }
        }
        if self.plan.kind == "empty" {
            ms.clear();
        }
        if self.plan.kind == "shardroot" {
            for m in &mut ms {
                m.shard_chunk.as_mut().unwrap().header.as_mut().unwrap().shard_root[self.plan.at % 20] ^= 4;
            }
        }
        Ok(Response::new(GetShardSnapshotMetadataResponse { snapshots: ms }))
    }
    async fn get_shard_transactions(&self, q: Request<GetShardTransactionsRequest>) -> Result<Response<GetShardTransactionsResponse>, Status> {
        let q = q.into_inner();
        let v = q.trie_virtual_shard as u8;
        let n = self.calls.fetch_add(1, Ordering::SeqCst);
        let empty = vec![];
        let list = self.book.lists.get(&v).unwrap_or(&empty);
        let here = v == self.plan.vts;
        if let Some(real) = &self.real {
            // as it is, with the places told
            let from = q.page_token.is_some();
            let x = real.get_shard_transactions(Request::new(q.clone())).await?;
            let y = x.get_ref();
            let at = |e: Option<&ShardTrieEntryWithMessage>| e.map(|e| list.iter().position(|l| l == e).map(|p| p as i64).unwrap_or(-7));
            let (a, b) = (at(y.trie_messages.first()), at(y.trie_messages.last()));
            if !list.is_empty() {
                let (a, b) = (a.unwrap_or(list.len() as i64), b.map(|b| b + 1).unwrap_or(list.len() as i64));
                self.log.lock().unwrap().push(json!({"op": "served", "u": v, "from": a, "to": b, "end": y.next_page_token.is_none(), "ok": true, "peer": self.me, "first": !from, "height": q.height}));
            }
            return Ok(x);
        }
        let from: usize = q.page_token.as_ref().map(|t| t.trim_start_matches("at-").parse().unwrap()).unwrap_or(0);
        let mut say = |to: usize, ok: bool, end: bool| {
            if !list.is_empty() {
                self.log.lock().unwrap().push(json!({"op": "served", "u": v, "from": from, "to": to, "end": end, "ok": ok, "peer": self.me, "first": q.page_token.is_none(), "height": q.height}));
            }
        };
        if self.plan.kind == "down" && n >= self.limit {
            say(from, false, false);
            return Err(Status::unavailable("gone"));
        }
        if self.plan.kind == "flaky" {
            let mut f = self.fails.lock().unwrap();
            let k = f.entry((v, from)).or_insert(0);
            *k += 1;
            if *k as usize <= (v as usize * 7 + from * 3 + self.plan.at) % 3 {
                say(from, false, false);
                return Err(Status::unavailable("later"));
            }
        }
        let mut to = (from + self.size).min(list.len());
        let mut es: Vec<ShardTrieEntryWithMessage> = list[from..to].to_vec();
        let fids: BTreeSet<u64> = es.iter().map(fid_of).collect();
        let mut roots: Vec<FidAccountRootHash> = fids.iter().map(|f| self.book.roots[f].clone()).collect();
        let (p, bad) = (self.plan.at, self.plan.at.wrapping_sub(from));
        let hit = here && p >= from && p < to;
        let mut forged = hit;
        match self.plan.kind {
            "twice" => {
                if !es.is_empty() {
                    let e = es[(from * 5 + 1) % es.len()].clone();
                    es.push(e);
                    if from > 0 {
                        es.insert(0, list[from - 1].clone());
                        let f = fid_of(&es[0]);
                        if !fids.contains(&f) {
                            roots.push(self.book.roots[&f].clone());
                        }
                    }
                }
                forged = false;
            }
            "drop" if hit => {
                es.remove(bad);
            }
            "text" | "signature" | "signer" | "resigned" | "double" if hit => {
                if let Some(TrieMessage::UserMessage(m)) = &mut es[bad].trie_message {
                    match self.plan.kind {
                        "text" => *m = resigned(m, true),
                        "resigned" => {
                            *m = resigned(m, false);
                            es[bad].trie_key = match &es[bad].trie_message {
                                Some(TrieMessage::UserMessage(m)) => TrieKey::for_message(m)[0].clone(),
                                _ => vec![],
                            };
                        }
                        // true bytes, and other data beside them
                        "double" => {
                            let mut d = m.data.clone().unwrap();
                            m.data_bytes = Some(m.data_bytes.clone().unwrap_or_else(|| d.encode_to_vec()));
                            d.timestamp ^= 1;
                            m.data = Some(d);
                        }
                        "signature" => m.signature[9] ^= 1,
                        _ => m.signer.truncate(31),
                    }
                }
            }
            "key" if hit => {
                let l = es[bad].trie_key.len();
                es[bad].trie_key[l - 2] ^= 1;
            }
            "extra" if hit => {
                if let Some(TrieMessage::UserMessage(m)) = &es[bad].trie_message {
                    let x = resigned(m, false);
                    es.insert(bad + 1, ShardTrieEntryWithMessage { trie_key: TrieKey::for_message(&x)[0].clone(), trie_message: Some(TrieMessage::UserMessage(x)) });
                }
            }
            "root" | "noroot" if here => {
                let f = fid_of(&list[p]);
                if let Some(i) = roots.iter().position(|r| r.fid == f) {
                    forged = true;
                    if self.plan.kind == "root" {
                        roots[i].account_root_hash[3] ^= 8;
                    } else {
                        roots.remove(i);
                    }
                }
            }
            "stranger" if here && from == 0 => {
                if let Some((_, l)) = self.book.lists.iter().find(|l| *l.0 != v && !l.1.is_empty()) {
                    es.push(l[0].clone());
                    let f = fid_of(&l[0]);
                    roots.push(self.book.roots[&f].clone());
                    forged = true;
                }
            }
            "hole" if here => {
                es.clear();
                roots.clear();
                to = list.len();
                forged = true;
            }
            "skip" if hit => to = (to + 1 + self.plan.at % 3).min(list.len()),
            "short" if hit => to = list.len(),
            _ => forged = false,
        }
        if forged {
            self.bad.fetch_add(1, Ordering::SeqCst);
        }
        let end = to >= list.len();
        say(to, true, end);
        let next_page_token = if end { None } else { Some(format!("at-{to}")) };
        Ok(Response::new(GetShardTransactionsResponse { trie_messages: es, fid_account_roots: roots, next_page_token }))
    }
}
fn statsd() -> snapchain::utils::statsd_wrapper::StatsdClientWrapper {
    snapchain::utils::statsd_wrapper::StatsdClientWrapper::new(cadence::StatsdClient::builder("", cadence::NopMetricSink {}).build(), true)
}

// --- looking at a copy --------------------------------------------------------------------------------------
/// (have, done, exact) of every unit that holds something.
fn progress(book: &Book, img: &Map) -> (Vec<usize>, Vec<bool>, Vec<bool>, bool) {
    let dir = tmp();
    let p = dir.path().join("d");
    rocksdb::shim::write_image(&p, img);
    let db = RocksDB::new(p.to_str().unwrap());
    db.open().unwrap();
    let mut trie = MerkleTrie::new().unwrap();
    trie.initialize(&db).unwrap();
    let (mut have, mut done, mut exact) = (vec![], vec![], vec![]);
    let mut all = 0;
    for (v, l) in &book.lists {
        let s = LocalStateStore::read_work_unit(&db, 1, *v as u32).unwrap();
        let n = match &s {
            None => 0,
            Some(s) => s.next_page_token.as_ref().map(|t| place(book, *v, t)).unwrap_or(l.len()),
        };
        have.push(n);
        done.push(s.map(|s| s.last_response == WorkUnitResponse::Finished as u32).unwrap_or(false));
        let keys: BTreeSet<Vec<u8>> = trie.get_all_values(&Context::new(), &db, &[*v]).unwrap_or_default().into_iter().collect();
        all += keys.len();
        let want: BTreeSet<Vec<u8>> = l[..n.min(l.len())].iter().map(|e| e.trie_key.clone()).collect();
        exact.push(keys == want);
    }
    let nothing_else = trie.items().unwrap_or(0) == all;
    db.close();
    (have, done, exact, nothing_else)
}
fn place(book: &Book, v: u8, token: &str) -> usize {
    if let Some(t) = token.strip_prefix("at-") {
        return t.parse().unwrap();
    }
    // a token of the real server: the hex of the last key given
    book.lists[&v].iter().position(|e| token.contains(&hex::encode(&e.trie_key))).map(|p| p + 1).unwrap_or(0)
}
/// Did the source run into one of the findings that make its records differ from its tree: a message pruned or revoked
/// that had been superseded in the same block, or links compacted in the block that added them?
fn amiss(img: &Map) -> bool {
    let (mut gone, mut pruned) = (BTreeSet::new(), BTreeSet::new());
    let (mut links, mut compacts) = (BTreeSet::new(), BTreeSet::new());
    for (k, v) in img.iter().filter(|(k, _)| k[0] == 9) {
        match HubEvent::decode(v.as_slice()).ok().and_then(|e| e.body) {
            Some(hub_event::Body::MergeMessageBody(b)) => {
                let block = u64::from_be_bytes(k[1..9].try_into().unwrap()) >> 14;
                if let Some(m) = &b.message {
                    match m.msg_type() {
                        MessageType::LinkAdd | MessageType::LinkRemove => drop(links.insert((block, m.fid()))),
                        MessageType::LinkCompactState => drop(compacts.insert((block, m.fid()))),
                        _ => {}
                    }
                }
                gone.extend(b.deleted_messages.into_iter().map(|m| m.hash));
            }
            Some(hub_event::Body::PruneMessageBody(b)) => pruned.extend(b.message.map(|m| m.hash)),
            Some(hub_event::Body::RevokeMessageBody(b)) => pruned.extend(b.message.map(|m| m.hash)),
            _ => {}
        }
    }
    gone.intersection(&pruned).next().is_some() || links.intersection(&compacts).next().is_some()
}
/// Rows of the copy against rows of the source, by table.
fn differ(a: &Map, b: &Map) -> BTreeMap<u8, [usize; 3]> {
    let mut out: BTreeMap<u8, [usize; 3]> = BTreeMap::new();
    for (k, v) in a {
        match b.get(k) {
            None => out.entry(k[0]).or_default()[0] += 1,
            Some(w) if w != v => out.entry(k[0]).or_default()[2] += 1,
            _ => {}
        }
    }
    for k in b.keys() {
        if !a.contains_key(k) {
            out.entry(k[0]).or_default()[1] += 1;
        }
    }
    out
}

/// Is the signature of a message its signer's?
fn genuine(m: &Message) -> bool {
    use ed25519_dalek::Verifier as _;
    let bytes = m.data_bytes.clone().unwrap_or_else(|| m.data.as_ref().map(|d| d.encode_to_vec()).unwrap_or_default());
    let key = m.signer.as_slice().try_into().ok().and_then(|k| ed25519_dalek::VerifyingKey::from_bytes(k).ok());
    let sig = ed25519_dalek::Signature::from_slice(&m.signature).ok();
    blake3::hash(&bytes).as_bytes()[..20] == m.hash[..] && key.zip(sig).map(|(k, s)| k.verify(&m.hash, &s).is_ok()).unwrap_or(false)
}

/// Accounts whose name index and names agree at the source.
fn steady(want: &Map) -> BTreeMap<u64, bool> {
    let mut names: BTreeMap<u64, Vec<Vec<u8>>> = BTreeMap::new();
    for (k, v) in want.iter().filter(|(k, _)| k[0] == 11) {
        if let Ok(p) = UserNameProof::decode(v.as_slice()) {
            names.entry(p.fid).or_default().push(k[1..].to_vec());
        }
    }
    let index: BTreeMap<u64, Vec<u8>> = want.iter().filter(|(k, _)| k[0] == 15).map(|(k, v)| (fid_in(k), v[1..].to_vec())).collect();
    let fids: BTreeSet<u64> = names.keys().chain(index.keys()).copied().collect();
    fids.into_iter()
        .map(|f| {
            let one = names.get(&f).filter(|n| n.len() == 1).map(|n| n[0].clone());
            (f, one.is_some() && index.get(&f).map(|i| Some(i) == one.as_ref()).unwrap_or(false))
        })
        .collect()
}
fn fid_in(k: &[u8]) -> u64 {
    u32::from_be_bytes(k[1..5].try_into().unwrap()) as u64
}
/// A row a restored node does not get: an event of shard 0 (0), what is known of a channel from one (1),
/// the burned name (2).
fn forgotten(k: &[u8], v: &[u8]) -> Option<usize> {
    match k[0] {
        19 => Some(0),
        12 if (55..=57).contains(&k[1]) => Some(1),
        11 if UserNameProof::decode(v).map(|p| p.fid == 0).unwrap_or(false) => Some(2),
        _ => None,
    }
}
/// What is forgotten, by kind, and all other differences by table.
fn judge(img: &Map, want: &Map, before: &Map) -> ([usize; 3], Vec<Value>) {
    let (steady, once) = (steady(want), steady(before));
    let mut lost = [0; 3];
    let (mut a, mut b) = (Map::new(), Map::new());
    for (k, v) in want {
        match forgotten(k, v) {
            Some(n) if img.get(k).is_none() => lost[n] += 1,
            _ => {
                b.insert(k.clone(), v.clone());
            }
        }
    }
    for (k, v) in img {
        // (counts by type come in any order)
        let alike = k[0] == 9 && b.get(k).map(|w| HubEvent::decode(w.as_slice()).ok() == HubEvent::decode(v.as_slice()).ok()).unwrap_or(false);
        a.insert(k.clone(), if alike { b[k].clone() } else { v.clone() });
    }
    // (accounts whose index is amiss at the source, a finding of its own)
    let odd = |k: &Vec<u8>| k[0] == 15 && (!steady.get(&fid_in(k)).copied().unwrap_or(false) || once.get(&fid_in(k)) == Some(&false));
    a.retain(|k, _| !odd(k));
    b.retain(|k, _| !odd(k));
    if std::env::var("SNAPSPEC_WHY").is_ok() {
        for k in a.keys().chain(b.keys()).filter(|k| ![2, 8, 9, 13, 18].contains(&k[0]) && a.get(*k) != b.get(*k)) {
            eprintln!("ROW {} copy {:?} source {:?}", hex::encode(k), a.get(k).map(hex::encode), b.get(k).map(hex::encode));
            for (e, v) in want.iter().filter(|(e, _)| e[0] == 9) {
                let (t, e) = (format!("{:?}", HubEvent::decode(v.as_slice()).unwrap()), hex::encode(e));
                if t.contains(&format!("fid: {},", fid_in(k))) {
                    eprintln!("   {e} {t}");
                }
            }
        }
    }
    (lost, differ(&a, &b).iter().filter(|(t, n)| ![2, 8, 13, 18].contains(*t) && (**t != 9 || n[2] > 0)).map(|(t, n)| json!([t, n[0], n[1], n[2]])).collect())
}

pub fn run(ctx: &Ctx) {
    rocksdb::shim::observe(true);
    let (n, per) = (ctx.scale(48, 800) as u64, ctx.scale(6, 20) as u64);
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let f = next.fetch_add(1, Ordering::SeqCst);
                if f * per >= n {
                    break;
                }
                let mut tr = ctx.trace(&format!("r{}", f));
                for i in f * per..((f + 1) * per).min(n) {
                    history(ctx, i, &mut tr);
                }
            });
        }
    });
}

fn history(ctx: &Ctx, i: u64, tr: &mut Trace) {
    let mut r = ctx.rng(7000 + i);
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let social = r.gen_bool(0.35);
    let net = if !social && r.gen_bool(0.4) { FarcasterNetwork::Mainnet } else { FarcasterNetwork::Devnet };
    let mut src = if social { Source::Social(channels::World::new(None), [false; 5]) } else { Source::Plain(rt.block_on(Grown::new(ctx.rng(9000 + i), net))) };
    // the source lives, and snapshots are kept as it goes
    let stores = Arc::new(ReplicationStores::new(HashMap::from([(1, src.engine().get_stores().clone())]), statsd(), net));
    let interval = r.gen_range(1..4u64);
    let replicator = Arc::new(Replicator::new_with_options(stores.clone(), statsd(), ReplicatorSnapshotOptions { interval, max_age: Duration::from_secs(1 << 40) }));
    let mut images: BTreeMap<u64, (Map, bool)> = BTreeMap::new();
    let mut kept: BTreeSet<u64> = BTreeSet::new();
    for _ in 0..r.gen_range(3..9) {
        src.grow(&rt, &mut r);
        let h = src.engine().get_confirmed_height().block_number;
        let c = src.engine().get_stores().shard_store.get_chunk_by_height(h).unwrap().unwrap();
        let (tx, _rx) = tokio::sync::oneshot::channel();
        replicator.handle_post_commit_message(&PostCommitMessage { shard_id: 1, header: c.header.clone().unwrap(), channel: tx }).unwrap();
        if kept.is_empty() || h % interval == 0 {
            kept.insert(h);
        }
        images.insert(h, (image(&src.db()), src.sound()));
    }
    let h = *kept.last().unwrap();
    if !images[&h].1 || amiss(&images.values().last().unwrap().0) {
        return; // a source whose tree and records differ (a finding of its own) has no whole copy
    }
    let (want, _) = images[&h].clone();
    let real = ReplicationServer::new(replicator.clone(), snapchain::storage::store::block_engine::BlockStores::new(src.db(), MerkleTrie::new().unwrap(), net), statsd());
    let meta = rt.block_on(real.get_shard_snapshot_metadata(Request::new(GetShardSnapshotMetadataRequest { shard_id: 1 }))).unwrap().into_inner().snapshots;
    let told: BTreeSet<u64> = meta.iter().map(|m| m.height).collect();
    let listing = |h: u64| {
        let (mut lists, mut roots) = (BTreeMap::new(), HashMap::new());
        for v in 0..=255u8 {
            let mut l: Vec<ShardTrieEntryWithMessage> = vec![];
            let mut token = None;
            loop {
                let x = replicator.messages_for_trie_prefix(1, h, v, token).map_err(|e| e.to_string())?;
                l.extend(x.trie_messages);
                for f in x.fid_account_roots {
                    roots.insert(f.fid, f);
                }
                token = x.next_page_token;
                if token.is_none() {
                    break;
                }
            }
            if !l.is_empty() {
                lists.insert(v, l);
            }
        }
        Ok::<_, String>((lists, roots))
    };
    // what is handed out is what the tree of each snapshot holds, record by record
    let mut listed = vec![];
    let mut last = None;
    for t in &told {
        let (img, sound) = images.get(t).cloned().unwrap_or_default();
        if !sound {
            continue;
        }
        let x = listing(*t);
        let held: BTreeSet<Vec<u8>> = {
            let dir = tmp();
            let p = dir.path().join("d");
            rocksdb::shim::write_image(&p, &img);
            let db = RocksDB::new(p.to_str().unwrap());
            db.open().unwrap();
            let mut tree = MerkleTrie::new().unwrap();
            tree.initialize(&db).unwrap();
            let x = tree.get_all_values(&Context::new(), &db, &[]).unwrap().into_iter().collect();
            db.close();
            x
        };
        listed.push(match &x {
            Ok((lists, _)) => {
                let given: Vec<&ShardTrieEntryWithMessage> = lists.values().flatten().collect();
                let own = |e: &ShardTrieEntryWithMessage| match &e.trie_message {
                    Some(TrieMessage::UserMessage(m)) => TrieKey::for_message(m).contains(&e.trie_key),
                    Some(TrieMessage::OnChainEvent(o)) => TrieKey::for_onchain_event(o) == e.trie_key,
                    Some(TrieMessage::FnameTransfer(f)) => f.proof.as_ref().map(|p| TrieKey::for_fname(p.fid, &String::from_utf8_lossy(&p.name).to_string()) == e.trie_key).unwrap_or(false),
                    None => false,
                };
                given.len() == held.len() && given.iter().map(|e| e.trie_key.clone()).collect::<BTreeSet<_>>() == held && given.iter().all(|e| own(e))
            }
            Err(e) => {
                if std::env::var("SNAPSPEC_WHY").is_ok() {
                    eprintln!("listing {t}: {e}");
                }
                false
            }
        });
        if *t == h {
            last = x.ok();
        }
    }
    let (lists, roots) = last.unwrap_or_default();
    let given: usize = lists.values().map(|l: &Vec<ShardTrieEntryWithMessage>| l.len()).sum();
    let zero_block = {
        let mut b = snapchain::storage::store::block_engine_test_helpers::default_block();
        b.header.as_mut().unwrap().height = Some(Height { shard_index: 0, block_number: r.gen_range(0..9) });
        b
    };
    let zero = ShardSnapshotMetadata { shard_id: 0, height: 3, timestamp: 0, shard_chunk: None, block: if r.gen_bool(0.8) { Some(zero_block) } else { None }, num_items: 0 };
    let book = Arc::new(Book { lists, roots, meta, zero, height: h });
    if book.lists.is_empty() {
        if listed.contains(&false) {
            tr.rec(json!({"op": "reset", "len": [], "listed": listed, "snapshots": told.iter().collect::<Vec<_>>(), "kept": kept.iter().collect::<Vec<_>>(), "h": h, "unit": []}));
        }
        return;
    }
    // (messages of events of shard 0 made up for other checks)
    let forged_at_source = |e: &ShardTrieEntryWithMessage| matches!(&e.trie_message, Some(TrieMessage::UserMessage(m)) if !genuine(m));
    if book.lists.values().flatten().any(forged_at_source) {
        return;
    }
    let units: Vec<u8> = book.lists.keys().copied().collect();
    tr.rec(json!({"op": "reset", "len": book.lists.values().map(|l| l.len()).collect::<Vec<_>>(), "listed": listed, "snapshots": told.iter().collect::<Vec<_>>(), "kept": kept.iter().collect::<Vec<_>>(), "h": h,
        "unit": units}));
    let forged = ["drop", "text", "signature", "signer", "key", "root", "noroot", "shardroot", "extra", "skip", "short", "hole", "stranger", "resigned", "double"];
    let mut resume: Option<Map> = None;
    let mut carry: Option<tempfile::TempDir> = None;
    for s in 0..r.gen_range(2..5) {
        let kind = if resume.is_some() || carry.is_some() {
            ["clean", "clean", "flaky", "twice", "late"][r.gen_range(0..5)]
        } else if r.gen_bool(0.5) {
            forged[r.gen_range(0..forged.len())]
        } else {
            ["clean", "flaky", "twice", "down", "down", "late", "empty"][r.gen_range(0..7)]
        };
        let vts = *units.choose(&mut r).unwrap();
        let list = &book.lists[&vts];
        let users: Vec<usize> = (0..list.len()).filter(|n| matches!(list[*n].trie_message, Some(TrieMessage::UserMessage(_)))).collect();
        let mut at = r.gen_range(0..list.len());
        if ["text", "signature", "signer", "extra", "resigned", "double"].contains(&kind) {
            match users.choose(&mut r) {
                Some(u) => at = *u,
                None => continue,
            }
        }
        if kind == "short" || kind == "skip" {
            if list.len() < 2 {
                continue;
            }
            at = r.gen_range(0..list.len() - 1);
        }
        if kind == "stranger" && units.len() < 2 {
            continue;
        }
        let mut size = [1, 2, 3, 5, 9, 1000][r.gen_range(0..6)];
        if kind == "short" || kind == "skip" {
            size = size.min(list.len() - 1);
            at = at / size * size;
            while at + size >= list.len() {
                at -= size;
            }
        }
        let direct = resume.is_none() && carry.is_none() && kind == "clean" && r.gen_bool(0.5);
        let plan = Plan { kind, vts, at };
        let peers = r.gen_range(1..4usize);
        let lacking = kind == "late";
        let log: Arc<Mutex<Vec<Value>>> = Default::default();
        let calls: Arc<AtomicU64> = Default::default();
        let bad: Arc<AtomicU64> = Default::default();
        let fails: Arc<Mutex<HashMap<(u8, usize), u32>>> = Default::default();
        let limit = r.gen_range(0..256 + given as u64 / size as u64);
        let dir = carry.take().unwrap_or_else(tmp);
        let root = dir.path().join("db");
        std::fs::create_dir_all(&root).unwrap();
        let side = root.join(".snapshot/shard-1");
        let before = resume.take().or_else(|| rocksdb::shim::read_image(&side));
        if let Some(m) = &before {
            rocksdb::shim::write_image(&side, m);
        }
        let start = before.as_ref().map(|m| progress(&book, m)).unwrap_or((vec![0; units.len()], vec![false; units.len()], vec![true; units.len()], true));
        let opts = ReplicatorBootstrapConfig {
            max_messages_in_write_session: [1, 4, 20, 5_000_000][r.gen_range(0..4)],
            num_parallel_vts: r.gen_range(1..6),
            rpc_retry_delay: Duration::from_millis(1),
            max_rpc_retries: 3,
        };
        tr.rec(json!({"op": "session", "plan": kind, "have": start.0, "done": start.1, "n": s, "lacks": if lacking {peers} else {0}, "over": start.2.contains(&false)}));
        let mut app = snapchain::cfg::Config { fc_network: net, rocksdb_dir: root.to_str().unwrap().into(), ..Default::default() };
        app.consensus.shard_ids = vec![1];
        app.gossip.address = "nowhere".into();
        app.gossip.announce_address = "nowhere".into();
        let _ = writes(&side);
        let result = rt.block_on(async {
            let mut servers = vec![];
            for p in 0..peers + lacking as usize {
                let far = Far {
                    book: book.clone(),
                    size,
                    real: if direct { Some(real.clone()) } else { None },
                    plan: plan.clone(),
                    me: p,
                    lacks: lacking && p == peers,
                    ahead: (s + peers) % 2 == 0,
                    log: log.clone(),
                    calls: calls.clone(),
                    fails: fails.clone(),
                    bad: bad.clone(),
                    limit,
                };
                let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
                app.snapshot.replication_peers.push(format!("http://{}", l.local_addr().unwrap()));
                let inc = futures::stream::unfold(l, |l| async move { Some((l.accept().await.map(|x| x.0), l)) });
                servers.push(tokio::spawn(tonic::transport::Server::builder().add_service(ReplicationServiceServer::new(far)).serve_with_incoming(inc)));
            }
            let b = ReplicatorBootstrap::new_with_config(statsd(), &app, opts);
            let x = tokio::time::timeout(Duration::from_secs(100), tokio::spawn(async move { b.bootstrap_using_replication().await })).await;
            for s in servers {
                s.abort();
            }
            match x {
                Ok(Ok(Ok(WorkUnitResponse::Finished))) => "finished".to_string(),
                Ok(Ok(Ok(o))) => format!("{o:?}"),
                Ok(Ok(Err(e))) => {
                    if std::env::var("SNAPSPEC_WHY").is_ok() {
                        eprintln!("{kind}: {}", e.to_string().chars().take(300).collect::<String>());
                    }
                    "error".to_string()
                }
                Ok(Err(_)) => "panic".to_string(),
                Err(_) => "hang".to_string(),
            }
        });
        for mut x in log.lock().unwrap().drain(..) {
            x["u"] = json!(units.iter().position(|u| *u as u64 == x["u"].as_u64().unwrap()).unwrap() + 1);
            x["right"] = json!(x["height"] == json!(h));
            x.as_object_mut().unwrap().remove("height");
            tr.rec(x);
        }
        let ws = writes(&side);
        // what was on disk on the way
        let sweep = ws.iter().position(|w| w.ops.iter().any(|o| o.0[0] == 21 && o.1.is_none())).unwrap_or(ws.len());
        let honest = !forged.contains(&kind);
        let mut picks: BTreeSet<usize> = (0..3).filter(|_| sweep > 0).map(|_| r.gen_range(0..sweep)).collect();
        if sweep > 0 && result != "finished" {
            picks.insert(sweep - 1);
        }
        for p in picks {
            let (have, done, exact, only) = progress(&book, &ws[p].image);
            if honest {
                // (which of several events is the last, and events of the copying itself, are settled at the end)
                let stray = ws[p].image.iter().filter(|(k, v)| ![8, 9, 13, 15, 18, 21, 24].contains(&k[0]) && !(k[0] == 12 && k[1] > 50) && want.get(*k) != Some(v)).map(|(k, _)| json!([k[0], if k[0] == 3 { k[5] } else { k[1] }])).collect::<Vec<_>>();
                tr.rec(json!({"op": "look", "have": have, "done": done, "exact": exact, "only": only, "stray": stray}));
            }
        }
        let main = root.join("shard-1");
        let promoted = main.exists();
        let mut rec = json!({"op": "end", "h": h, "plan": kind, "result": result, "promoted": promoted, "forged": bad.load(Ordering::SeqCst) > 0 || kind == "shardroot"});
        if promoted {
            let img = rocksdb::shim::read_image(&main).unwrap_or_default();
            let d = differ(&img, &want);
            if std::env::var("SNAPSPEC_WHY").is_ok() {
                eprintln!("{kind} {i}/{s}: {result} {d:?}");
            }
            let (lost, rest) = judge(&img, &want, &want);
            (rec["lost"], rec["diff"]) = (json!(lost), json!(rest));
            // and it goes on from there
            let top = *images.keys().last().unwrap();
            let db = RocksDB::open_shard_db(root.to_str().unwrap(), 1);
            let mut on = |db: &Arc<RocksDB>| -> (u64, bool, Vec<Value>, String) {
                let mut e = rt.block_on(src.another(db));
                let at = e.get_confirmed_height().block_number;
                let root = e.get_stores().trie.root_hash().unwrap() == book.meta.iter().find(|m| m.height == h).unwrap().shard_chunk.as_ref().unwrap().header.as_ref().unwrap().shard_root;
                for k in h + 1..=top {
                    let c = src.engine().get_stores().shard_store.get_chunk_by_height(k).unwrap().unwrap();
                    if let Err(w) = guarded(|| rt.block_on(e.commit_shard_chunk(&c))) {
                        return (at, root, vec![], w.chars().take(120).collect());
                    }
                    if e.get_stores().trie.root_hash().unwrap() != c.header.as_ref().unwrap().shard_root {
                        return (at, root, vec![], "root".into());
                    }
                }
                drop(e);
                let (_, d) = judge(&image(db), &images[&top].0, &want);
                (at, root, d, String::new())
            };
            let (at, same, later, why) = on(&db);
            (rec["at"], rec["root"], rec["later"], rec["on"], rec["why"]) = (json!(at), json!(same), json!(later), json!(why.is_empty()), json!(why));
            db.close();
            // with what was forgotten put back
            let d2 = tmp();
            let mended = d2.path().join("shard-1");
            let mut m = img.clone();
            m.extend(want.iter().filter(|(k, v)| forgotten(k, v).is_some()).map(|(k, v)| (k.clone(), v.clone())));
            rocksdb::shim::write_image(&mended, &m);
            let db = RocksDB::open_shard_db(d2.path().to_str().unwrap(), 1);
            let (_, _, later, why) = on(&db);
            (rec["mended"], rec["mlater"], rec["mwhy"]) = (json!(why.is_empty()), json!(later), json!(why));
            db.close();
            let zb = RocksDB::open_shard_db(root.to_str().unwrap(), 0);
            let zi = image(&zb);
            rec["zero"] = json!(book.zero.block.is_none() == zi.is_empty());
            zb.close();
        }
        tr.rec(rec);
        // another session goes on from where this one was at some moment, or from where it stopped
        if honest && !ws.is_empty() && r.gen_bool(0.7) {
            resume = Some((*ws[r.gen_range(0..ws.len())].image).clone());
        } else if honest && !promoted {
            carry = Some(dir);
        }
    }
}
