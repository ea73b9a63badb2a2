//! The state tree under random histories of inserts, deletes, commits, rollbacks and reloads.
use crate::common::*;
use base64::Engine as _;
use rand::seq::SliceRandom;
use rand::{Rng as _, RngCore as _};
use serde_json::{json, Value};
use snapchain::proto::*;
use snapchain::storage::db::{RocksDB, RocksDbTransactionBatch};
use snapchain::storage::trie::merkle_trie::{Context, MerkleTrie, TrieKey};
use snapchain::utils::factory::{events_factory, messages_factory};
use std::collections::BTreeSet;

const U: usize = 12;

fn h20(b: &[u8]) -> Vec<u8> {
    blake3::hash(b).as_bytes()[..20].to_vec()
}
fn digits(b: &[u8]) -> String {
    hex::encode(b)
}

/// Trie.tla's canonical tree over a set of keys, with blake3 as the hash.
struct Canon<'a> {
    keys: &'a [Vec<u8>],
    hex: Vec<String>,
}
impl<'a> Canon<'a> {
    fn new(keys: &'a [Vec<u8>]) -> Self {
        Canon { keys, hex: keys.iter().map(|k| digits(k)).collect() }
    }
    fn below(&self, s: &BTreeSet<usize>, p: &str) -> Vec<usize> {
        s.iter().cloned().filter(|x| self.hex[*x].starts_with(p)).collect()
    }
    fn node(&self, s: &BTreeSet<usize>, p: &str) -> bool {
        p.is_empty() || (!self.below(s, p).is_empty() && (p.len() <= U || self.below(s, &p[..p.len() - 1]).len() >= 2))
    }
    fn hash(&self, s: &BTreeSet<usize>, p: &str) -> Vec<u8> {
        let b = self.below(s, p);
        if b.is_empty() {
            return vec![];
        }
        if p.len() >= U && b.len() == 1 {
            let nib: Vec<u8> = self.keys[b[0]].iter().flat_map(|x| [x >> 4, x & 15]).collect();
            return h20(&nib);
        }
        let next: BTreeSet<char> = b.iter().map(|x| self.hex[*x].as_bytes()[p.len()] as char).collect();
        let all: Vec<u8> = next.iter().flat_map(|c| self.hash(s, &format!("{p}{c}"))).collect();
        h20(&all)
    }
    fn listing(&self, s: &BTreeSet<usize>, p: &str) -> Vec<usize> {
        if self.node(s, p) {
            self.below(s, p)
        } else {
            vec![]
        }
    }
    fn id(&self, k: &[u8]) -> i64 {
        self.keys.iter().position(|x| x == k).map(|x| x as i64 + 1).unwrap_or(-1)
    }
}
fn ids(v: &[usize]) -> Vec<usize> {
    v.iter().map(|x| x + 1).collect()
}

/// Keys crowded together: few accounts, few kinds, and hashes that share long beginnings.
fn universe(rng: &mut Rng) -> Vec<Vec<u8>> {
    let n = rng.gen_range(6..28);
    let mut out: BTreeSet<Vec<u8>> = BTreeSet::new();
    let many = rng.gen_range(1..4);
    let accounts: Vec<Vec<u8>> = (0..many)
        .map(|j| match rng.gen_range(0..4) {
            0 => TrieKey::for_fid(rng.gen_range(1..2000)),
            1 => vec![7, 0, 0, 0, j as u8],
            2 => vec![7, 0, 0, 1, 16 * j as u8],
            _ => TrieKey::for_fid(if j == 0 { u32::MAX as u64 } else { 1 << (8 * j) }),
        })
        .collect();
    let bases: Vec<Vec<u8>> = (0..3).map(|_| { let mut b = vec![0u8; 6]; rng.fill_bytes(&mut b); b }).collect();
    for _ in 0..n * 3 {
        if out.len() >= n {
            break;
        }
        let mut k = accounts.choose(rng).unwrap().clone();
        k.push(*[1u8, 7, 8, 16, 40].choose(rng).unwrap());
        let mut rest = bases.choose(rng).unwrap().clone();
        match rng.gen_range(0..5) {
            0 => rng.fill_bytes(&mut rest),
            1 => rest[5] = rest[5] & 0xf0 | rng.gen_range(0..4),
            2 => { let n = rng.gen_range(0..6); rest[n] ^= 1 << rng.gen_range(0..8) },
            3 => rest[0] = rest[0] & 0x0f | (rng.gen_range(0..3u8) << 4),
            _ => {}
        }
        k.extend(rest);
        if rng.gen_bool(0.1) {
            k.extend([0, 0, 1]); // longer keys
        }
        // no key may be the beginning of another
        if !out.iter().any(|o| o.starts_with(&k) || k.starts_with(o)) {
            out.insert(k);
        }
    }
    out.into_iter().collect()
}

struct World {
    db: std::sync::Arc<RocksDB>,
    _dir: tempfile::TempDir,
    trie: MerkleTrie,
    txn: RocksDbTransactionBatch,
    mem: BTreeSet<usize>,
    disk: BTreeSet<usize>,
}

fn open() -> World {
    let dir = tmp();
    let db = RocksDB::new(dir.path().join("db").to_str().unwrap());
    db.open().unwrap();
    let mut trie = MerkleTrie::new().unwrap();
    trie.initialize(&db).unwrap();
    World { db: std::sync::Arc::new(db), _dir: dir, trie, txn: RocksDbTransactionBatch::new(), mem: Default::default(), disk: Default::default() }
}
fn err<T, E: std::fmt::Debug>(r: Result<T, E>) -> String {
    r.err().map(|e| format!("{e:?}")).unwrap_or_default()
}

fn history(rng: &mut Rng, t: &mut Trace) {
    let keys = universe(rng);
    let c = Canon::new(&keys);
    let mut w = open();
    t.rec(json!({"op": "reset", "keys": c.hex}));
    let ctx = &Context::new();
    // what the history leans to: filling up, thinning out, or even
    let mut lean: f64 = 0.8;
    for _ in 0..rng.gen_range(15..45) {
        if rng.gen_bool(0.15) {
            lean = *[0.15, 0.5, 0.85].choose(rng).unwrap();
        }
        match rng.gen_range(0..100) {
            0..=44 => {
                let n = if rng.gen_bool(0.6) { 1 } else { rng.gen_range(1..=6.min(keys.len())) };
                let mut pick: Vec<usize> = (0..keys.len()).collect();
                pick.shuffle(rng);
                pick.truncate(n);
                let ks: Vec<&[u8]> = pick.iter().map(|x| keys[*x].as_slice()).collect();
                let ins = rng.gen_bool(lean);
                let r = if ins { w.trie.insert(ctx, &w.db, &mut w.txn, ks) } else { w.trie.delete(ctx, &w.db, &mut w.txn, ks) };
                for x in &pick {
                    if ins {
                        w.mem.insert(*x);
                    } else {
                        w.mem.remove(x);
                    }
                }
                t.rec(json!({"op": if ins { "ins" } else { "del" }, "k": ids(&pick), "out": r.as_ref().map(|v| v.clone()).unwrap_or_default(), "err": err(r)}));
            }
            45..=54 => {
                w.db.commit(std::mem::replace(&mut w.txn, RocksDbTransactionBatch::new())).unwrap();
                w.disk = w.mem.clone();
                t.rec(json!({"op": "commit"}));
                if rng.gen_bool(0.5) {
                    let e = err(w.trie.reload(&w.db));
                    t.rec(json!({"op": "reload", "err": e}));
                }
            }
            55..=59 => {
                // what is thrown away may leave as many keys as there were
                let held: Vec<usize> = w.mem.iter().cloned().collect();
                let free: Vec<usize> = (0..keys.len()).filter(|x| !w.mem.contains(x)).collect();
                if w.mem == w.disk && !held.is_empty() && !free.is_empty() && rng.gen_bool(0.6) {
                    let (a, b) = (*held.choose(rng).unwrap(), *free.choose(rng).unwrap());
                    for (x, ins) in [(a, false), (b, true)] {
                        let ks = vec![keys[x].as_slice()];
                        let r = if ins { w.trie.insert(ctx, &w.db, &mut w.txn, ks) } else { w.trie.delete(ctx, &w.db, &mut w.txn, ks) };
                        t.rec(json!({"op": if ins { "ins" } else { "del" }, "k": ids(&[x]), "out": r.as_ref().map(|v| v.clone()).unwrap_or_default(), "err": err(r)}));
                    }
                }
                // a proposal that was not taken, or a restart
                w.txn = RocksDbTransactionBatch::new();
                w.mem = w.disk.clone();
                let e = if rng.gen_bool(0.5) {
                    err(w.trie.reload(&w.db))
                } else {
                    w.trie = MerkleTrie::new().unwrap();
                    err(w.trie.initialize(&w.db))
                };
                t.rec(json!({"op": "reload", "err": e}));
            }
            60..=61 => {
                let k = vec![1u8; rng.gen_range(0..6)];
                let r = if rng.gen_bool(0.5) {
                    w.trie.insert(ctx, &w.db, &mut w.txn, vec![&keys[0], &k])
                } else {
                    w.trie.delete(ctx, &w.db, &mut w.txn, vec![&keys[0], &k])
                };
                t.rec(json!({"op": "short", "err": err(r)}));
            }
            62..=69 => {
                let k = rng.gen_range(0..keys.len());
                let out = w.trie.exists(ctx, &w.db, &keys[k]).unwrap();
                t.rec(json!({"op": "has", "k": k + 1, "out": out}));
            }
            70..=84 => node(rng, t, &c, &mut w),
            85..=89 => {
                let p = prefix(rng, &keys, 6);
                let r = w.trie.get_all_values(ctx, &w.db, &p);
                let out: Vec<i64> = r.as_ref().map(|v| v.iter().map(|k| c.id(k)).collect()).unwrap_or_default();
                // an empty tree lists itself as one empty value: not a key
                let out: Vec<i64> = if w.mem.is_empty() && r.as_ref().map(|v| v.len() == 1 && v[0].is_empty()).unwrap_or(false) { vec![] } else { out };
                t.rec(json!({"op": "values", "p": digits(&p), "out": out, "err": err(r)}));
            }
            90..=95 => {
                let p = prefix(rng, &keys, 6);
                let max = rng.gen_range(1..6);
                let mut pages: Vec<Vec<i64>> = vec![];
                let mut tok: Option<String> = None;
                let mut e = String::new();
                for _ in 0..80 {
                    let mut got = vec![];
                    // a walk may be picked up by another copy of the tree
                    let mut other = w.trie.clone();
                    let tr = if rng.gen_bool(0.5) { &mut other } else { &mut w.trie };
                    match tr.get_paged_values_of_subtree(ctx, &w.db, &p, &mut got, max, tok.clone()) {
                        Ok(n) => {
                            pages.push(got.iter().map(|k| c.id(k)).collect());
                            tok = n;
                        }
                        Err(x) => {
                            e = format!("{x:?}");
                            break;
                        }
                    }
                    if tok.is_none() {
                        break;
                    }
                    if rng.gen_bool(0.15) {
                        token(t, rng, &mut w, &p, tok.as_ref().unwrap());
                    }
                }
                if tok.is_some() && e.is_empty() {
                    e = "endless".into();
                }
                t.rec(json!({"op": "pages", "p": digits(&p), "max": max, "pages": pages, "err": e}));
            }
            _ => sum(t, &c, &mut w),
        }
    }
    sum(t, &c, &mut w);
    for _ in 0..4 {
        node(rng, t, &c, &mut w);
    }
    w.db.commit(std::mem::replace(&mut w.txn, RocksDbTransactionBatch::new())).unwrap();
    w.disk = w.mem.clone();
    t.rec(json!({"op": "commit"}));
    w.trie = MerkleTrie::new().unwrap();
    let e = err(w.trie.initialize(&w.db));
    t.rec(json!({"op": "reload", "err": e}));
    sum(t, &c, &mut w);
}

fn prefix(rng: &mut Rng, keys: &[Vec<u8>], most: usize) -> Vec<u8> {
    let k = keys.choose(rng).unwrap();
    let n = rng.gen_range(0..=most.min(k.len()));
    let mut p = k[..n].to_vec();
    if n > 0 && rng.gen_bool(0.1) {
        p[n - 1] ^= 1;
    }
    p
}

fn sum(t: &mut Trace, c: &Canon, w: &mut World) {
    let all: Vec<usize> = w.mem.iter().cloned().collect();
    t.rec(json!({"op": "sum", "items": w.trie.items().unwrap(), "root": hex::encode(w.trie.root_hash().unwrap()), "below": ids(&all), "want": hex::encode(c.hash(&w.mem, ""))}));
}

fn node(rng: &mut Rng, t: &mut Trace, c: &Canon, w: &mut World) {
    let most = if rng.gen_bool(0.6) { 6 } else { 13 };
    let p = prefix(rng, c.keys, most);
    let disk = rng.gen_bool(0.3);
    let set = if disk { w.disk.clone() } else { w.mem.clone() };
    let mut none = RocksDbTransactionBatch::new();
    let txn = if disk { &mut none } else { &mut w.txn };
    let hash = w.trie.get_hash(&w.db, txn, &p).unwrap();
    let count = w.trie.get_count(&w.db, txn, &p).unwrap();
    let m = w.trie.get_trie_node_metadata(&w.db, txn, &p);
    let hx = digits(&p);
    let mut kids: Vec<(u8, Value)> = vec![];
    let mut found = false;
    if let Ok(m) = &m {
        found = m.num_messages as u64 == count && m.hash == hex::encode(&hash) && m.prefix == p;
        for (ch, k) in &m.children {
            let q = format!("{hx}{:x}", ch);
            kids.push((*ch, json!({"c": format!("{:x}", ch), "count": k.num_messages, "hash": k.hash, "below": ids(&c.listing(&set, &q)), "want": if c.node(&set, &q) { hex::encode(c.hash(&set, &q)) } else { String::new() }})));
        }
    }
    // the tree keeps no row for the root until it has one
    let empty_root = p.is_empty() && set.is_empty();
    kids.sort_by_key(|k| k.0);
    t.rec(json!({"op": "node", "view": if disk { "disk" } else { "txn" }, "p": hx, "found": found || empty_root, "hash": hex::encode(hash), "count": count,
        "below": ids(&c.listing(&set, &hx)), "want": if c.node(&set, &hx) { hex::encode(c.hash(&set, &hx)) } else { String::new() },
        "dwant": if c.node(&w.disk, &hx) { hex::encode(c.hash(&w.disk, &hx)) } else { String::new() },
        "kids": kids.into_iter().map(|k| k.1).collect::<Vec<_>>()}));
}

// ---------------------------------------------------------------- spelling

fn account(fid: u64) -> Value {
    // the virtual shard: the account number hashed over 256 shards
    use sha2::Digest as _;
    let d = sha2::Sha256::digest((fid as u32).to_be_bytes());
    let vs = u32::from_be_bytes(d[..4].try_into().unwrap()) % 256;
    json!({"vs": format!("{vs:02x}"), "fid": format!("{:08x}", fid as u32)})
}
fn any_fid(rng: &mut Rng) -> u64 {
    match rng.gen_range(0..4) {
        0 => rng.gen_range(1..300),
        1 => rng.gen_range(1..2_000_000),
        2 => u32::MAX as u64 - rng.gen_range(0..3),
        _ => 1 << rng.gen_range(0..32),
    }
}
fn hexes(v: &[Vec<u8>]) -> Vec<String> {
    v.iter().map(|x| hex::encode(x)).collect()
}

/// One message of every kind (hash replaced by something random).
fn message(rng: &mut Rng) -> Message {
    let mut m = match rng.gen_range(0..4) {
        0 => messages_factory::storage_lend::create_storage_lend(any_fid(rng), any_fid(rng), 3, StorageUnitType::UnitTypeLegacy, None, None),
        _ => {
            let mut m = messages_factory::casts::create_cast_add(any_fid(rng), "x", None, None);
            let types: Vec<i32> = (1..64).filter(|x| MessageType::try_from(*x).is_ok()).collect();
            m.data.as_mut().unwrap().r#type = *types.choose(rng).unwrap();
            m
        }
    };
    m.hash = vec![0; 20];
    rng.fill_bytes(&mut m.hash);
    m
}

fn message_rec(m: &Message) -> (Value, Vec<String>) {
    let d = m.data.as_ref().unwrap();
    let kind = d.r#type as u8 * 8;
    let acc = |fid: u64| { let a = account(fid); format!("{}{}", a["vs"].as_str().unwrap(), a["fid"].as_str().unwrap()) };
    let mut want = vec![format!("{}{kind:02x}{}", acc(d.fid), hex::encode(&m.hash))];
    let mut r = json!({"op": "key", "kind": "message", "a": account(d.fid), "t": d.r#type, "hash": hex::encode(&m.hash)});
    if let Some(message_data::Body::LendStorageBody(b)) = &d.body {
        r["to"] = account(b.to_fid);
        want.push(format!("{}{kind:02x}{}", acc(b.to_fid), hex::encode(&m.hash)));
    }
    (r, want)
}

fn name(rng: &mut Rng) -> String {
    let n = rng.gen_range(1..=20);
    (0..n).map(|_| *b"abcxyz019-".choose(rng).unwrap() as char).collect()
}
fn proof(fid: u64, n: &str, kind: UserNameType) -> UserNameProof {
    UserNameProof { timestamp: 1, name: n.as_bytes().to_vec(), owner: vec![1; 20], signature: vec![], fid, r#type: kind as i32 }
}
fn fname_key(fid: u64, n: &str) -> String {
    let a = account(fid);
    format!("{}{}07{}{}", a["vs"].as_str().unwrap(), a["fid"].as_str().unwrap(), hex::encode(n), "00".repeat(20 - n.len()))
}

fn spelling(ctx: &Ctx, t: &mut Trace, rng: &mut Rng) {
    t.rec(json!({"op": "reset", "keys": []}));
    for _ in 0..ctx.scale(150, 1500) {
        match rng.gen_range(0..9) {
            0 => {
                let f = any_fid(rng);
                t.rec(json!({"op": "key", "kind": "account", "a": account(f), "out": [hex::encode(TrieKey::for_fid(f))]}));
                let ty = rng.gen_range(1..31u8);
                t.rec(json!({"op": "key", "kind": "kind", "a": account(f), "t": ty, "out": [hex::encode(TrieKey::for_message_type(f, ty))]}));
            }
            1 | 2 => {
                let m = message(rng);
                let (mut r, _) = message_rec(&m);
                r["out"] = json!(hexes(&TrieKey::for_message(&m)));
                t.rec(r);
            }
            3 => {
                let mut e = events_factory::create_rent_event(any_fid(rng), 1, Default::default(), false, FarcasterNetwork::Devnet);
                e.r#type = *[1, 2, 3, 4, 5, 6].choose(rng).unwrap();
                e.log_index = if rng.gen_bool(0.5) { rng.gen_range(0..70000) } else { rng.next_u32() };
                rng.fill_bytes(&mut e.transaction_hash);
                t.rec(json!({"op": "key", "kind": "chain", "a": account(e.fid), "t": e.r#type, "tx": hex::encode(&e.transaction_hash), "log": format!("{:08x}", e.log_index),
                    "out": [hex::encode(TrieKey::for_onchain_event(&e))]}));
            }
            4 => {
                let (f, n) = (any_fid(rng), name(rng));
                t.rec(json!({"op": "key", "kind": "fname", "a": account(f), "name": hex::encode(&n), "bytes": n.len(), "out": [hex::encode(TrieKey::for_fname(f, &n))]}));
            }
            5 => {
                let f = any_fid(rng);
                let b = rng.gen_range(1..=255u8);
                let mut rest = vec![0; rng.gen_range(6..25)];
                rng.fill_bytes(&mut rest);
                let a = account(f);
                let k = hex::decode(format!("{}{}{b:02x}{}", a["vs"].as_str().unwrap(), a["fid"].as_str().unwrap(), hex::encode(&rest))).unwrap();
                let r = TrieKey::decode(&k);
                let out = r.as_ref().map(|d| json!({"vs": format!("{:02x}", d.virtual_shard), "fid": format!("{:08x}", d.fid), "on": d.onchain_message_type.map(|x| x as i32).unwrap_or(-1),
                    "msg": d.message_type.map(|x| x as i32).unwrap_or(-1), "rest": hex::encode(&d.rest)})).unwrap_or(json!({}));
                t.rec(json!({"op": "decode", "a": a, "b": b, "rest": hex::encode(&rest), "out": out, "err": err(r)}));
            }
            _ => event(t, rng),
        }
    }
}

fn event(t: &mut Trace, rng: &mut Rng) {
    use hub_event::Body;
    let mut adds: Vec<String> = vec![];
    let mut drops: Vec<String> = vec![];
    let keys = |m: &Message| message_rec(m).1;
    let some: Vec<Message> = (0..rng.gen_range(0..4)).map(|_| message(rng)).collect();
    let m = message(rng);
    let (f, g) = (any_fid(rng), any_fid(rng));
    let (n, k) = (name(rng), name(rng));
    let (kind, body) = match rng.gen_range(0..9) {
        0 | 1 => {
            adds = keys(&m);
            drops = some.iter().flat_map(|x| keys(x)).collect();
            ("merge", Body::MergeMessageBody(MergeMessageBody { message: Some(m), deleted_messages: some }))
        }
        2 => {
            drops = keys(&m);
            ("prune", Body::PruneMessageBody(PruneMessageBody { message: Some(m) }))
        }
        3 => {
            drops = keys(&m);
            ("revoke", Body::RevokeMessageBody(RevokeMessageBody { message: Some(m) }))
        }
        4 => {
            let e = events_factory::create_rent_event(f, 1, Default::default(), false, FarcasterNetwork::Devnet);
            let a = account(f);
            adds = vec![format!("{}{}{:02x}{}{:08x}", a["vs"].as_str().unwrap(), a["fid"].as_str().unwrap(), e.r#type, hex::encode(&e.transaction_hash), e.log_index)];
            ("chain", Body::MergeOnChainEventBody(MergeOnChainEventBody { on_chain_event: Some(e) }))
        }
        5 | 6 => {
            // a registration: the new owner's entry in, the old one's out; account 0 is nobody
            let to = if rng.gen_bool(0.3) { 0 } else { f };
            let old = rng.gen_bool(0.6);
            let ens = rng.gen_bool(0.25);
            let ty = if ens { UserNameType::UsernameTypeEnsL1 } else { UserNameType::UsernameTypeFname };
            let set = rng.gen_bool(0.9);
            if !ens {
                if set && to != 0 {
                    adds.push(fname_key(to, &n));
                }
                if old {
                    drops.push(fname_key(g, &k));
                }
            }
            let msg = rng.gen_bool(0.3);
            let dmsg = rng.gen_bool(0.3);
            if msg {
                let mut x = keys(&m);
                x.extend(adds);
                adds = x;
            }
            let d = message(rng);
            if dmsg {
                let mut x = keys(&d);
                x.extend(drops);
                drops = x;
            }
            ("name", Body::MergeUsernameProofBody(MergeUserNameProofBody {
                username_proof: set.then(|| proof(to, &n, ty)),
                deleted_username_proof: old.then(|| proof(g, &k, ty)),
                username_proof_message: msg.then(|| m),
                deleted_username_proof_message: dmsg.then(|| d),
            }))
        }
        7 => ("failure", Body::MergeFailure(MergeFailureBody { message: Some(m), code: "x".into(), reason: "y".into() })),
        _ => ("confirmed", Body::BlockConfirmedBody(BlockConfirmedBody::default())),
    };
    let e = HubEvent { body: Some(body), ..Default::default() };
    let (ins, dels) = TrieKey::for_hub_event(&e);
    t.rec(json!({"op": "event", "kind": kind, "ins": hexes(&ins), "dels": hexes(&dels), "adds": adds, "drops": drops}));
}

/// A page token that has been tampered with is refused, or is at least well formed.
fn token(t: &mut Trace, rng: &mut Rng, w: &mut World, p: &[u8], token: &str) {
    let mut raw = base64::engine::general_purpose::STANDARD.decode(token).unwrap();
    match rng.gen_range(0..5) {
        0 => {
            let n = rng.gen_range(1..=raw.len());
            raw.truncate(n);
        }
        1 => {
            let n = rng.gen_range(0..raw.len());
            raw[n] = raw[n].wrapping_add(*[1u8, 2, 255].choose(rng).unwrap());
        }
        2 => raw.extend((0..rng.gen_range(1..6)).map(|_| 0u8)),
        3 => {
            // a number of strings far beyond what is there
            let n = rng.gen_range(0..2);
            raw[n] = rng.gen_range(1..255);
        }
        _ => {}
    }
    let s = base64::engine::general_purpose::STANDARD.encode(&raw);
    let mut got = vec![];
    let r = guarded(|| w.trie.get_paged_values_of_subtree(&Context::new(), &w.db, p, &mut got, 3, Some(s)).map(|_| ()));
    let e = match r {
        Ok(r) => err(r),
        Err(x) => format!("panic {x}"),
    };
    t.rec(json!({"op": "token", "bytes": raw, "err": e}));
}

/// A kind of record with more keys than one answer lists.
fn crowd(t: &mut Trace, rng: &mut Rng) {
    t.rec(json!({"op": "reset", "keys": []}));
    let mut w = open();
    let c = &Context::new();
    let n = 1500;
    let keys: Vec<Vec<u8>> = (0..n).map(|_| { let mut k = TrieKey::for_message_type(9, 1); let mut h = vec![0; 20]; rng.fill_bytes(&mut h); k.extend(h); k }).collect();
    w.trie.insert(c, &w.db, &mut w.txn, keys.iter().map(|k| k.as_slice()).collect()).unwrap();
    w.db.commit(std::mem::replace(&mut w.txn, RocksDbTransactionBatch::new())).unwrap();
    w.trie.reload(&w.db).unwrap();
    let v = w.trie.get_all_values(c, &w.db, &TrieKey::for_fid(9)).unwrap();
    let mut all = keys.clone();
    all.sort();
    t.rec(json!({"op": "many", "n": v.len(), "all": n, "ordered": v[..] == all[..v.len()]}));
}

/// A token that promises more strings than memory holds, given to a process of its own.
fn hostile(t: &mut Trace) {
    t.rec(json!({"op": "reset", "keys": []}));
    let me = std::env::current_exe().unwrap();
    for raw in [vec![255u8, 255, 255, 255], vec![127, 255, 255, 255, 0, 0, 0, 0], vec![255, 255, 255, 255, 0, 0, 0, 1, 7]] {
        let out = std::process::Command::new("sh")
            .args(["-c", "ulimit -c 0; ulimit -v 12000000; exec \"$0\" trie-token"])
            .arg(&me)
            .env("SNAPSPEC_TOKEN", base64::engine::general_purpose::STANDARD.encode(&raw))
            .output()
            .unwrap();
        let said = String::from_utf8_lossy(&out.stdout).trim().to_string();
        let e = if out.status.success() { said } else { "panic: the process died".into() };
        t.rec(json!({"op": "token", "bytes": raw, "err": e}));
    }
}
pub fn one_token() {
    let mut w = open();
    let k = [&TrieKey::for_message_type(9, 1)[..], &[1, 2, 3]].concat();
    let k2 = [&TrieKey::for_message_type(9, 1)[..], &[2, 2, 3]].concat();
    w.trie.insert(&Context::new(), &w.db, &mut w.txn, vec![&k, &k2]).unwrap();
    let r = w.trie.get_paged_values_of_subtree(&Context::new(), &w.db, &[], &mut vec![], 3, std::env::var("SNAPSPEC_TOKEN").ok());
    println!("{}", err(r));
}

pub fn run(ctx: &Ctx) {
    let mut rng = ctx.rng(0x7219);
    let mut t = ctx.trace("spelling");
    spelling(ctx, &mut t, &mut rng);
    crowd(&mut t, &mut rng);
    hostile(&mut t);
    for f in 0..ctx.scale(2, 8) {
        let mut t = ctx.trace(&format!("tree{f}"));
        for _ in 0..ctx.scale(60, 300) {
            history(&mut rng, &mut t);
        }
        }
}
