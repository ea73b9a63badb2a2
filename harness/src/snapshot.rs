//! Backups, chunked archives, uploads, downloads and pruning, against a bucket served here.
use crate::common::*;
use rand::seq::SliceRandom;
use rand::{Rng as _, RngCore as _};
use serde_json::{json, Value};
use snapchain::jobs::block_pruning::block_pruning_job;
use snapchain::jobs::event_pruning::event_pruning_job;
use snapchain::jobs::snapshot_upload::upload_snapshot;
use snapchain::proto::*;
use snapchain::storage::db::snapshot::{clear_old_snapshots, download_snapshots, upload_to_s3, Config, SnapshotError};
use snapchain::storage::db::{snapspec_write_pieces, PageOptions, RocksDB, RocksDbTransactionBatch};
use snapchain::storage::store::block_engine::BlockStores;
use snapchain::storage::store::stores::{StoreLimits, Stores};
use snapchain::storage::store::test_helper::statsd_client;
use snapchain::storage::trie::merkle_trie::MerkleTrie;
use snapchain::utils::factory::{hub_events_factory, messages_factory, shard_chunk_factory};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::path::Path;
use std::sync::{Arc, Mutex};
use std::time::{Duration, SystemTime};

const NET: FarcasterNetwork = FarcasterNetwork::Testnet;
const BUCKET: &str = "bkt";

fn dig(b: &[u8]) -> String {
    hex::encode(&blake3::hash(b).as_bytes()[..6])
}

// ---------------------------------------------------------------- the bucket

#[derive(Default)]
struct State {
    objects: BTreeMap<String, Vec<u8>>,
    log: Vec<Value>,
    /// what asking for a key does first: "e500" "e404" "short"
    faults: HashMap<String, Vec<String>>,
    put_faults: usize,
}
#[derive(Clone)]
struct Bucket {
    s: Arc<Mutex<State>>,
    url: String,
}

fn dechunk(body: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut p = 0;
    loop {
        let Some(e) = body[p..].windows(2).position(|w| w == b"\r\n") else { break };
        let line = String::from_utf8_lossy(&body[p..p + e]).to_string();
        let n = usize::from_str_radix(line.split(';').next().unwrap().trim(), 16).unwrap_or(0);
        p += e + 2;
        if n == 0 {
            break;
        }
        out.extend(&body[p..p + n]);
        p += n + 2;
    }
    out
}

fn unescape(s: &str) -> String {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            out.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8_lossy(&out).to_string()
}

impl Bucket {
    fn new() -> Self {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let url = format!("http://{}", l.local_addr().unwrap());
        let s = Arc::new(Mutex::new(State::default()));
        let b = Bucket { s: s.clone(), url };
        std::thread::spawn(move || {
            for c in l.incoming() {
                let s = s.clone();
                std::thread::spawn(move || {
                    let _ = serve(c.unwrap(), s);
                });
            }
        });
        b
    }
    fn take(&self) -> Vec<Value> {
        std::mem::take(&mut self.s.lock().unwrap().log)
    }
    fn config(&self, dir: &Path) -> Config {
        Config {
            endpoint_url: self.url.clone(),
            s3_bucket: BUCKET.into(),
            backup_dir: dir.join("backup").to_str().unwrap().into(),
            snapshot_download_url: format!("{}/dl", self.url),
            snapshot_download_dir: dir.join("scratch").to_str().unwrap().into(),
            aws_access_key_id: "id".into(),
            aws_secret_access_key: "secret".into(),
            ..Default::default()
        }
    }
}

fn serve(c: TcpStream, s: Arc<Mutex<State>>) -> std::io::Result<()> {
    let mut r = BufReader::new(c.try_clone()?);
    let mut w = c;
    loop {
        let mut line = String::new();
        if r.read_line(&mut line)? == 0 {
            return Ok(());
        }
        let mut parts = line.split(' ');
        let method = parts.next().unwrap_or("").to_string();
        let target = parts.next().unwrap_or("").to_string();
        let mut h: HashMap<String, String> = HashMap::new();
        loop {
            let mut l = String::new();
            r.read_line(&mut l)?;
            let l = l.trim_end();
            if l.is_empty() {
                break;
            }
            if let Some((k, v)) = l.split_once(':') {
                h.insert(k.to_lowercase(), v.trim().to_string());
            }
        }
        if h.get("expect").map(|e| e.contains("100")).unwrap_or(false) {
            w.write_all(b"HTTP/1.1 100 Continue\r\n\r\n")?;
        }
        let mut body = vec![];
        if let Some(n) = h.get("content-length").and_then(|n| n.parse::<usize>().ok()) {
            body = vec![0; n];
            r.read_exact(&mut body)?;
        } else if h.get("transfer-encoding").map(|t| t.contains("chunked")).unwrap_or(false) {
            loop {
                let mut l = String::new();
                r.read_line(&mut l)?;
                body.extend(l.as_bytes());
                let n = usize::from_str_radix(l.trim().split(';').next().unwrap(), 16).unwrap_or(0);
                let mut b = vec![0; n + 2];
                r.read_exact(&mut b)?;
                body.extend(&b);
                if n == 0 {
                    break;
                }
            }
            body = dechunk(&body);
        }
        if h.get("content-encoding").map(|t| t.contains("aws-chunked")).unwrap_or(false) {
            body = dechunk(&body);
        }
        let (path, query) = target.split_once('?').unwrap_or((&target, ""));
        let path = unescape(path);
        let (code, out, declared) = answer(&s, &method, &path, query, body, &h);
        let reason = if code == 200 { "OK" } else { "No" };
        let kind = if path.ends_with(".json") { "application/json" } else { "application/xml" };
        write!(
            w,
            "HTTP/1.1 {code} {reason}\r\nContent-Length: {}\r\nContent-Type: {kind}\r\nETag: \"x\"\r\n\r\n",
            declared
        )?;
        w.write_all(&out)?;
        w.flush()?;
        if declared != out.len() {
            return Ok(());
        }
    }
}

fn answer(s: &Mutex<State>, method: &str, path: &str, query: &str, body: Vec<u8>, h: &HashMap<String, String>) -> (u16, Vec<u8>, usize) {
    let mut s = s.lock().unwrap();
    let full = |code: u16, b: Vec<u8>| {
        let n = b.len();
        (code, b, n)
    };
    if let Some(k) = path.strip_prefix("/dl/") {
        s.log.push(json!({"m": "GET", "k": k}));
        let f = s.faults.get_mut(k).and_then(|f| if f.is_empty() { None } else { Some(f.remove(0)) });
        return match (f.as_deref(), s.objects.get(k)) {
            (Some("e500"), _) => full(500, b"oops".to_vec()),
            (Some("e404"), _) | (_, None) => full(404, b"not here".to_vec()),
            (Some("short"), Some(b)) => (200, b[..b.len() / 2].to_vec(), b.len()),
            (_, Some(b)) => full(200, b.clone()),
        };
    }
    let root = format!("/{BUCKET}");
    let key = path.strip_prefix(&root).unwrap_or(path).trim_start_matches('/').to_string();
    match method {
        "PUT" => {
            if s.put_faults > 0 {
                s.put_faults -= 1;
                return full(500, b"<Error><Code>InternalError</Code></Error>".to_vec());
            }
            s.log.push(json!({"m": "PUT", "k": key, "dig": dig(&body),
                "type": h.get("content-type").cloned().unwrap_or_default()}));
            s.objects.insert(key, body);
            full(200, vec![])
        }
        "GET" => {
            let prefix = query
                .split('&')
                .find_map(|p| p.strip_prefix("prefix="))
                .map(unescape)
                .unwrap_or_default();
            let keys: String = s
                .objects
                .keys()
                .filter(|k| k.starts_with(&prefix))
                .map(|k| format!("<Contents><Key>{k}</Key><Size>1</Size></Contents>"))
                .collect();
            full(200, format!("<?xml version=\"1.0\"?><ListBucketResult><Name>{BUCKET}</Name><IsTruncated>false</IsTruncated>{keys}</ListBucketResult>").into_bytes())
        }
        "POST" => {
            let t = String::from_utf8_lossy(&body).to_string();
            let mut ks: Vec<String> = t
                .split("<Key>")
                .skip(1)
                .map(|p| p.split("</Key>").next().unwrap().to_string())
                .collect();
            ks.sort();
            for k in &ks {
                s.objects.remove(k);
            }
            s.log.push(json!({"m": "DEL", "ks": ks}));
            full(200, b"<?xml version=\"1.0\"?><DeleteResult></DeleteResult>".to_vec())
        }
        _ => full(400, vec![]),
    }
}

// ---------------------------------------------------------------- content

/// All files under `p`, by relative name.
fn tree(p: &Path) -> BTreeMap<String, Vec<u8>> {
    fn walk(root: &Path, p: &Path, out: &mut BTreeMap<String, Vec<u8>>) {
        let Ok(rd) = std::fs::read_dir(p) else { return };
        for e in rd.flatten() {
            if e.path().is_dir() {
                walk(root, &e.path(), out)
            } else {
                out.insert(
                    e.path().strip_prefix(root).unwrap().to_str().unwrap().into(),
                    std::fs::read(e.path()).unwrap(),
                );
            }
        }
    }
    let mut out = BTreeMap::new();
    walk(p, p, &mut out);
    out
}
fn tree_dig(p: &Path) -> String {
    let t = tree(p);
    if t.is_empty() {
        return "none".into();
    }
    let mut b = vec![];
    for (k, v) in t {
        b.extend(k.as_bytes());
        b.push(0);
        b.extend(dig(&v).as_bytes());
    }
    dig(&b)
}

struct Pieces(Vec<Vec<u8>>);
impl Write for Pieces {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.push(b.to_vec());
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn unzip(b: &[u8]) -> Option<Vec<u8>> {
    let mut v = vec![];
    flate2::read::GzDecoder::new(b).read_to_end(&mut v).ok()?;
    Some(v)
}

// ---------------------------------------------------------------- archives

fn chunks(r: &mut Rng, t: &mut Trace, big: bool) {
    let d = tmp();
    let n = r.gen_range(0..14usize);
    let max = *[1usize, 5, 10, 100, 512, 4096].choose(r).unwrap() * if big { 64 } else { 1 };
    let pieces: Vec<Vec<u8>> = (0..n)
        .map(|_| {
            let len = match r.gen_range(0..8) {
                0 => 0,
                1 => max,
                2 => max + 1,
                3 => max - 1,
                4 => max * 2 + 3,
                _ => r.gen_range(0..=max),
            };
            let len = if big && r.gen_ratio(1, 6) { 300_000 } else { len };
            let mut v = vec![0u8; len];
            if r.gen() {
                r.fill_bytes(&mut v)
            } else {
                v.iter_mut().for_each(|x| *x = 7)
            }
            v
        })
        .collect();
    let flush = r.gen_ratio(1, 4);
    let base = d.path().join("a/b");
    let got = guarded(|| snapspec_write_pieces(base.clone(), max, &pieces, flush));
    let files = tree(&base);
    let mut names: Vec<&String> = files.keys().collect();
    names.sort_by_key(|n| (n.len(), n.to_string()));
    let parts: Vec<Option<Vec<u8>>> = names.iter().map(|n| unzip(&files[*n])).collect();
    let whole: Vec<u8> = parts.iter().flatten().flatten().copied().collect();
    t.rec(json!({"op": "chunks", "max": max, "flush": flush, "ok": matches!(got, Ok(Ok(_))),
        "lens": pieces.iter().map(|p| p.len()).collect::<Vec<_>>(),
        "taken": match &got { Ok(Ok(v)) => v.clone(), _ => vec![] },
        "names": names, "readable": parts.iter().all(|p| p.is_some()),
        "parts": parts.iter().map(|p| p.as_ref().map(|p| p.len()).unwrap_or(0)).collect::<Vec<_>>(),
        "dig": dig(&whole), "want": dig(&pieces.concat())}));
}

// ---------------------------------------------------------------- uploads and downloads

fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap()
}

fn down(b: &Bucket, cfg: &Config, db: &Path, shards: &[u32]) -> bool {
    // waiting between tries takes no time
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    let res = guarded(|| rt.block_on(download_snapshots(NET, cfg, db.to_str().unwrap().into(), shards.to_vec())));
    let _ = b;
    matches!(res, Ok(Ok(())))
}

fn run_scenario(seed: u64, beh: &Value) -> Vec<Value> {
    use rand::SeedableRng;
    let mut r = Rng::seed_from_u64(seed);
    let b = Bucket::new();
    let d = tmp();
    let mut out = vec![json!({"op": "begin", "net": NET.as_str_name()})];
    let mut cfg = b.config(d.path());
    let db = d.path().join("db");
    let mut last: HashMap<u32, u64> = HashMap::new();
    let rt = rt();
    for (i, step) in beh["steps"].as_array().unwrap().iter().enumerate() {
        if step["op"] == "up" {
            let shard = step["shard"].as_u64().unwrap() as u32;
            let n = step["n"].as_u64().unwrap() as usize;
            // content with the chunk count asked for
            let src = d.path().join(format!("src{i}"));
            std::fs::create_dir_all(&src).unwrap();
            for f in 0..r.gen_range(1..4) {
                let mut v = vec![0u8; 400 * n];
                r.fill_bytes(&mut v);
                std::fs::write(src.join(format!("f{f}")), v).unwrap();
            }
            let mut tar = tar::Builder::new(Pieces(vec![]));
            tar.append_dir_all(format!("shard-{shard}"), &src).unwrap();
            tar.finish().unwrap();
            let bytes = tar.into_inner().unwrap().0.concat();
            let piece = bytes.len().div_ceil(n);
            let pieces: Vec<Vec<u8>> = bytes.chunks(piece).map(|c| c.to_vec()).collect();
            let arch = d.path().join(format!("arch{i}"));
            snapspec_write_pieces(arch.clone(), piece, &pieces, false).unwrap();
            let mut files: Vec<(String, String)> = tree(&arch).into_iter().map(|(k, v)| (k, dig(&v))).collect();
            files.sort_by_key(|(k, _)| (k.len(), k.clone()));
            // a second upload of the shard in the same second would share the first one's place
            let now = || SystemTime::now().duration_since(SystemTime::UNIX_EPOCH).unwrap().as_secs();
            while last.get(&shard) == Some(&now()) {
                std::thread::sleep(Duration::from_millis(20));
            }
            b.s.lock().unwrap().put_faults = if r.gen_ratio(1, 5) { 1 } else { 0 };
            b.take();
            let lo = now();
            let up = guarded(|| rt.block_on(upload_to_s3(NET, arch.to_str().unwrap().into(), &cfg, shard, &statsd_client())));
            last.insert(shard, now());
            let puts = b.take();
            let base = puts.first().map(|p| p["k"].as_str().unwrap().rsplit_once('/').unwrap().0.to_string()).unwrap_or_default();
            let secs: u64 = base.trim_end_matches(".tar.gz").rsplit('-').next().and_then(|s| s.parse().ok()).unwrap_or(0);
            let day = chrono::DateTime::from_timestamp(secs as i64, 0).map(|t| t.date_naive().to_string()).unwrap_or_default();
            let latest = b.s.lock().unwrap().objects.get(&format!("{}/{}/latest.json", NET.as_str_name(), shard)).cloned();
            let meta: Value = latest.and_then(|l| serde_json::from_slice(&l).ok()).unwrap_or(json!({"key_base": "", "chunks": []}));
            let cleared = guarded(|| rt.block_on(clear_old_snapshots(NET, &cfg, shard)));
            let mut gone: Vec<String> = vec![];
            for e in b.take() {
                if e["m"] == "DEL" {
                    gone.extend(e["ks"].as_array().unwrap().iter().map(|k| k.as_str().unwrap().to_string()));
                }
            }
            out.push(json!({"op": "up", "shard": shard, "ok": matches!(up, Ok(Ok(()))), "cleared": matches!(cleared, Ok(Ok(()))),
                "puts": puts, "files": files.iter().map(|(k, v)| json!({"k": k, "dig": v})).collect::<Vec<_>>(),
                "name": format!("snapshot-{day}-{secs}.tar.gz"), "timely": secs >= lo && secs <= last[&shard],
                "meta": {"base": meta["key_base"], "chunks": meta["chunks"]}, "gone": gone,
                "left": b.s.lock().unwrap().objects.keys().cloned().collect::<Vec<_>>(), "tree": tree_dig(&src)}));
        } else {
            let shards: Vec<u32> = step["shards"].as_array().unwrap().iter().map(|s| s.as_u64().unwrap() as u32).collect();
            let fault = step["fault"].as_str().unwrap();
            let keys: Vec<String> = {
                let s = b.s.lock().unwrap();
                s.objects
                    .keys()
                    .filter(|k| shards.iter().any(|x| k.starts_with(&format!("{}/{}/", NET.as_str_name(), x))) && !k.ends_with("latest.json"))
                    .cloned()
                    .collect()
            };
            let mut faults = vec![];
            let mut damaged = vec![];
            let mut restore = None;
            if let Some(k) = keys.choose(&mut r) {
                let times = match fault {
                    "once" | "short" => 1,
                    "thrice" => 3,
                    "five" => 5,
                    "gone" => 6,
                    _ => 0,
                };
                let code = if fault == "short" { "short" } else { *["e500", "e404", "short"].choose(&mut r).unwrap() };
                let mut s = b.s.lock().unwrap();
                s.faults.clear();
                if times > 0 {
                    s.faults.insert(k.clone(), vec![code.to_string(); times]);
                    faults.push(json!({"k": k, "n": times}));
                }
                if fault == "bad" {
                    let old = s.objects[k].clone();
                    let cut = r.gen_range(0..old.len() - 1);
                    s.objects.insert(k.clone(), old[..cut].to_vec());
                    restore = Some((k.clone(), old));
                    damaged.push(k.clone());
                }
            }
            if r.gen() {
                cfg.snapshot_download_dir = d.path().join(format!("scratch{i}")).to_str().unwrap().into();
            }
            // what a restore that was cut short, of whatever snapshot, left in the scratch place
            if r.gen() {
                let s = b.s.lock().unwrap();
                let files: Vec<(&String, &Vec<u8>)> = s.objects.iter().filter(|(k, _)| !k.ends_with("latest.json")).collect();
                for shard in &shards {
                    let at = Path::new(&cfg.snapshot_download_dir).join(format!("shard-{shard}"));
                    std::fs::create_dir_all(&at).unwrap();
                    for (k, _) in files.iter().filter(|(k, _)| k.starts_with(&format!("{}/{}/", NET.as_str_name(), shard))) {
                        if r.gen() {
                            let v = files.choose(&mut r).unwrap().1;
                            let v = if r.gen() { &v[..] } else { &v[..r.gen_range(0..v.len())] };
                            std::fs::write(at.join(k.rsplit('/').next().unwrap()), v).unwrap();
                        }
                    }
                }
            }
            b.take();
            let ok = down(&b, &cfg, &db, &shards);
            let asks: Vec<Value> = b.take().iter().map(|e| e["k"].clone()).collect();
            out.push(json!({"op": "down", "shards": shards, "faults": faults, "damaged": damaged, "ok": ok, "asks": asks,
                "scratch": Path::new(&cfg.snapshot_download_dir).exists(),
                "db": vec![1u32, 10].iter().map(|s| json!({"shard": s, "tree": tree_dig(&db.join(format!("shard-{s}")))})).collect::<Vec<_>>(),
                "extra": tree(&db).keys().filter(|k| !k.starts_with("shard-1/") && !k.starts_with("shard-10/")).collect::<Vec<_>>()}));
            // what comes after a whole restore starts from nothing, as a node would
            if ok {
                let _ = std::fs::remove_dir_all(&db);
            }
            if let Some((k, v)) = restore {
                b.s.lock().unwrap().objects.insert(k, v);
            }
        }
    }
    out
}

fn open(p: &Path) -> Arc<RocksDB> {
    let db = Arc::new(RocksDB::new(p.to_str().unwrap()));
    db.open().unwrap();
    db
}
fn block_stores(p: &Path) -> BlockStores {
    BlockStores::new(open(p), MerkleTrie::new().unwrap(), NET)
}
fn stores(p: &Path, shard: u32) -> Stores {
    Stores::new(open(p), shard, MerkleTrie::new().unwrap(), StoreLimits::default(), NET, statsd_client())
}

fn content(db: &RocksDB) -> (usize, String) {
    let mut n = 0;
    let mut b = blake3::Hasher::new();
    db.for_each_iterator_by_prefix(None, None, &PageOptions::default(), |k, v| {
        n += 1;
        b.update(&(k.len() as u32).to_be_bytes());
        b.update(k);
        b.update(&(v.len() as u32).to_be_bytes());
        b.update(v);
        Ok(false)
    })
    .unwrap();
    (n, hex::encode(&b.finalize().as_bytes()[..6]))
}

/// The whole job: real databases, backed up, uploaded, cleared, downloaded, opened.
fn job(seed: u64, which: usize) -> Vec<Value> {
    use rand::SeedableRng;
    let mut r = Rng::seed_from_u64(seed);
    let b = Bucket::new();
    let d = tmp();
    let cfg = b.config(d.path());
    let bs = block_stores(&d.path().join("live/0"));
    let shards: Vec<u32> = if which % 2 == 0 { vec![1, 2] } else { vec![1] };
    let ss: HashMap<u32, Stores> = shards.iter().map(|s| (*s, stores(&d.path().join(format!("live/{s}")), *s))).collect();
    let mut want = vec![];
    for (s, db) in std::iter::once((0, &bs.db)).chain(ss.iter().map(|(s, x)| (*s, &x.db))) {
        let n = match (which + s as usize) % 4 {
            0 => 10_000,
            1 => r.gen_range(0..40),
            2 => 20_001,
            _ => r.gen_range(9_990..10_010),
        };
        let mut txn = RocksDbTransactionBatch::new();
        for i in 0..n {
            let mut v = vec![0u8; r.gen_range(0..60)];
            r.fill_bytes(&mut v);
            txn.put(format!("{}k{i}", (i % 7) as u8 as char).into_bytes(), v);
        }
        db.commit(txn).unwrap();
        let (n, h) = content(db);
        want.push(json!({"shard": s, "n": n, "dig": h}));
    }
    let mut out = vec![];
    let age = *[0u64, 1, 11, 13, 30].choose(&mut r).unwrap();
    let left = which % 3 != 0;
    std::fs::create_dir_all(&cfg.backup_dir).unwrap();
    if left {
        std::fs::write(Path::new(&cfg.backup_dir).join("old"), b"x").unwrap();
        std::fs::create_dir_all(Path::new(&cfg.backup_dir).join("olddir/deep")).unwrap();
        let f = std::fs::File::open(&cfg.backup_dir).unwrap();
        f.set_modified(SystemTime::now() - Duration::from_secs(age * 3600 + 60)).unwrap();
    }
    let only: Option<HashSet<u32>> = match which % 5 {
        1 => Some([1].into()),
        2 => Some([0].into()),
        3 => Some(HashSet::new()),
        _ => None,
    };
    let rt = rt();
    let res = guarded(|| rt.block_on(upload_snapshot(cfg.clone(), NET, bs.clone(), ss.clone(), statsd_client(), only.clone())));
    let names: Vec<String> = tree(Path::new(&cfg.backup_dir)).keys().cloned().collect();
    let log = b.take();
    let mut done: Vec<u32> = vec![];
    for s in std::iter::once(0).chain(shards.iter().copied()) {
        if b.s.lock().unwrap().objects.contains_key(&format!("{}/{}/latest.json", NET.as_str_name(), s)) {
            done.push(s);
        }
    }
    let db = d.path().join("restored");
    let down_ok = !done.is_empty() && down(&b, &cfg, &db, &done);
    let got: Vec<Value> = done
        .iter()
        .map(|s| {
            let g = guarded(|| content(&open(&db.join(format!("shard-{s}"))))).unwrap_or((0, "unreadable".into()));
            json!({"shard": s, "n": g.0, "dig": g.1})
        })
        .collect();
    let all: Vec<u32> = std::iter::once(0).chain(shards.iter().copied()).collect();
    let only_list: Vec<Vec<u32>> = only.iter().map(|o| { let mut v: Vec<u32> = o.iter().copied().collect(); v.sort(); v }).collect();
    out.push(json!({"op": "job", "left": left, "hours": age, "only": only_list, "shards": all,
        "res": match &res { Ok(Ok(())) => "ok", Ok(Err(SnapshotError::UploadAlreadyInProgress)) => "busy", _ => "error" },
        "sent": log.iter().filter(|e| e["m"] == "PUT").count(), "done": done, "down": down_ok, "want": want, "got": got, "after": names}));
    out
}

// ---------------------------------------------------------------- pruning

fn block_at(h: u64, ts: u64) -> Block {
    Block {
        header: Some(BlockHeader { height: Some(Height { shard_index: 0, block_number: h }), timestamp: ts, ..Default::default() }),
        ..Default::default()
    }
}
fn add(bs: &BlockStores, st: &Stores, h: u64, ts: u64, events: usize, msg: &Message) {
    bs.block_store.put_block(&block_at(h, ts)).unwrap();
    st.shard_store.put_shard_chunk(&shard_chunk_factory::create_shard_chunk(st.shard_id, Some(h), Some(ts))).unwrap();
    st.event_handler.set_current_height(h);
    let mut txn = RocksDbTransactionBatch::new();
    for _ in 0..events {
        st.event_handler.commit_transaction(&mut txn, &mut hub_events_factory::create_merge_event(msg)).unwrap();
    }
    st.db.commit(txn).unwrap();
}
fn kept(bs: &BlockStores, st: &Stores) -> Value {
    let o = PageOptions::default();
    let blocks: Vec<u64> = bs.block_store.get_blocks(0, None, &o).unwrap().blocks.iter().map(|b| b.header.as_ref().unwrap().height.unwrap().block_number).collect();
    let chunks: Vec<u64> = st.shard_store.get_shard_chunks(0, None).unwrap().iter().map(|b| b.header.as_ref().unwrap().height.unwrap().block_number).collect();
    let events: Vec<u64> = st.get_events(0, None, None).unwrap().events.iter().map(|e| e.id >> 14).collect();
    json!({"block": blocks, "chunk": chunks, "event": events})
}

fn prune(r: &mut Rng, rt: &tokio::runtime::Runtime, msg: &Message, beh: &Value) -> Vec<Value> {
    let d = tmp();
    let bs = block_stores(&d.path().join("0"));
    let st = stores(&d.path().join("1"), 1);
    let mut out = vec![json!({"op": "prune-begin"})];
    let (mut h, mut ts) = (0u64, 0u64);
    for step in beh["steps"].as_array().unwrap() {
        if step["op"] == "block" {
            h += 1;
            ts += step["gap"].as_u64().unwrap();
            let ev = r.gen_range(0..3usize);
            add(&bs, &st, h, ts, ev, msg);
            out.push(json!({"op": "block", "h": h, "ts": ts, "events": ev}));
        } else {
            let c = step["cut"].as_u64().unwrap();
            let page = PageOptions { page_size: Some(r.gen_range(1..4)), ..Default::default() };
            let kind = *["block", "chunk", "event"].choose(r).unwrap();
            let n = rt.block_on(async {
                match kind {
                    "block" => match bs.block_store.get_next_height_by_timestamp(c) {
                        Ok(Some(h)) => bs.block_store.prune_until(h, &page, Duration::ZERO).await.unwrap_or(9999),
                        _ => 0,
                    },
                    "chunk" => st.prune_shard_chunks_until(c, Duration::ZERO, Some(page)).await.unwrap_or(9999),
                    _ => st.prune_events_until(c, Duration::ZERO, Some(page)).await.unwrap_or(9999),
                }
            });
            out.push(json!({"op": "prune", "kind": kind, "cut": c, "n": n, "kept": kept(&bs, &st)}));
        }
    }
    out
}

/// The scheduled jobs, many stores at once, on the real clock.
fn jobs(r: &mut Rng, msg: &Message, n: usize) -> Vec<Value> {
    const HALF: u64 = 6 * 3600;
    struct Sc {
        d: tempfile::TempDir,
        bs: BlockStores,
        ss: Vec<Stores>,
        desc: Value,
        kind: &'static str,
        retention: u64,
        synced: bool,
        tx: Option<tokio::sync::watch::Sender<bool>>,
    }
    let now = snapchain::core::util::get_farcaster_time().unwrap();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    let mut scs: Vec<Sc> = (0..n)
        .map(|k| {
            let d = tmp();
            let bs = block_stores(&d.path().join("0"));
            let shards = r.gen_range(1..3u32);
            let ss: Vec<Stores> = (1..=shards).map(|s| stores(&d.path().join(format!("{s}")), s)).collect();
            let mut per = vec![];
            let chain = |r: &mut Rng| {
                let mut ages: Vec<u64> = (0..r.gen_range(0..7)).map(|_| 2 * r.gen_range(0..6u64) + 1).collect();
                ages.sort_by(|a, b| b.cmp(a));
                ages
            };
            let ages = chain(r);
            for (i, a) in ages.iter().enumerate() {
                bs.block_store.put_block(&block_at(i as u64 + 1, now - a * HALF)).unwrap();
            }
            per.push(json!({"shard": 0, "ages": ages}));
            for st in &ss {
                let ages = chain(r);
                for (i, a) in ages.iter().enumerate() {
                    let h = i as u64 + 1;
                    st.shard_store.put_shard_chunk(&shard_chunk_factory::create_shard_chunk(st.shard_id, Some(h), Some(now - a * HALF))).unwrap();
                    st.event_handler.set_current_height(h);
                    let mut txn = RocksDbTransactionBatch::new();
                    st.event_handler.commit_transaction(&mut txn, &mut hub_events_factory::create_merge_event(msg)).unwrap();
                    st.db.commit(txn).unwrap();
                }
                per.push(json!({"shard": st.shard_id, "ages": ages}));
            }
            // retention in even half-days, or longer than time itself
            let retention = if r.gen_ratio(1, 8) { now + 1000 } else { 2 * r.gen_range(0..6u64) * HALF };
            Sc { d, bs, ss, desc: json!(per), kind: if k % 2 == 0 { "blocks" } else { "events" }, retention, synced: r.gen_ratio(3, 4), tx: None }
        })
        .collect();
    let look = |scs: &Vec<Sc>| -> Vec<Value> {
        scs.iter()
            .map(|s| {
                let mut v = vec![json!({"shard": 0, "kept": kept(&s.bs, &s.ss[0])["block"]})];
                for st in &s.ss {
                    let k = kept(&s.bs, st);
                    v.push(json!({"shard": st.shard_id, "kept": k["chunk"], "events": k["event"]}));
                }
                json!(v)
            })
            .collect()
    };
    rt.block_on(async {
        let mut sched = tokio_cron_scheduler::JobScheduler::new().await.unwrap();
        for s in scs.iter_mut() {
            let map: HashMap<u32, Stores> = s.ss.iter().map(|x| (x.shard_id, x.clone())).collect();
            let job = if s.kind == "blocks" {
                // the channel starts unsynced: the job has to look when it runs, not when it is made
                let (tx, rx) = tokio::sync::watch::channel(false);
                let j = block_pruning_job("* * * * * *", Duration::from_secs(s.retention), s.bs.clone(), map, rx).unwrap();
                if s.synced {
                    tx.send(true).unwrap();
                }
                s.tx = Some(tx);
                j
            } else {
                event_pruning_job("* * * * * *", Duration::from_secs(s.retention), map).unwrap()
            };
            sched.add(job).await.unwrap();
        }
        sched.start().await.unwrap();
        tokio::time::sleep(Duration::from_millis(2500)).await;
        let mut before = look(&scs);
        for _ in 0..20 {
            tokio::time::sleep(Duration::from_millis(2200)).await;
            let after = look(&scs);
            if after == before {
                break;
            }
            before = after;
        }
        let _ = sched.shutdown().await;
    });
    let after = look(&scs);
    scs.iter()
        .zip(after)
        .map(|(s, a)| {
            let _ = &s.d;
            json!({"op": "jobrun", "kind": s.kind, "ret": if s.retention > now { 1_000_000 } else { s.retention / HALF }, "synced": s.synced, "chains": s.desc, "after": a})
        })
        .collect()
}

pub fn run(ctx: &Ctx) {
    let mut r = ctx.rng(22);
    let behs = ctx.behaviours();
    let (runs, prunes): (Vec<_>, Vec<_>) = behs.iter().partition(|b| b["kind"] == "run");
    let msg = messages_factory::casts::create_cast_add(1, "x", Some(1), None);
    // the jobs run on the clock: beside everything else
    let mut jr = ctx.rng(220);
    let (jm, jn) = (msg.clone(), ctx.scale(24, 120));
    let jobs = std::thread::spawn(move || jobs(&mut jr, &jm, jn));

    let mut t = ctx.trace("chunks");
    for _ in 0..ctx.scale(120, 1500) {
        chunks(&mut r, &mut t, false);
    }
    for _ in 0..ctx.scale(8, 100) {
        chunks(&mut r, &mut t, true);
    }
    let mut t = ctx.trace("prune");
    let one = rt();
    for b in prunes.choose_multiple(&mut r, ctx.scale(250, 4000)) {
        for v in prune(&mut r, &one, &msg, b) {
            t.rec(v);
        }
    }
    let picked: Vec<(u64, Value)> = runs.choose_multiple(&mut r, ctx.scale(60, 1500)).map(|b| (0, (*b).clone())).collect();
    let picked: Vec<(u64, Value)> = picked.into_iter().map(|(_, b)| (r.gen(), b)).collect();
    let jobseeds: Vec<(u64, usize)> = (0..ctx.scale(10, 60)).map(|k| (r.gen(), k)).collect();
    let work = Arc::new(Mutex::new((0..picked.len() + jobseeds.len()).collect::<Vec<_>>()));
    let (picked, jobseeds) = (Arc::new(picked), Arc::new(jobseeds));
    let done: Arc<Mutex<BTreeMap<usize, Vec<Value>>>> = Default::default();
    let ths: Vec<_> = (0..8)
        .map(|_| {
            let (work, picked, jobseeds, done) = (work.clone(), picked.clone(), jobseeds.clone(), done.clone());
            std::thread::spawn(move || loop {
                let Some(k) = work.lock().unwrap().pop() else { break };
                let v = if k < picked.len() { run_scenario(picked[k].0, &picked[k].1) } else { job(jobseeds[k - picked.len()].0, jobseeds[k - picked.len()].1) };
                done.lock().unwrap().insert(k, v);
            })
        })
        .collect();
    for h in ths {
        h.join().unwrap();
    }
    let mut t = ctx.trace("runs");
    for v in done.lock().unwrap().values().flatten() {
        t.rec(v.clone());
    }
    for v in jobs.join().unwrap() {
        t.rec(v);
    }
}
