//! The operator tool (fc config pull / version / slot), run as the real program against a
//! local JSON-RPC endpoint (ConfigPull.tla).
use crate::common::*;
use rand::seq::SliceRandom;
use rand::Rng as _;
use serde_json::{json, Map, Value};
use std::io::{Read, Write};
use std::net::TcpListener;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};

const BAKED: &str = "0x00000000fc51aD6eb74EAE89ba4b01b1776fBA85";
const OTHER: &str = "0x1111111111111111111111111111111111111111";
// configVersion values: decimal text and 32-byte hex
fn word(n: u128, high: bool) -> (String, [u8; 32]) {
    let mut b = [0u8; 32];
    b[16..].copy_from_slice(&n.to_be_bytes());
    if high {
        b[5] = 1; // 2^208
        let big = alloy_primitives::U256::from_be_bytes(b);
        return (big.to_string(), b);
    }
    (n.to_string(), b)
}

#[derive(Clone)]
struct Doc {
    text: String,
    shape: &'static str,
    sets: Vec<(u64, Vec<(&'static str, String)>, Vec<u32>)>,
    bp: String,
    dp: String,
}

pub fn flat(t: &toml::Table) -> Map<String, Value> {
    fn val(v: &toml::Value) -> Value {
        match v {
            toml::Value::String(s) => json!(s),
            toml::Value::Boolean(b) => json!(b.to_string()),
            toml::Value::Integer(i) => json!(format!("i:{i}")),
            toml::Value::Float(f) => json!(format!("f:{f}")),
            toml::Value::Datetime(d) => json!(format!("d:{d}")),
            v => json!(format!("j:{}", canon(v))),
        }
    }
    fn canon(v: &toml::Value) -> Value {
        match v {
            toml::Value::Array(a) => Value::Array(a.iter().map(canon).collect()),
            toml::Value::Table(t) => Value::Object(t.iter().map(|(k, v)| (k.clone(), canon(v))).collect()),
            v => val(v),
        }
    }
    fn go(p: &str, t: &toml::Table, out: &mut Map<String, Value>) {
        for (k, v) in t {
            let key = if p.is_empty() { k.clone() } else { format!("{p}.{k}") };
            match v {
                toml::Value::Table(x) if !x.is_empty() => go(&key, x, out),
                v => {
                    out.insert(key, val(v));
                }
            }
        }
    }
    let mut out = Map::new();
    go("", t, &mut out);
    out
}

fn q(s: &str) -> String {
    toml::Value::String(s.into()).to_string()
}

fn pubkey(seed: u8) -> String {
    hex::encode(ed25519_dalek::SigningKey::from_bytes(&[seed; 32]).verifying_key().to_bytes())
}
fn off_curve(rng: &mut Rng) -> String {
    loop {
        let b: [u8; 32] = rng.gen();
        if ed25519_dalek::VerifyingKey::from_bytes(&b).is_err() {
            return hex::encode(b);
        }
    }
}

fn random_doc(rng: &mut Rng) -> Doc {
    let mut sets = vec![];
    let nsets = if rng.gen_bool(0.06) { 0 } else { rng.gen_range(1..4) };
    let mut at = 0u64;
    for i in 0..nsets {
        let mut keys: Vec<(&'static str, String)> = (0..rng.gen_range(1..4)).map(|_| {
            let k = pubkey(rng.gen_range(1..7));
            ("good", if rng.gen_bool(0.2) { k.to_uppercase() } else { k })
        }).collect();
        let all: Vec<u32> = vec![0, 1, 2];
        let mut shards = if i == 0 { all.clone() } else {
            let mut s = all.clone();
            s.shuffle(rng);
            s.truncate(rng.gen_range(1..=3));
            s
        };
        if i > 0 {
            at += rng.gen_range(0..3) * 100;
        }
        match rng.gen_range(0..45) {
            0 => keys.clear(),
            1 => shards.clear(),
            2 => keys.push(("offcurve", off_curve(rng))),
            3 => keys.insert(0, ("short", pubkey(1)[..62].to_string())),
            4 => keys.push(("long", format!("{}00", pubkey(2)))),
            5 => keys.push(("nothex", format!("zz{}", &pubkey(3)[2..]))),
            6 => keys.push(("prefixed", format!("0x{}", pubkey(3)))),
            7 if i == 0 => at = 5,
            8 if i == 0 => {
                shards = vec![1, 2];
            }
            _ => {}
        }
        // a height that moves backwards, for some shards
        let a = if i > 0 && rng.gen_bool(0.1) { at.saturating_sub(rng.gen_range(0..3) * 100) } else { at };
        sets.push((a, keys, shards));
    }
    let bp = ["", "/ip4/10.0.0.1/udp/3382/quic-v1,/ip4/10.0.0.2/udp/3382/quic-v1", "/dns/boot \"quoted\"\\x", "/ip4/10.9.9.9/udp/1/quic-v1"].choose(rng).unwrap().to_string();
    let dp = ["", "/ip4/10.1.0.1/udp/3382/quic-v1/p2p/12D3", "é"].choose(rng).unwrap().to_string();
    let shape = *["ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok",
        "ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "extra-top", "extra-set", "extra-gossip", "no-gossip", "no-direct", "no-bootstrap", "wrong-type", "broken", "extra-consensus", "no-shards"].choose(rng).unwrap();
    let mut t = String::new();
    if shape == "extra-top" {
        t += "fc_network = \"Mainnet\"\n";
    }
    if shape == "extra-consensus" {
        t += "[consensus]\nprivate_key = \"aa\"\n";
    }
    for (at, keys, shards) in &sets {
        t += "[[consensus.validator_sets]]\n";
        t += &format!("effective_at = {at}\n");
        let ks: Vec<String> = keys.iter().map(|k| format!("\"{}\"", k.1)).collect();
        t += &format!("validator_public_keys = [{}]\n", ks.join(", "));
        if shape == "wrong-type" {
            t += "shard_ids = \"1\"\n";
        } else if shape != "no-shards" {
            t += &format!("shard_ids = {shards:?}\n");
        }
        if shape == "extra-set" {
            t += "weight = 3\n";
        }
    }
    if shape != "no-gossip" {
        t += "[gossip]\n";
        if shape != "no-bootstrap" {
            t += &format!("bootstrap_peers = {}\n", q(&bp));
        }
        if shape != "no-direct" {
            t += &format!("direct_peers = {}\n", q(&dp));
        }
        if shape == "extra-gossip" {
            t += "address = \"x\"\n";
        }
    }
    if shape == "broken" {
        t += "[[[\n";
    }
    // an empty list of sets: a shape defect shows only if there are sets to carry it
    let shape = if sets.is_empty() && ["wrong-type", "no-shards", "extra-set"].contains(&shape) { "ok" } else { shape };
    Doc { text: t, shape, sets, bp, dp }
}

impl Doc {
    fn json(&self) -> Value {
        let sets: Vec<Value> = self.sets.iter().map(|(at, k, s)| json!({"at": at, "keys": k.iter().map(|x| x.0).collect::<Vec<_>>(), "shards": s})).collect();
        let vs: Vec<Value> = self.sets.iter().map(|(at, k, s)| json!({
            "effective_at": format!("i:{at}"),
            "shard_ids": s.iter().map(|x| format!("i:{x}")).collect::<Vec<_>>(),
            "validator_public_keys": k.iter().map(|x| x.1.clone()).collect::<Vec<_>>()})).collect();
        json!({"shape": self.shape, "sets": sets, "values": {
            "consensus.validator_sets": format!("j:{}", Value::Array(vs)),
            "gossip.bootstrap_peers": self.bp, "gossip.direct_peers": self.dp}})
    }
}

#[derive(Clone, Default)]
struct Server {
    chain: String,
    fault: String,
    at: String,
    docs: Vec<Doc>,
    vers: Vec<(String, [u8; 32])>,
    head: usize,
    moves: bool, // the head advances with every request
    edit: Option<(PathBuf, String)>,
    // what was asked
    url: Option<String>,
    to: Option<String>,
    log: Vec<(String, usize, String)>, // read, block answered, how it was named
    edited: bool,
}

fn abi_string(s: &str) -> String {
    let mut v = vec![0u8; 64];
    v[31] = 32;
    v[56..64].copy_from_slice(&(s.len() as u64).to_be_bytes());
    v.extend(s.as_bytes());
    while v.len() % 32 != 0 {
        v.push(0);
    }
    format!("0x{}", hex::encode(v))
}

fn serve(l: TcpListener, st: Arc<Mutex<Server>>, stop: Arc<AtomicBool>) {
    while let Ok((mut c, _)) = l.accept() {
        if stop.load(Ordering::SeqCst) {
            return;
        }
        let st = st.clone();
        std::thread::spawn(move || {
            let _ = c.set_read_timeout(Some(std::time::Duration::from_secs(20)));
            let mut buf = vec![];
            let mut tmp = [0u8; 8192];
            let (path, body) = loop {
                let n = match c.read(&mut tmp) {
                    Ok(0) | Err(_) => return,
                    Ok(n) => n,
                };
                buf.extend_from_slice(&tmp[..n]);
                if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
                    let head = String::from_utf8_lossy(&buf[..p]).to_string();
                    let len: usize = head.lines().find_map(|l| l.to_lowercase().strip_prefix("content-length:").map(|x| x.trim().parse().unwrap())).unwrap_or(0);
                    if buf.len() >= p + 4 + len {
                        break (head.split(' ').nth(1).unwrap_or("").to_string(), buf[p + 4..p + 4 + len].to_vec());
                    }
                }
            };
            let req: Value = serde_json::from_slice(&body).unwrap_or(Value::Null);
            let mut s = st.lock().unwrap();
            s.url = Some(path);
            let method = req["method"].as_str().unwrap_or("").to_string();
            let data = req["params"][0]["data"].as_str().unwrap_or("").to_string();
            let sel = |sig: &str| format!("0x{}", hex::encode(&alloy_primitives::keccak256(sig.as_bytes())[..4]));
            let read = match method.as_str() {
                "eth_chainId" => "chain",
                "eth_getBlockByNumber" => "block",
                "eth_call" if data == sel("configVersion()") => "version",
                "eth_call" if data == sel("configToml()") => "toml",
                _ => "unknown",
            };
            let p1 = &req["params"][1];
            let mut blk = s.head;
            let mut how = "latest".to_string();
            if read == "version" || read == "toml" {
                s.to = req["params"][0]["to"].as_str().map(|x| x.to_string());
                if let Some(h) = p1["blockHash"].as_str() {
                    let canonical = p1["requireCanonical"] == json!(true);
                    how = if canonical { format!("hash {h}") } else { "loose hash".into() };
                    blk = usize::from_str_radix(&h[2..], 16).unwrap_or(9999);
                } else if p1 != &json!("latest") {
                    how = "other".into();
                }
            }
            s.log.push((read.into(), blk, how));
            let ok = blk < s.docs.len();
            let hash = format!("0x{blk:064x}");
            let result = match read {
                "chain" => json!(format!("0x{:x}", s.chain.parse::<u64>().unwrap())),
                "block" => json!({"hash": hash, "number": "0x10"}),
                "version" if ok => json!(format!("0x{}", hex::encode(s.vers[blk].1))),
                "toml" if ok => json!(abi_string(&s.docs[blk].text)),
                _ => Value::Null,
            };
            let mut status = "200 OK";
            let mut text = json!({"jsonrpc": "2.0", "id": 1, "result": result}).to_string();
            if s.fault == "edit" && read == "toml" {
                if let Some((p, t)) = s.edit.clone() {
                    std::fs::write(p, t).unwrap();
                    s.edited = true;
                }
            } else if s.fault != "none" && s.at == read {
                match s.fault.as_str() {
                    "http" => status = "500 Internal Server Error",
                    "text" => text = "<html>busy S3CRET</html>".into(),
                    "error" => text = json!({"jsonrpc":"2.0","id":1,"error":{"code":-32000,"message":"execution reverted","data":"S3CRET"}}).to_string(),
                    "both" => text = json!({"jsonrpc":"2.0","id":1,"result":result,"error":{"code":-32000,"message":"limited","data":"S3CRET"}}).to_string(),
                    "null" => text = json!({"jsonrpc":"2.0","id":1,"result":null}).to_string(),
                    "garbage" => text = json!({"jsonrpc":"2.0","id":1,"result":"0xzz"}).to_string(),
                    "cut" => text = json!({"jsonrpc":"2.0","id":1,"result":"0x00"}).to_string(),
                    "huge" => {
                        let t = text.clone();
                        text = format!("{}{}", " ".repeat(4 * 1024 * 1024 + 1), t);
                    }
                    "close" => return,
                    _ => {}
                }
            }
            if s.moves && s.head + 1 < s.docs.len() {
                s.head += 1;
            }
            drop(s);
            let _ = c.write_all(format!("HTTP/1.1 {status}\r\ncontent-type: application/json\r\ncontent-length: {}\r\nconnection: close\r\n\r\n{text}", text.len()).as_bytes());
        });
    }
}

struct Out {
    ok: bool,
    stdout: String,
    stderr: String,
}

fn fc(bin: &Path, args: &[String], envs: &[(&str, String)]) -> Out {
    let mut c = Command::new(bin);
    c.args(args).env_clear().env("PATH", "/usr/bin:/bin");
    for (k, v) in envs {
        if v != "-" {
            c.env(k, v);
        }
    }
    let o = c.output().unwrap();
    Out { ok: o.status.success(), stdout: String::from_utf8_lossy(&o.stdout).into(), stderr: String::from_utf8_lossy(&o.stderr).into() }
}

fn parse(p: &Path) -> (bool, Map<String, Value>) {
    match std::fs::read_to_string(p).ok().and_then(|t| toml::from_str::<toml::Table>(&t).ok()) {
        Some(t) => (true, flat(&t)),
        None => (false, Map::new()),
    }
}

fn random_file(rng: &mut Rng, port: u16, net: &str) -> (String, String, &'static str) {
    let url = |n: &str| format!("http://127.0.0.1:{port}/S3CRET-{n}");
    let mut t = String::new();
    let pick = |rng: &mut Rng, p: f64| rng.gen_bool(p);
    if pick(rng, 0.7) {
        let n = match rng.gen_range(0..60) {
            0 => "Mainnet", 1 => "Testnet", 2 => "Devnet",
            3..=9 => ["mainnet", "testnet", "devnet"][["Mainnet", "Testnet", "Devnet"].iter().position(|x| *x == net).unwrap()],
            10..=14 => ["MAINNET", "TESTNET", "DEVNET"][["Mainnet", "Testnet", "Devnet"].iter().position(|x| *x == net).unwrap()],
            _ => net,
        };
        t += &format!("fc_network = \"{n}\"\n");
    }
    if pick(rng, 0.4) {
        t += &format!("read_node = {}\n", pick(rng, 0.08));
    }
    if pick(rng, 0.7) {
        t += &format!("l1_rpc_url = {}\n", q(&if pick(rng, 0.12) { String::new() } else { url("file") }));
    }
    if pick(rng, 0.4) {
        t += &format!("rpc_auth = \"{}\"\nadmin_rpc_auth = \"user:S3CRET\"\n", if pick(rng, 0.3) { "" } else { "a:S3CRET" });
    }
    t += "rocksdb_dir = \".rocks\" # where it lives\n";
    if pick(rng, 0.3) {
        t += "clear_db = false\npruning.block_retention = \"1h\"\nlimits = [1, 2, 3]\nratio = 0.5\nstart = 2024-01-01T00:00:00Z\n\"odd key\" = '''multi\nline'''\n";
    }
    let mut key = "-";
    let seed = rng.gen_range(1..9u8);
    if pick(rng, 0.92) {
        t += "[consensus]\n";
        let hexkey = hex::encode([seed; 32]);
        match rng.gen_range(0..14) {
            0 => {}
            1 => {
                t += &format!("private_key = \"{}\"\n", &hexkey[..60]);
                key = "bad";
            }
            2 => {
                t += &format!("private_key = \" {} \"\n", hexkey.to_uppercase());
                key = "good";
            }
            _ => {
                t += &format!("private_key = \"{hexkey}\"\n");
                key = "good";
            }
        }
        t += "num_shards = 2\nshard_ids = [1, 2]\n";
        if pick(rng, 0.8) {
            t += &format!("[[consensus.validator_sets]]\neffective_at = 0\nvalidator_public_keys = [\"{}\", \"{}\"]\nshard_ids = [0, 1, 2]\n", pubkey(7).to_uppercase(), pubkey(8));
            if pick(rng, 0.5) {
                t += &format!("[[consensus.validator_sets]]\neffective_at = 10\nvalidator_public_keys = [{}]\nshard_ids = [1]\n{}", if pick(rng, 0.1) { String::new() } else { q(&pubkey(rng.gen_range(1..9))) },
                    if pick(rng, 0.1) { "extra = 1\n" } else { "" });
            }
        }
    }
    if pick(rng, 0.05) {
        t = format!("gossip = 5\n{t}");
    } else if pick(rng, 0.85) {
        t += "[gossip]\naddress = \"/ip4/0.0.0.0/udp/3382/quic-v1\"\n";
        if pick(rng, 0.8) {
            t += &format!("bootstrap_peers = {}\n", ["\"\"", "\" \"", "\"/ip4/192.168.0.1/udp/1/quic-v1\"", "\"/dns/mine\"", "[\"a\"]"].choose(rng).unwrap());
        }
        if pick(rng, 0.5) {
            t += "direct_peers = \"/ip4/192.168.0.2/udp/1\"\nannounce_address = \"x\"\n";
        }
    }
    if pick(rng, 0.3) {
        t += "[snapshot]\naws_access_key_id = \"S3CRET\"\naws_secret_access_key = \"S3CRET\"\ns3_bucket = \"b\"\n";
    }
    if pick(rng, 0.4) {
        t += &format!("[onchain_events]\nrpc_url = {}\nstart_block_number = 7\n[base_onchain_events]\nrpc_url = {}\n", q(&url("op")), q(&url("base")));
    }
    if pick(rng, 0.3) {
        t += "[[mempool.peers]]\nname = \"a\"\n[[mempool.peers]]\nname = \"b\"\nport = 9\n";
    }
    let rank = if key == "good" { pubkey(seed) } else { String::new() };
    if rng.gen_bool(0.04) {
        t = t.replace("num_shards = 2", "private_key = \"S3CRET");
        if !t.contains("private_key = \"S3CRET") {
            t += "token = \"S3CRET\n";
        }
    }
    (t, rank, key)
}

/// All public keys that can occur, in text order: a key's rank is its place here.
fn ranks() -> Vec<String> {
    let mut v: Vec<String> = (1..=9u8).map(pubkey).collect();
    v.sort();
    v
}

fn history(bin: &Path, seed: u64, n: usize, tr: &mut Vec<Value>) {
    use rand::SeedableRng;
    let mut rng = Rng::seed_from_u64(seed);
    let rng = &mut rng;
    let dir = tmp();
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let port = l.local_addr().unwrap().port();
    let st = Arc::new(Mutex::new(Server::default()));
    let stop = Arc::new(AtomicBool::new(false));
    let h = {
        let (st, stop) = (st.clone(), stop.clone());
        std::thread::spawn(move || serve(l, st, stop))
    };
    let real = dir.path().join("config.toml");
    let nets = ["Mainnet", "Mainnet", "Testnet", "Devnet"];
    let mut docs: Vec<Doc> = vec![random_doc(rng)];
    let mut net = *nets.choose(rng).unwrap();
    let mut key = ("-", String::new());
    let mut fresh = true;
    let rk = ranks();
    let rank = |k: &str| rk.iter().position(|x| x == k).map(|x| x as i64).unwrap_or(-1);
    for step in 0..n {
        if fresh || rng.gen_bool(0.25) {
            net = *nets.choose(rng).unwrap();
            let (t, k, class) = random_file(rng, port, net);
            key = (class, k);
            let _ = std::fs::remove_file(&real);
            std::fs::write(&real, &t).unwrap();
            std::fs::set_permissions(&real, std::fs::Permissions::from_mode(*[0o600, 0o640, 0o644].choose(rng).unwrap())).unwrap();
            let (p, f) = parse(&real);
            tr.push(json!({"op": "reset", "file": f, "parses": p}));
            fresh = false;
        }
        while docs.len() < 30 && rng.gen_bool(0.7) {
            docs.push(random_doc(rng));
        }
        let vers: Vec<(String, [u8; 32])> = (0..docs.len()).map(|i| word(1 + i as u128 + seed as u128 % 3 * (1 << 70), seed % 5 == 0)).collect();
        let url = |n: &str| format!("http://127.0.0.1:{port}/S3CRET-{n}");
        let opt = |rng: &mut Rng, p: f64, v: String| if rng.gen_bool(p) { v } else { "-".to_string() };
        let mut anet = if rng.gen_bool(0.96) { net } else { nets.choose(rng).unwrap() };
        let noflag = anet == "Mainnet" && rng.gen_bool(0.4); // the default network
        if noflag {
            anet = "Mainnet";
        }
        let registry = if rng.gen_bool(0.03) { "bad".into() } else { opt(rng, if anet == "Devnet" { 0.9 } else { 0.2 }, OTHER.into()) };
        let rpc = opt(rng, if anet == "Mainnet" { 0.4 } else { 0.9 }, url("flag"));
        let env = json!({
            "net": if rng.gen_bool(0.08) { if rng.gen_bool(0.6) { &anet } else { nets.choose(rng).unwrap() }.to_string() } else if false { nets.choose(rng).unwrap().to_string() } else { "-".into() },
            "read": if rng.gen_bool(0.08) { ["true", "false", "false", "True", "1", ""].choose(rng).unwrap().to_string() } else { "-".into() },
            "l1": if rng.gen_bool(0.2) { if rng.gen_bool(0.2) { String::new() } else { url("env") } } else { "-".into() }});
        let chain = if rng.gen_bool(0.06) { ["1", "10", "11155111", "17"].choose(rng).unwrap().to_string() } else {
            match anet { "Mainnet" => "1".to_string(), "Testnet" => "11155111".into(), _ => "31337".into() } };
        let fault = if rng.gen_bool(0.2) { *["http", "text", "error", "both", "null", "garbage", "cut", "close", "edit", "edit"].choose(rng).unwrap() } else if rng.gen_bool(0.02) { "huge" } else { "none" };
        let at = *["chain", "block", "version", "toml", "toml"].choose(rng).unwrap();
        // what each fault spoils: a chain number or block hash is only looked up inside the result
        let fault = match (fault, at) {
            ("both", "chain" | "block") => "http",
            ("garbage" | "cut", "block" | "chain") => "null",
            ("edit", _) => "edit",
            (f, _) => f,
        };
        let before = std::fs::read(&real).unwrap();
        let link = rng.gen_bool(0.3);
        let cfg = if link {
            let p = dir.path().join("link.toml");
            let _ = std::fs::remove_file(&p);
            std::os::unix::fs::symlink("config.toml", &p).unwrap();
            p
        } else {
            real.clone()
        };
        let mode = std::fs::metadata(&real).unwrap().permissions().mode();
        let op = rng.gen_range(0..10);
        {
            let mut s = st.lock().unwrap();
            *s = Server { chain: chain.clone(), fault: fault.into(), at: at.into(), docs: docs.clone(), vers: vers.clone(), head: rng.gen_range(0..docs.len()), moves: rng.gen_bool(0.5), ..Default::default() };
            let mut edited = String::from_utf8(before.clone()).unwrap();
            edited = format!("edited_{step} = true\n{edited}");
            s.edit = Some((real.clone(), edited));
        }
        let secretkeys: Vec<String> = (1..=9u8).flat_map(|s| [hex::encode([s; 32]), hex::encode([s; 32]).to_uppercase()]).collect();
        let leak = |o: &Out| {
            let all = format!("{}{}", o.stdout, o.stderr);
            all.contains("S3CRET") || secretkeys.iter().any(|k| all.contains(&k[..40]))
        };
        let envs = [("SNAPCHAIN_FC_NETWORK", env["net"].as_str().unwrap().to_string()), ("SNAPCHAIN_READ_NODE", env["read"].as_str().unwrap().to_string()), ("SNAPCHAIN_L1_RPC_URL", env["l1"].as_str().unwrap().to_string())];
        let mut args: Vec<String> = vec![];
        if !noflag {
            args.extend(["--network".into(), anet.to_lowercase()]);
        }
        args.push("config".into());
        let common = |args: &mut Vec<String>| {
            if registry != "-" {
                args.extend(["--registry".into(), if registry == "bad" { "0x12".into() } else { registry.clone() }]);
            }
            if rpc != "-" {
                args.extend(["--rpc-url".into(), rpc.clone()]);
            }
        };
        if op < 7 {
            args.push("pull".into());
            common(&mut args);
            let (dry, report, keep) = (rng.gen_bool(0.2), rng.gen_bool(0.45), rng.gen_bool(0.3));
            let (dry, report) = if dry && report && rng.gen_bool(0.8) { (true, false) } else { (dry, report) };
            args.extend(["--config".into(), cfg.display().to_string()]);
            if dry {
                args.push("--dry-run".into());
            }
            let rep = dir.path().join("report");
            let _ = std::fs::remove_file(&rep);
            if report {
                args.extend(["--report-version".into(), rep.display().to_string()]);
            }
            if keep {
                args.push("--accept-local-bootstrap-peers-config".into());
            }
            // leftovers of earlier runs, and files that only look similar
            let stale = dir.path().join(".config.toml.tmp.99999999");
            let others = [dir.path().join(".other.toml.tmp.1"), dir.path().join("config.toml.bak"), dir.path().join(".config.toml")];
            if rng.gen_bool(0.3) {
                std::fs::write(&stale, "stale S3CRET").unwrap();
            }
            for p in &others {
                std::fs::write(p, "other").unwrap();
            }
            let o = fc(bin, &args, &envs);
            let s = st.lock().unwrap().clone();
            let (parses, file) = parse(&real);
            let now = std::fs::read(&real).unwrap_or_default();
            let mut left: Vec<String> = std::fs::read_dir(dir.path()).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().to_string())
                .filter(|n| n.contains(".tmp.") && n != ".other.toml.tmp.1").collect();
            if !(o.ok && !dry) {
                // swept only by a run that gets to write
                left.retain(|n| n != ".config.toml.tmp.99999999");
                let _ = std::fs::remove_file(&stale);
            }
            for p in &others {
                if std::fs::read_to_string(p).ok().as_deref() != Some("other") {
                    left.push(format!("lost {}", p.file_name().unwrap().to_string_lossy()));
                }
            }
            let shown = if dry { toml::from_str::<toml::Table>(&o.stdout).ok().map(|t| flat(&t)) } else { None };
            let toml_blk = s.log.iter().rev().find(|x| x.0 == "toml").map(|x| x.1).unwrap_or(s.head).min(docs.len() - 1);
            let blockat = s.log.iter().find(|x| x.0 == "block").map(|x| format!("hash 0x{:064x}", x.1));
            let hows: Vec<&String> = s.log.iter().filter(|x| x.0 == "version" || x.0 == "toml").map(|x| &x.2).collect();
            let pin = if hows.iter().all(|x| *x == "latest") { "latest" } else if hows.len() == 2 && hows.iter().all(|x| Some((*x).clone()) == blockat) { "same" } else { "other" };
            let kept = s.edited && std::fs::read_to_string(&real).map(|t| t.contains(&format!("edited_{step}"))).unwrap_or(false);
            tr.push(json!({"op": "pull", "a": {"net": anet, "registry": registry, "rpc": rpc, "dry": dry, "report": report, "keep": keep}, "env": env,
                "sv": {"chain": chain, "fault": fault, "at": if fault == "edit" { "toml" } else { at }},
                "doc": docs[toml_blk].json(), "ver": vers[toml_blk].0,
                "res": {"ok": o.ok, "file": file, "parses": parses, "same": now == before, "shown": shown.unwrap_or_default(),
                    "report": std::fs::read_to_string(&rep).map(|t| t.strip_suffix('\n').unwrap_or("?").to_string()).unwrap_or("-".into()),
                    "left": left, "mode": std::fs::metadata(&real).map(|m| m.permissions().mode() == mode).unwrap_or(false),
                    "link": !link || std::fs::symlink_metadata(&cfg).map(|m| m.file_type().is_symlink()).unwrap_or(false),
                    "leak": leak(&o), "url": s.url.map(|u| format!("http://127.0.0.1:{port}{u}")).unwrap_or("-".into()), "to": s.to.clone().unwrap_or("-".into()),
                    "pin": pin, "edited": s.edited, "kept": kept, "err": if o.ok { String::new() } else { o.stderr.chars().take(160).collect() }}}));
        } else if op < 8 {
            args.push("version".into());
            common(&mut args);
            let with_file = rng.gen_bool(0.8);
            if !with_file {
                tr.push(json!({"op": "reset", "file": {}, "parses": true}));
            } else {
                args.extend(["--config".into(), cfg.display().to_string()]);
            }
            let o = fc(bin, &args, &envs);
            let s = st.lock().unwrap().clone();
            let blk = s.log.iter().rev().find(|x| x.0 == "version").map(|x| x.1).unwrap_or(s.head).min(docs.len() - 1);
            tr.push(json!({"op": "version", "a": {"net": anet, "registry": registry, "rpc": rpc}, "env": env,
                "sv": {"chain": chain, "fault": fault, "at": at}, "ver": vers[blk].0,
                "res": {"ok": o.ok, "out": o.stdout.trim(), "same": std::fs::read(&real).unwrap_or_default() == before, "leak": leak(&o),
                    "url": s.url.map(|u| format!("http://127.0.0.1:{port}{u}")).unwrap_or("-".into()), "to": s.to.clone().unwrap_or("-".into()),
                    "err": if o.ok { String::new() } else { o.stderr.chars().take(160).collect() }}}));
            if !with_file {
                let (p, f) = parse(&real);
                tr.push(json!({"op": "reset", "file": f, "parses": p}));
            }
        } else {
            let (parses, f) = parse(&real);
            let t = std::fs::read_to_string(&real).ok().and_then(|t| toml::from_str::<toml::Table>(&t).ok()).unwrap_or_default();
            let sets = t.get("consensus").and_then(|c| c.get("validator_sets"));
            let mut keys = vec![];
            let class = match sets.and_then(|s| s.as_array()) {
                None => "none",
                Some(a) => {
                    let mut c = "ok";
                    for e in a {
                        if e.as_table().map(|t| t.len()) != Some(3) {
                            c = "shape";
                        }
                        for k in e.get("validator_public_keys").and_then(|k| k.as_array()).into_iter().flatten() {
                            keys.push(rank(&k.as_str().unwrap().to_lowercase()));
                        }
                    }
                    c
                }
            };
            let es = rng.gen_range(1..10u8);
            let (envk, envclass) = match rng.gen_range(0..8) {
                0 => (hex::encode([es; 32]), "good"),
                1 => ("S3CRET".to_string(), "bad"),
                2 => (String::new(), "bad"),
                _ => ("-".into(), "-"),
            };
            args = vec!["config".into(), "slot".into(), "--config".into(), cfg.display().to_string()];
            let o = fc(bin, &args, &[("SNAPCHAIN_CONSENSUS__PRIVATE_KEY", envk)]);
            let nums: Vec<i64> = o.stdout.split_whitespace().filter_map(|x| x.parse().ok()).collect();
            let has_consensus = t.get("consensus").is_some();
            let filekey = if has_consensus { key.0 } else { "-" };
            tr.push(json!({"op": "slot", "env": if has_consensus { envclass } else { "-" }, "file": filekey, "envrank": rank(&pubkey(es)), "filerank": rank(&key.1),
                "keys": keys, "sets": class, "vs": if parses { f.get("consensus.validator_sets").cloned().unwrap_or(json!("-")) } else { json!("-") },
                "res": {"ok": o.ok, "index": nums.first().copied().unwrap_or(-1), "count": nums.get(1).copied().unwrap_or(-1), "leak": leak(&o), "err": o.stderr.chars().take(160).collect::<String>()}}));
        }
        let (p, _) = parse(&real);
        if !p {
            fresh = true;
        }
    }
    stop.store(true, Ordering::SeqCst);
    let _ = std::net::TcpStream::connect(("127.0.0.1", port));
    let _ = h.join();
    // ports differ from run to run
    let pat = format!("127.0.0.1:{port}/");
    for v in tr.iter_mut() {
        *v = serde_json::from_str(&v.to_string().replace(&pat, "127.0.0.1:P/")).unwrap();
    }
}

/// One pull of each document shape the specification listed.
fn listed(bin: &Path, beh: &[Value], part: usize, tr: &mut Vec<Value>) {
    let dir = tmp();
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let port = l.local_addr().unwrap().port();
    let st = Arc::new(Mutex::new(Server::default()));
    let stop = Arc::new(AtomicBool::new(false));
    let h = {
        let (st, stop) = (st.clone(), stop.clone());
        std::thread::spawn(move || serve(l, st, stop))
    };
    let real = dir.path().join("config.toml");
    for b in beh.iter().skip(part).step_by(8) {
        std::fs::write(&real, "fc_network = \"Devnet\"\n[consensus]\nprivate_key = \"00\"\n[gossip]\nbootstrap_peers = \"mine\"\n").unwrap();
        let (parses, file) = parse(&real);
        tr.push(json!({"op": "reset", "file": file, "parses": parses}));
        let sets: Vec<(u64, Vec<(&'static str, String)>, Vec<u32>)> = b.as_array().unwrap().iter().map(|e| {
            (e["at"].as_u64().unwrap(), vec![("good", pubkey(1))], e["shards"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect())
        }).collect();
        let mut text = String::new();
        for (at, k, s) in &sets {
            text += &format!("[[consensus.validator_sets]]\neffective_at = {at}\nvalidator_public_keys = [\"{}\"]\nshard_ids = {s:?}\n", k[0].1);
        }
        text += "[gossip]\nbootstrap_peers = \"b\"\ndirect_peers = \"\"\n";
        let doc = Doc { text, shape: "ok", sets, bp: "b".into(), dp: "".into() };
        *st.lock().unwrap() = Server { chain: "9".into(), fault: "none".into(), at: "toml".into(), docs: vec![doc.clone()], vers: vec![word(1, false)], ..Default::default() };
        let before = std::fs::read(&real).unwrap();
        let url = format!("http://127.0.0.1:{port}/");
        let args: Vec<String> = ["--network", "devnet", "config", "pull", "--registry", OTHER, "--rpc-url", &url, "--config", real.to_str().unwrap()].iter().map(|s| s.to_string()).collect();
        let o = fc(bin, &args, &[]);
        let (parses, file) = parse(&real);
        tr.push(json!({"op": "pull", "a": {"net": "Devnet", "registry": OTHER, "rpc": url, "dry": false, "report": false, "keep": false},
            "env": {"net": "-", "read": "-", "l1": "-"}, "sv": {"chain": "9", "fault": "none", "at": "toml"}, "doc": doc.json(), "ver": "1",
            "res": {"ok": o.ok, "file": file, "parses": parses, "same": std::fs::read(&real).unwrap() == before, "shown": {}, "report": "-", "left": [],
                "mode": true, "link": true, "leak": false, "url": url, "to": OTHER, "pin": "latest", "edited": false, "kept": false, "err": o.stderr.chars().take(160).collect::<String>()}}));
    }
    stop.store(true, Ordering::SeqCst);
    let _ = std::net::TcpStream::connect(("127.0.0.1", port));
    let _ = h.join();
    let pat = format!("127.0.0.1:{port}/");
    for v in tr.iter_mut() {
        *v = serde_json::from_str(&v.to_string().replace(&pat, "127.0.0.1:P/")).unwrap();
    }
}

pub fn run(ctx: &Ctx) {
    let beh = Arc::new(ctx.behaviours());
    let bin = std::env::current_exe().unwrap().parent().unwrap().join("fc");
    let total = ctx.scale(110, 1200) + 8;
    let steps = 8;
    let next = Arc::new(Mutex::new(0usize));
    let results = Arc::new(Mutex::new(vec![vec![]; total]));
    let hs: Vec<_> = (0..8).map(|_| {
        let (next, results, bin, seed, beh) = (next.clone(), results.clone(), bin.clone(), ctx.seed, beh.clone());
        std::thread::spawn(move || loop {
            let i = {
                let mut n = next.lock().unwrap();
                if *n >= total {
                    return;
                }
                *n += 1;
                *n - 1
            };
            let mut tr = vec![];
            if i < 8 {
                listed(&bin, &beh, i, &mut tr);
            } else {
                history(&bin, seed.wrapping_mul(1_000_003) + i as u64, steps, &mut tr);
            }
            results.lock().unwrap()[i] = tr;
        })
    }).collect();
    for h in hs {
        h.join().unwrap();
    }
    let results = results.lock().unwrap();
    for (k, chunk) in results.chunks(total.div_ceil(4)).enumerate() {
        let mut t = ctx.trace(&format!("fc-{k}"));
        for r in chunk.iter().flatten() {
            t.rec(r.clone());
        }
    }
}
