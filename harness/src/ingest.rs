//! The readers of chains and of the name server, run against stand-ins for both.
use crate::common::*;
use alloy_dyn_abi::DynSolValue;
use alloy_primitives::{keccak256, Address, B256, U256};
use rand::Rng as _;
use serde_json::{json, Value};
use snapchain::connectors::fname;
use snapchain::connectors::onchain_events::*;
use snapchain::mempool::mempool::MempoolRequest;
use snapchain::proto::{on_chain_event::Body, FarcasterNetwork, OnChainEvent, SignerEventBody};
use snapchain::storage::db::RocksDB;
use snapchain::storage::store::mempool_poller::MempoolMessage;
use snapchain::storage::store::node_local_state::{self, LocalStateStore};
use snapchain::storage::store::test_helper::statsd_client;
use snapchain::version::version::{EngineVersion, ProtocolFeature};
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Mutex};
use tokio::sync::{broadcast, mpsc, Notify};

// ---------------------------------------------------------------- a small HTTP server

type Handler = Arc<dyn Fn(&str, &str, &[u8]) -> (u16, Vec<u8>) + Send + Sync>;

fn http(handler: Handler) -> String {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let url = format!("http://{}", l.local_addr().unwrap());
    std::thread::spawn(move || {
        for c in l.incoming() {
            let h = handler.clone();
            std::thread::spawn(move || {
                let _ = talk(c.unwrap(), h);
            });
        }
    });
    url
}

fn talk(c: TcpStream, h: Handler) -> std::io::Result<()> {
    c.set_nodelay(true)?;
    let mut r = BufReader::new(c.try_clone()?);
    let mut w = c;
    loop {
        let mut line = String::new();
        if r.read_line(&mut line)? == 0 {
            return Ok(());
        }
        let mut parts = line.split(' ');
        let method = parts.next().unwrap_or("").to_string();
        let target = parts.next().unwrap_or("").to_string();
        let mut n = 0usize;
        loop {
            let mut l = String::new();
            r.read_line(&mut l)?;
            let l = l.trim_end();
            if l.is_empty() {
                break;
            }
            if let Some((k, v)) = l.split_once(':') {
                if k.eq_ignore_ascii_case("content-length") {
                    n = v.trim().parse().unwrap_or(0);
                }
            }
        }
        let mut body = vec![0; n];
        r.read_exact(&mut body)?;
        let (code, out) = h(&method, &target, &body);
        let mut resp = format!("HTTP/1.1 {code} X\r\nContent-Length: {}\r\nContent-Type: application/json\r\n\r\n", out.len()).into_bytes();
        resp.extend(out);
        w.write_all(&resp)?;
        w.flush()?;
    }
}

// ---------------------------------------------------------------- the chain

const STORAGE: &str = "0x00000000fcce7f938e7ae6d3c335bd6a1a7c593d";
const KEY: &str = "0x00000000fc1237824fb747abde0ff18990e59b7e";
const ID: &str = "0x00000000fc6c5f01fc30151999387bb99a9f489b";
const TIER: &str = "0x00000000fc84484d585c3cf48d213424dfde43fd";
const TIER2: &str = "0x1111111111111111111111111111111111111111";
const CTRL: &str = "0x2222222222222222222222222222222222222222";
const TOKEN: &str = "0x3333333333333333333333333333333333333333";
const OTHER: &str = "0x4444444444444444444444444444444444444444";
const ENS_L1: &str = "0x00000000000c2e074ec69a0dfb2997ba6c7d2e1e";
const ENS_OTHER: &str = "0x5555555555555555555555555555555555555555";
const OP_FIRST: u64 = 108864739;
const BASE_FIRST: u64 = 31180908;

#[derive(Clone)]
struct Log {
    rpc: Value,
    j: Value,
    block: u64,
}

fn hx(b: &[u8]) -> String {
    format!("0x{}", hex::encode(b))
}
fn word(n: u64) -> B256 {
    B256::from(U256::from(n))
}
fn aw(a: &Address) -> B256 {
    a.into_word()
}
fn some_addr(rng: &mut Rng) -> Address {
    Address::from(rng.gen::<[u8; 20]>())
}
fn block_hash(b: u64) -> B256 {
    keccak256(b.to_be_bytes())
}
fn block_ts(b: u64) -> u64 {
    1_600_000_000 + (b % 1_000_000)
}

fn make_log(rng: &mut Rng, op: bool, tier_addr: &str, block: u64, l: u64, fids: &[u64], flawed: bool) -> Log {
    let kinds_op = ["Rent", "Register", "Transfer", "ChangeRecoveryAddress", "Add", "Remove", "AdminReset", "Migrated", "Unknown"];
    let kinds_base = ["PurchasedTier", "NameRegistered", "NameRenewed", "Transfer", "Unknown"];
    let kind = if op { kinds_op[rng.gen_range(0..kinds_op.len())] } else { kinds_base[rng.gen_range(0..kinds_base.len())] };
    let fid = fids[rng.gen_range(0..fids.len())];
    let mut flaw = "";
    let mut fid_topic = word(fid);
    let (a1, a2, rec) = (some_addr(rng), some_addr(rng), some_addr(rng));
    let key: Vec<u8> = (0..32).map(|_| rng.gen()).collect();
    let meta: Vec<u8> = (0..rng.gen_range(0..70)).map(|_| rng.gen()).collect();
    let (units, tier, days, exp, kt, mt, at) = (rng.gen_range(0..50u64), rng.gen_range(0..3u64), rng.gen_range(0..800u64), rng.gen_range(1..2_000_000_000u64), rng.gen_range(0..4u32), rng.gen_range(0..3u8), rng.gen_range(0..100_000u32));
    let ck = ["chan", "a-b", "é", ""][rng.gen_range(0..4)].to_string();
    let lab = keccak256(ck.as_bytes());
    let mut name_bytes = ck.as_bytes().to_vec();
    let mut exp_v = U256::from(exp);
    let mut units_v = U256::from(units);
    if flawed {
        flaw = match (kind, rng.gen_range(0..6)) {
            ("NameRegistered" | "NameRenewed", 0..=2) => "badutf8",
            ("NameRegistered" | "NameRenewed", 3) => "bigexp",
            ("Rent", 0 | 1) => "bigunits",
            ("Rent" | "Register" | "ChangeRecoveryAddress" | "Add" | "Remove" | "AdminReset" | "PurchasedTier", 2 | 3) => "bigfid",
            (_, 4) => "nohash",
            (_, 5) => "noblock",
            (_, _) => "topics",
        };
        match flaw {
            "badutf8" => name_bytes = vec![b'a', 0xff, 0xfe],
            "bigexp" => exp_v = U256::from(u64::MAX) + U256::from(rng.gen_range(1..9u64)),
            "bigunits" => units_v = U256::from(u32::MAX) + U256::from(rng.gen_range(1..9u64)),
            "bigfid" => fid_topic = B256::from((U256::from(1) << 64) + U256::from(fid)),
            _ => {}
        }
    }
    let uint = |v: U256| DynSolValue::Uint(v, 256);
    let bytes = |b: &[u8]| DynSolValue::Bytes(b.to_vec());
    let (c, sig, mut topics, data): (&str, &str, Vec<B256>, Vec<DynSolValue>) = match kind {
        "Rent" => ("storage", "Rent(address,uint256,uint256)", vec![aw(&a1), fid_topic], vec![uint(units_v)]),
        "Register" => ("id", "Register(address,uint256,address)", vec![aw(&a1), fid_topic], vec![DynSolValue::Address(rec)]),
        "Transfer" if op => ("id", "Transfer(address,address,uint256)", vec![aw(&a2), aw(&a1), fid_topic], vec![]),
        "Transfer" => ("token", "Transfer(address,address,uint256)", vec![aw(&a2), aw(&a1), lab], vec![]),
        "ChangeRecoveryAddress" => ("id", "ChangeRecoveryAddress(uint256,address)", vec![fid_topic, aw(&rec)], vec![]),
        "Add" => ("key", "Add(uint256,uint32,bytes,bytes,uint8,bytes)", vec![fid_topic, word(kt as u64), keccak256(&key)], vec![bytes(&key), DynSolValue::Uint(U256::from(mt), 8), bytes(&meta)]),
        "Remove" => ("key", "Remove(uint256,bytes,bytes)", vec![fid_topic, keccak256(&key)], vec![bytes(&key)]),
        "AdminReset" => ("key", "AdminReset(uint256,bytes,bytes)", vec![fid_topic, keccak256(&key)], vec![bytes(&key)]),
        "Migrated" => ("key", "Migrated(uint256)", vec![word(at as u64)], vec![]),
        "PurchasedTier" => ("tier", "PurchasedTier(uint256,uint256,uint256,address)", vec![fid_topic, word(tier), aw(&a1)], vec![uint(U256::from(days))]),
        "NameRegistered" => ("ctrl", "NameRegistered(string,bytes32,address,uint256)", vec![lab, aw(&a1)], vec![bytes(&name_bytes), uint(exp_v)]),
        "NameRenewed" => ("ctrl", "NameRenewed(string,bytes32,uint256)", vec![lab], vec![bytes(&name_bytes), uint(exp_v)]),
        _ => (if op { "id" } else { "ctrl" }, "AddOwner(address)", vec![word(fid)], vec![]),
    };
    // the same event from a contract nobody watches
    let c = if rng.gen_bool(0.06) { "other" } else { c };
    topics.insert(0, keccak256(sig.as_bytes()));
    if flaw == "topics" {
        topics.pop();
        if topics.is_empty() {
            flaw = "nohash";
        }
    }
    if flaw == "topics" && kind == "Unknown" {
        flaw = "";
    }
    let address = match c {
        "storage" => STORAGE,
        "key" => KEY,
        "id" => ID,
        "tier" => tier_addr,
        "ctrl" => CTRL,
        "token" => TOKEN,
        _ => OTHER,
    };
    let x = rng.gen_range(0..300u64);
    let th = keccak256([block.to_be_bytes(), l.to_be_bytes()].concat());
    let bh = if flaw == "noblock" { B256::repeat_byte(0xee) } else { block_hash(block) };
    let rpc = json!({
        "address": address,
        "topics": topics.iter().map(|t| hx(t.as_slice())).collect::<Vec<_>>(),
        "data": hx(&DynSolValue::Tuple(data).abi_encode_params()),
        "blockNumber": format!("0x{block:x}"),
        "transactionHash": hx(th.as_slice()),
        "transactionIndex": format!("0x{x:x}"),
        "blockHash": if flaw == "nohash" { Value::Null } else { json!(hx(bh.as_slice())) },
        "logIndex": format!("0x{l:x}"),
        "removed": false
    });
    let j = json!({"c": c, "b": block, "x": x, "l": l, "ts": block_ts(block), "bh": hex::encode(bh), "th": hex::encode(th), "kind": kind, "flaw": flaw,
        "fid": fid.to_string(), "a1": hex::encode(a1), "a2": hex::encode(a2), "rec": hex::encode(rec), "key": hex::encode(&key), "kt": kt, "meta": hex::encode(&meta),
        "mt": mt, "units": units, "tier": tier, "days": days, "exp": exp, "ck": ck, "lab": hex::encode(lab), "at": at});
    Log { rpc, j, block }
}

fn event(e: &OnChainEvent) -> Value {
    let mut j = json!({"tn": e.r#type, "f": e.fid.to_string(), "k": "", "b": e.block_number, "x": e.tx_index, "l": e.log_index, "ts": e.block_timestamp,
        "bh": hex::encode(&e.block_hash), "th": hex::encode(&e.transaction_hash), "cid": e.chain_id, "a1": "", "a2": "", "rec": "", "key": "", "kt": 0,
        "meta": "", "mt": 0, "units": 0, "exp": 0, "tier": 0, "days": 0, "ck": "", "lab": "", "at": 0});
    let num = |n: u64| json!(n.min(i32::MAX as u64));
    match e.body.as_ref().unwrap() {
        Body::SignerEventBody(b) => {
            j["k"] = json!(["none", "add", "remove", "reset"].get(b.event_type as usize).unwrap_or(&"?"));
            j["key"] = json!(hex::encode(&b.key));
            j["kt"] = num(b.key_type as u64);
            j["meta"] = json!(hex::encode(&b.metadata));
            j["mt"] = num(b.metadata_type as u64);
        }
        Body::SignerMigratedEventBody(b) => j["at"] = num(b.migrated_at as u64),
        Body::IdRegisterEventBody(b) => {
            j["k"] = json!(["none", "register", "transfer", "recovery"].get(b.event_type as usize).unwrap_or(&"?"));
            j["a1"] = json!(hex::encode(&b.to));
            j["a2"] = json!(hex::encode(&b.from));
            j["rec"] = json!(hex::encode(&b.recovery_address));
        }
        Body::StorageRentEventBody(b) => {
            j["a1"] = json!(hex::encode(&b.payer));
            j["units"] = num(b.units as u64);
            j["exp"] = num(b.expiry as u64);
        }
        Body::TierPurchaseEventBody(b) => {
            j["a1"] = json!(hex::encode(&b.payer));
            j["tier"] = num(b.tier_type as u64);
            j["days"] = num(b.for_days);
        }
        Body::ChannelRegisterEventBody(b) => {
            j["k"] = json!(["none", "register", "renew", "transfer"].get(b.event_type as usize).unwrap_or(&"?"));
            j["ck"] = json!(b.channel_key);
            j["exp"] = num(b.expiry);
            j["a1"] = json!(hex::encode(&b.owner_address));
            j["lab"] = json!(hex::encode(&b.label));
        }
    }
    j
}

#[derive(Default)]
struct Chain {
    logs: Vec<Log>,
    /// the heads to report, one per question (or per look at the filter)
    heads: Vec<u64>,
    head: u64,
    head0: Option<u64>,
    asks: Vec<Value>,
    fail: HashMap<String, Vec<usize>>,
    calls: HashMap<String, usize>,
    total: usize,
    /// stop everything at this call
    crash_at: usize,
    idle: usize,
    filter: Option<Value>,
    filter_from: u64,
    root: Option<B256>,
    token: Option<Address>,
    ens: String,
    sent: Option<mpsc::Sender<MempoolRequest>>,
    db: Option<LocalStateStore>,
    base: bool,
    // for name resolution
    resolver: Option<Address>,
    addr: Option<Address>,
    registry_fault: bool,
    addr_fault: bool,
    nodes: Vec<(String, Vec<u8>)>,
}

fn num(v: &Value) -> Option<u64> {
    v.as_str().and_then(|s| u64::from_str_radix(s.trim_start_matches("0x"), 16).ok())
}

impl Chain {
    fn name(a: &str, tier: &str) -> String {
        match a.to_lowercase().as_str() {
            STORAGE => "storage",
            KEY => "key",
            ID => "id",
            CTRL => "ctrl",
            TOKEN => "token",
            a if a == tier => "tier",
            _ => "other",
        }
        .to_string()
    }
    fn position(&self) -> u64 {
        let c = if self.base { node_local_state::Chain::Base } else { node_local_state::Chain::Optimism };
        self.db.as_ref().map(|d| d.get_latest_block_number(c).unwrap().unwrap_or(0)).unwrap_or(0)
    }
    fn so_far(&self) -> usize {
        self.sent.as_ref().map(|t| t.max_capacity() - t.capacity()).unwrap_or(0)
    }
    fn select(&self, f: &Value, from: u64, to: u64) -> Vec<Value> {
        let addrs: Vec<String> = match &f["address"] {
            Value::String(s) => vec![s.to_lowercase()],
            Value::Array(a) => a.iter().map(|s| s.as_str().unwrap().to_lowercase()).collect(),
            _ => vec![],
        };
        let topics = f["topics"].as_array().cloned().unwrap_or_default();
        self.logs
            .iter()
            .filter(|g| {
                g.block >= from
                    && g.block <= to
                    && (addrs.is_empty() || addrs.contains(&g.rpc["address"].as_str().unwrap().to_string()))
                    && topics.iter().enumerate().all(|(i, t)| {
                        let have = &g.rpc["topics"][i];
                        match t {
                            Value::Null => true,
                            Value::Array(a) => a.is_empty() || a.contains(have),
                            t => t == have,
                        }
                    })
            })
            .map(|g| g.rpc.clone())
            .collect()
    }
    fn next_head(&mut self) -> u64 {
        if !self.heads.is_empty() {
            self.head = self.heads.remove(0);
        }
        self.head0.get_or_insert(self.head);
        self.head
    }
    fn ask(&mut self, from: u64, to: u64) {
        let a = json!({"from": from, "to": to.min(i32::MAX as u64), "db": self.position(), "sent": self.so_far()});
        self.asks.push(a);
    }
    fn block(&self, n: u64) -> Value {
        let z = hx(&[0; 32]);
        json!({"hash": hx(block_hash(n).as_slice()), "parentHash": z, "sha3Uncles": z, "miner": hx(&[0; 20]), "stateRoot": z, "transactionsRoot": z, "receiptsRoot": z,
            "logsBloom": hx(&[0; 256]), "difficulty": "0x0", "number": format!("0x{n:x}"), "gasLimit": "0x1", "gasUsed": "0x0", "timestamp": format!("0x{:x}", block_ts(n)),
            "extraData": "0x", "mixHash": z, "nonce": "0x0000000000000000", "size": "0x1", "transactions": [], "uncles": []})
    }
}

fn rpc(chain: &Mutex<Chain>, stop: &Notify, body: &[u8]) -> (u16, Vec<u8>) {
    let q: Value = serde_json::from_slice(body).unwrap_or(Value::Null);
    let mut c = chain.lock().unwrap();
    let m = q["method"].as_str().unwrap_or("").to_string();
    c.total += 1;
    if c.crash_at > 0 && c.total >= c.crash_at {
        stop.notify_one();
        return (500, b"gone".to_vec());
    }
    let n = *c.calls.entry(m.clone()).and_modify(|n| *n += 1).or_insert(1);
    c.idle = if m == "eth_getFilterChanges" { c.idle + 1 } else { 0 };
    let failing = c.fail.get(&m).is_some_and(|f| f.contains(&n));
    if failing {
        return if n % 2 == 0 {
            (500, b"oops".to_vec())
        } else {
            (200, json!({"jsonrpc": "2.0", "id": q["id"], "error": {"code": -32000, "message": "try later"}}).to_string().into_bytes())
        };
    }
    let p = &q["params"];
    let r: Result<Value, ()> = match m.as_str() {
        "eth_getBlockByNumber" => {
            if c.base && c.heads.is_empty() && c.head0.is_some() {
                stop.notify_one();
            }
            let h = c.next_head();
            Ok(c.block(h))
        }
        "eth_getBlockByHash" => {
            let want = p[0].as_str().unwrap_or("").to_string();
            let b = c.logs.iter().map(|g| g.block).find(|b| hx(block_hash(*b).as_slice()) == want);
            Ok(b.map(|b| c.block(b)).unwrap_or(Value::Null))
        }
        "eth_getLogs" => {
            let f = p[0].clone();
            let (from, to) = (num(&f["fromBlock"]).unwrap_or(0), num(&f["toBlock"]).unwrap_or(i32::MAX as u64));
            c.ask(from, to);
            if c.asks.len() > 200 {
                // reading without end
                stop.notify_one();
            }
            Ok(json!(c.select(&f, from, to)))
        }
        "eth_newFilter" => {
            c.filter = Some(p[0].clone());
            c.filter_from = c.head + 1;
            Ok(json!("0x1"))
        }
        "eth_getFilterChanges" => {
            let done = c.heads.is_empty();
            if done && c.idle > 30 {
                stop.notify_one();
            }
            let from = c.filter_from;
            let h = c.next_head();
            let f = c.filter.clone().unwrap_or(Value::Null);
            let from = from.max(num(&f["fromBlock"]).unwrap_or(0));
            let to = h.min(num(&f["toBlock"]).unwrap_or(u64::MAX));
            c.filter_from = h + 1;
            Ok(json!(c.select(&f, from, to)))
        }
        "eth_call" => {
            let to = p[0]["to"].as_str().unwrap_or("").to_lowercase();
            let data = p[0]["input"].as_str().or(p[0]["data"].as_str()).unwrap_or("").to_string();
            let data = hex::decode(data.trim_start_matches("0x")).unwrap_or_default();
            let sel = |s: &str| keccak256(s.as_bytes())[..4].to_vec();
            let word = |b: &[u8]| json!(hx(b));
            if data.len() < 4 {
                Err(())
            } else if to == CTRL && data[..4] == sel("rootNode()") {
                c.root.map(|r| word(r.as_slice())).ok_or(())
            } else if to == c.ens && data[..4] == sel("owner(bytes32)") && Some(&data[4..]) == c.root.as_ref().map(|r| r.as_slice()) {
                c.token.map(|t| word(t.into_word().as_slice())).ok_or(())
            } else if to == c.ens && data[..4] == sel("resolver(bytes32)") {
                c.nodes.push(("resolver".into(), data[4..].to_vec()));
                if c.registry_fault { Err(()) } else { Ok(word(c.resolver.unwrap_or_default().into_word().as_slice())) }
            } else if Some(to.clone()) == c.resolver.map(|r| hx(r.as_slice())) && data[..4] == sel("addr(bytes32)") {
                c.nodes.push(("addr".into(), data[4..].to_vec()));
                if c.addr_fault { Err(()) } else { Ok(word(c.addr.unwrap_or_default().into_word().as_slice())) }
            } else {
                Err(())
            }
        }
        "eth_chainId" => Ok(json!("0xa")),
        "eth_uninstallFilter" => Ok(json!(true)),
        _ => Err(()),
    };
    let out = match r {
        Ok(v) => json!({"jsonrpc": "2.0", "id": q["id"], "result": v}),
        Err(()) => json!({"jsonrpc": "2.0", "id": q["id"], "error": {"code": 3, "message": "execution reverted"}}),
    };
    (200, out.to_string().into_bytes())
}

fn paused<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap().block_on(f)
}

struct Node {
    db: Arc<RocksDB>,
    _dir: tempfile::TempDir,
}
impl Node {
    fn new() -> Node {
        let dir = tmp();
        let db = Arc::new(RocksDB::new(dir.path().to_str().unwrap()));
        db.open().unwrap();
        Node { db, _dir: dir }
    }
    fn state(&self) -> LocalStateStore {
        LocalStateStore::new(self.db.clone())
    }
}

/// What one run of the reader is asked to do.
#[derive(Clone)]
struct Job {
    how: &'static str,
    start: i64,
    stop: i64,
    heads: Vec<u64>,
    fail: HashMap<String, Vec<usize>>,
    faults: &'static str,
    crash_at: usize,
    fid: u64,
}

struct World {
    chain: Arc<Mutex<Chain>>,
    stop: Arc<Notify>,
    url: String,
    op: bool,
    tier: Option<String>,
    ctrl: bool,
    ens: Option<String>,
    net: FarcasterNetwork,
}

impl World {
    fn new(op: bool) -> World {
        let chain = Arc::new(Mutex::new(Chain { base: !op, ens: ENS_L1.into(), ..Default::default() }));
        let stop = Arc::new(Notify::new());
        let (c, s) = (chain.clone(), stop.clone());
        let url = http(Arc::new(move |_, _, b| rpc(&c, &s, b)));
        World { chain, stop, url, op, tier: None, ctrl: false, ens: None, net: FarcasterNetwork::Devnet }
    }
    fn config(&self, start: i64, stop: i64) -> Config {
        Config {
            rpc_url: self.url.clone(),
            start_block_number: (start >= 0).then_some(start as u64),
            stop_block_number: (stop >= 0).then_some(stop as u64),
            override_tier_registry_address: self.tier.clone(),
            override_channel_registrar_address: self.ctrl.then(|| CTRL.to_string()),
            override_ens_registry_address: self.ens.clone(),
        }
    }
    fn run(&self, node: &Node, job: &Job) -> Value {
        let which = || if self.op { node_local_state::Chain::Optimism } else { node_local_state::Chain::Base };
        let db0 = node.state().get_latest_block_number(which()).unwrap().unwrap_or(0);
        let (tx, mut rx) = mpsc::channel(100_000);
        {
            let mut c = self.chain.lock().unwrap();
            c.heads = job.heads.clone();
            c.head0 = None;
            c.asks.clear();
            c.fail = job.fail.clone();
            c.calls.clear();
            c.total = 0;
            c.idle = 0;
            c.crash_at = job.crash_at;
            c.sent = Some(tx.clone());
            c.db = Some(node.state());
        }
        let (_keep, req) = broadcast::channel(4);
        let ret = paused(async {
            let mut sub = Subscriber::new(&self.config(job.start, job.stop), which(), self.net, tx, statsd_client(), node.state(), req).unwrap();
            let work = async {
                match job.how {
                    "historical" => sub.sync_historical_events(job.start as u64, job.stop as u64).await,
                    "run" => sub.run().await,
                    "retry_fid" => sub.retry_fid(job.fid).await,
                    _ => sub.retry_block_range(job.start as u64, job.stop as u64).await,
                }
            };
            tokio::select! {
                r = work => if r.is_ok() { "ok" } else { "err" },
                _ = self.stop.notified() => "cut",
            }
        });
        // a stop signalled as the run ended by itself must not reach the next one
        paused(async {
            tokio::select! { biased; _ = self.stop.notified() => {}, _ = std::future::ready(()) => {} }
        });
        let mut c = self.chain.lock().unwrap();
        c.sent = None;
        let mut evs = vec![];
        while let Ok(r) = rx.try_recv() {
            if let MempoolRequest::AddMessage(MempoolMessage::OnchainEvent(e), _, _) = r {
                evs.push(event(&e));
            } else {
                evs.push(json!("something else"));
            }
        }
        let db1 = node.state().get_latest_block_number(which()).unwrap().unwrap_or(0);
        json!({"op": "run", "how": job.how, "start": job.start, "stop": job.stop, "head": if job.how == "historical" { job.stop as u64 } else { c.head },
            "head0": c.head0.unwrap_or(0), "db0": db0, "db1": db1, "ret": ret, "asks": c.asks, "evs": evs, "faults": job.faults, "fid": job.fid.to_string(),
            "live": if self.op { "filter" } else { "poll" }})
    }
}

fn job(how: &'static str, start: i64, stop: i64) -> Job {
    Job { how, start, stop, heads: vec![], fail: HashMap::new(), faults: "none", crash_at: 0, fid: 0 }
}

fn chains(ctx: &Ctx) {
    let mut tr = ctx.trace("chains");
    for h in 0..ctx.scale(90, 900) {
        let mut rng = ctx.rng(1000 + h as u64);
        let op = rng.gen_bool(0.5);
        let first = if op { OP_FIRST } else { BASE_FIRST };
        let mut w = World::new(op);
        if !op && rng.gen_bool(0.5) {
            w.tier = Some(TIER2.into());
        }
        let tier = w.tier.clone().unwrap_or(TIER.into());
        let direct = rng.gen_bool(0.45);
        if !op {
            w.ctrl = rng.gen_bool(0.75);
        }
        if rng.gen_bool(0.3) {
            w.ens = Some(ENS_OTHER.into());
        }
        w.net = [FarcasterNetwork::Devnet, FarcasterNetwork::Mainnet, FarcasterNetwork::Testnet][rng.gen_range(0..3)];
        let active = EngineVersion::current(w.net).is_enabled(ProtocolFeature::ChannelRegistrations);
        let mut resolves = false;
        {
            let mut c = w.chain.lock().unwrap();
            c.ens = w.ens.clone().unwrap_or(ENS_L1.into());
            match rng.gen_range(0..10) {
                0 => {}
                1 => c.root = Some(B256::repeat_byte(7)),
                2 => {
                    c.root = Some(B256::repeat_byte(7));
                    c.token = Some(Address::ZERO);
                }
                _ => {
                    c.root = Some(B256::repeat_byte(7));
                    c.token = Some(TOKEN.parse().unwrap());
                    resolves = true;
                }
            }
        }
        let resolves = resolves && !direct;
        // blocks of interest lie around batch and page borders
        let base = first + if rng.gen_bool(0.3) { 0 } else { rng.gen_range(0..5000) };
        let span = *[3u64, 900, 1000, 1001, 2500, 8001, 17000].get(rng.gen_range(0..7)).unwrap();
        let fids: Vec<u64> = vec![1, 7, 1u64 << 40, u64::MAX];
        let mut places: Vec<u64> = (0..rng.gen_range(3..16)).map(|_| base + rng.gen_range(0..=span)).collect();
        for b in [0u64, 999, 1000, 1001, 2000, 7999, 8000, 8001, 16001, 16002] {
            if b <= span && rng.gen_bool(0.6) {
                places.push(base + b);
            }
        }
        places.push(base + span);
        if rng.gen_bool(0.3) {
            places.push(base.saturating_sub(1));
            places.push(first - 1);
        }
        places.sort();
        let flaws = rng.gen_bool(0.4);
        let mut logs = vec![];
        for (i, b) in places.iter().enumerate() {
            let f = flaws && rng.gen_bool(0.25);
            logs.push(make_log(&mut rng, op, &tier, *b, i as u64, &fids, f));
        }
        w.chain.lock().unwrap().logs = logs.clone();
        tr.rec(json!({"op": "world", "chain": if op { "op" } else { "base" }, "ctrl": w.ctrl, "resolves": resolves, "active": active, "logs": logs.iter().map(|l| l.j.clone()).collect::<Vec<_>>()}));
        let node = Node::new();
        let end = base + span;
        if direct {
            match rng.gen_range(0..4) {
                0 => {
                    for f in &fids {
                        let mut j = job("retry_fid", -1, -1);
                        j.fid = *f;
                        tr.rec(w.run(&node, &j));
                    }
                }
                1 => {
                    let (a, b) = (base + rng.gen_range(0..=span / 2), end - rng.gen_range(0..=span / 3));
                    if a <= b {
                        tr.rec(w.run(&node, &job("retry_range", a as i64, b as i64)));
                    }
                }
                _ => {
                    // a range read in two or three parts, some of them failing a while or for good
                    let mut at = base;
                    for _ in 0..rng.gen_range(1..=3) {
                        let to = (at + rng.gen_range(0..=span)).min(end);
                        let mut j = job("historical", at as i64, to as i64);
                        match rng.gen_range(0..6) {
                            0 => {
                                // five failures in a row are survived
                                let f = rng.gen_range(1..4);
                                j.fail.insert("eth_getLogs".into(), (f..f + 5).collect());
                            }
                            1 => {
                                j.fail.insert("eth_getBlockByHash".into(), (1..=rng.gen_range(1..=5)).collect());
                            }
                            2 => {
                                let f = rng.gen_range(1..3);
                                j.fail.insert("eth_getLogs".into(), (f..f + 600).collect());
                                j.faults = "deadly";
                            }
                            _ => {}
                        }
                        let mut v = w.run(&node, &j);
                        let first = j.fail.get("eth_getLogs").map(|f| f[0]).unwrap_or(0);
                        if j.faults == "deadly" && w.chain.lock().unwrap().calls.get("eth_getLogs").copied().unwrap_or(0) < first {
                            v["faults"] = json!("none");
                        }
                        at = v["db1"].as_u64().unwrap().max(at);
                        tr.rec(v);
                        if at >= end {
                            break;
                        }
                    }
                }
            }
        } else {
            // whole runs: read what is there, then follow; crash and come back
            let with_start = rng.gen_bool(0.8);
            let start: i64 = if with_start { (base as i64) - if rng.gen_bool(0.2) { 10_000_000 } else { 0 } } else { -1 };
            let start = if start >= 0 && (start as u64) + 20_000 < base { base as i64 } else { start };
            if !with_start {
                // an earlier life of this node got as far as here
                node.state().set_latest_block_number(if op { node_local_state::Chain::Optimism } else { node_local_state::Chain::Base }, base).unwrap();
            }
            let stop: i64 = if rng.gen_bool(0.35) { (base + rng.gen_range(0..=span)) as i64 } else { -1 };
            let mut at = if op && !with_start { base } else { base + rng.gen_range(0..=span / 2) };
            let lives = rng.gen_range(1..=3);
            for life in 0..lives {
                let mut heads = vec![at];
                let last = life + 1 == lives;
                for _ in 0..rng.gen_range(0..3) {
                    heads.push((at + rng.gen_range(0..=span / 2)).min(end));
                    at = *heads.last().unwrap();
                }
                if last {
                    heads.extend([end; 8]);
                }
                let mut j = job("run", start, stop);
                j.heads = heads;
                if !last {
                    if rng.gen_bool(0.5) {
                        j.crash_at = rng.gen_range(1..25);
                        j.faults = "left";
                    } else if !op {
                        let f = rng.gen_range(1..8);
                        j.fail.insert("eth_getLogs".into(), (f..f + 1).collect());
                        j.faults = "left";
                    }
                }
                // what the filter does not tell again after a restart is not this reader's doing
                let v = w.run(&node, &j);
                let done = v["ret"] == json!("ok") || v["ret"] == json!("err");
                tr.rec(v);
                if done || op {
                    break;
                }
            }
        }
    }
}

fn namehash(name: &str) -> B256 {
    if name.is_empty() {
        return B256::ZERO;
    }
    let (label, rest) = name.split_once('.').unwrap_or((name, ""));
    let whole = if name.contains('.') { namehash(rest) } else { B256::ZERO };
    keccak256([whole.as_slice(), keccak256(label.as_bytes()).as_slice()].concat())
}

fn pure(ctx: &Ctx) {
    let mut tr = ctx.trace("facts");
    let mut rng = ctx.rng(77);
    for _ in 0..ctx.scale(400, 5000) {
        let fits = rng.gen_bool(0.7);
        let small: u64 = *[0u64, 1, 9152, 309857, u32::MAX as u64 + 1, u64::MAX].get(rng.gen_range(0..6)).unwrap();
        let fid = if fits { U256::from(small) } else { (U256::from(rng.gen_range(1..5u64)) << 64) + U256::from(small) };
        let whole = DynSolValue::Tuple(vec![DynSolValue::Tuple(vec![
            DynSolValue::Uint(fid, 256),
            DynSolValue::Address(some_addr(&mut rng)),
            DynSolValue::Bytes((0..rng.gen_range(0..80)).map(|_| rng.gen()).collect()),
            DynSolValue::Uint(U256::from(rng.gen::<u64>()), 256),
        ])])
        .abi_encode_params();
        let shape = *["whole", "whole", "whole", "empty", "short", "junk"].get(rng.gen_range(0..6)).unwrap();
        let metadata = match shape {
            "whole" => whole,
            "empty" => vec![],
            "short" => whole[..rng.gen_range(1..whole.len().min(160))].to_vec(),
            _ => (0..200).map(|_| 0xffu8).collect(),
        };
        let mt = *[1u32, 1, 1, 0, 2].get(rng.gen_range(0..5)).unwrap();
        let got = get_request_fid_from_signer_event(&SignerEventBody { key: vec![], key_type: 1, event_type: 1, metadata, metadata_type: mt });
        tr.rec(json!({"op": "appfid", "mt": mt, "shape": shape, "fits": fits, "fid": small.to_string(), "got": got.map(|g| g.to_string()).unwrap_or("none".into())}));
    }
    for f in [9152u64, 9151, 9153, 309857, 309856, 0, 1, u64::MAX] {
        tr.rec(json!({"op": "appname", "fid": f.to_string(), "got": map_signer_fid_to_name(f)}));
    }
    for id in [0u32, 1, 2, 5, 10, 11, 420, 8453, 8454, 65537, 84532, u32::MAX] {
        let got = match Chain2::from_chain_id(id) {
            Some(Chain2::EthMainnet) => "eth",
            Some(Chain2::OptimismMainnet) => "op",
            Some(Chain2::BaseMainnet) => "base",
            None => "none",
        };
        tr.rec(json!({"op": "chain", "id": if id > i32::MAX as u32 { -1 } else { id as i32 }, "got": got}));
    }
    let w = World::new(true);
    let node = Node::new();
    let sub = |c: &Config| {
        let (tx, _rx) = mpsc::channel(1);
        let (_k, r) = broadcast::channel(1);
        Subscriber::new(c, node_local_state::Chain::Base, FarcasterNetwork::Devnet, tx, statsd_client(), node.state(), r).is_ok()
    };
    for (url, what) in [(w.url.as_str(), "good"), ("", "empty"), ("no url", "bad"), ("http://", "bad")] {
        tr.rec(json!({"op": "newsub", "url": what, "ok": sub(&Config { rpc_url: url.into(), ..Default::default() })}));
    }
    for which in 0..3 {
        for (text, hex_ok, digits) in [
            (CTRL.to_string(), true, 40),
            (CTRL[..41].to_string(), true, 39),
            (CTRL[..40].to_string(), true, 38),
            (format!("{CTRL}22"), true, 42),
            (format!("{}zz", &CTRL[..40]), false, 40),
            (CTRL[2..].to_string(), true, 40),
            (CTRL.replace('2', "A").to_string(), true, 40),
            (String::new(), true, 0),
            ("0x".to_string(), true, 0),
            (format!(" {CTRL}"), false, 41),
        ] {
            let mut c = Config { rpc_url: w.url.clone(), ..Default::default() };
            match which {
                0 => c.override_tier_registry_address = Some(text.clone()),
                1 => c.override_channel_registrar_address = Some(text.clone()),
                _ => c.override_ens_registry_address = Some(text.clone()),
            }
            tr.rec(json!({"op": "override", "text": text, "hex": hex_ok, "digits": digits, "ok": sub(&c)}));
        }
    }
    // names resolved through a registry
    for n in ["farcaster.eth", "a.b.c.eth", "", "eth", "é.eth", "x.base.eth", "a..b", ".eth", "A.eth", "..eth"] {
        for case in 0..5 {
            let with_registry = case != 4;
            let client = RealL1Client::new(w.url.clone(), with_registry.then(|| ENS_L1.parse().unwrap())).unwrap();
            let (resolver, addr) = (some_addr(&mut rng), some_addr(&mut rng));
            {
                let mut c = w.chain.lock().unwrap();
                c.ens = ENS_L1.into();
                c.resolver = (case != 1).then_some(resolver);
                c.addr = Some(addr);
                c.registry_fault = case == 2;
                c.addr_fault = case == 3;
                c.nodes.clear();
            }
            let got = match paused(client.resolve_ens_name(n.to_string())) {
                Ok(a) => hex::encode(a),
                Err(e) => {
                    let t = format!("{e:?}");
                    if t.starts_with("ResolverNotFound") { "error:notfound".into() } else if t.starts_with("Resolver(") { "error:resolver".into() } else { "error:resolve".to_string() }
                }
            };
            let c = w.chain.lock().unwrap();
            let want = namehash(n);
            tr.rec(json!({"op": "ens", "name": n, "node_ok": c.nodes.iter().all(|(_, d)| d.as_slice() == want.as_slice()),
                "registry_fault": case == 2, "resolver": if case == 1 || case == 4 { String::new() } else { hex::encode(resolver) }, "addr_fault": case == 3, "addr": hex::encode(addr), "got": got}));
        }
    }
    for bits in 0..8 {
        let mut app = snapchain::cfg::Config::default();
        app.l1_rpc_url = if bits & 1 > 0 { w.url.clone() } else { String::new() };
        app.onchain_events.rpc_url = if bits & 2 > 0 { w.url.clone() } else { String::new() };
        app.base_onchain_events.rpc_url = if bits & 4 > 0 { w.url.clone() } else { String::new() };
        let c = ChainClients::new(&app);
        for (ch, bit) in [(Chain2::EthMainnet, 1), (Chain2::OptimismMainnet, 2), (Chain2::BaseMainnet, 4)] {
            tr.rec(json!({"op": "client", "configured": bits & bit > 0, "got": c.for_chain(ch).is_ok()}));
        }
    }
}
use snapchain::connectors::onchain_events::Chain as Chain2;

// ---------------------------------------------------------------- the name server

#[derive(Default)]
struct Names {
    ts: Vec<Value>,
    page: usize,
    fail: Vec<usize>,
    n: usize,
    asked: Vec<Value>,
    current: Option<u64>,
    quiet: usize,
    crash_at: usize,
    /// answers to ?fname= and ?fid=
    answer: Option<Vec<Value>>,
}

fn public(t: &Value) -> Value {
    json!({"id": t["id"], "timestamp": t["ts"], "username": t["name"], "owner": t["owner"], "from": t["from"], "to": t["to"], "user_signature": "0x01", "server_signature": t["sig"]})
}

fn names_server(s: Arc<Mutex<Names>>, stop: Arc<Notify>) -> String {
    http(Arc::new(move |_, target, _| {
        let mut s = s.lock().unwrap();
        s.n += 1;
        if s.crash_at > 0 && s.n >= s.crash_at {
            stop.notify_one();
            return (500, b"gone".to_vec());
        }
        let url = reqwest::Url::parse(&format!("http://h{target}")).unwrap();
        let q: Vec<(String, String)> = url.query_pairs().map(|(a, b)| (a.to_string(), b.to_string())).collect();
        if url.path().ends_with("/current") {
            return match s.current {
                Some(id) => (200, json!({"transfer": public(&json!({"id": id, "ts": 1, "name": "x", "owner": "0x00", "from": 0, "to": 1, "sig": "0x00"}))}).to_string().into_bytes()),
                None => (200, b"{}".to_vec()),
            };
        }
        if let [(k, v)] = &q[..] {
            if k == "from_id" {
                let n = s.n;
                if s.fail.contains(&n) {
                    return if n % 2 == 0 { (500, b"no".to_vec()) } else { (200, b"{\"transfers\": [{\"id\": 1}]}".to_vec()) };
                }
                let from: u64 = v.parse().unwrap_or(0);
                let page: Vec<Value> = s.ts.iter().filter(|t| t["id"].as_u64().unwrap() > from).take(s.page).map(public).collect();
                if page.is_empty() {
                    s.quiet += 1;
                    if s.quiet >= 2 {
                        stop.notify_one();
                    }
                }
                return (200, json!({"transfers": page}).to_string().into_bytes());
            }
        }
        s.asked = q.iter().map(|(a, b)| json!([a, b])).collect();
        match &s.answer {
            Some(a) => (200, json!({"transfers": a.iter().map(public).collect::<Vec<_>>()}).to_string().into_bytes()),
            None => (404, b"{\"error\": \"x\"}".to_vec()),
        }
    }))
}

fn transfer(rng: &mut Rng, id: u64) -> Value {
    let good = |rng: &mut Rng| hx(&(0..rng.gen_range(1..66)).map(|_| rng.gen()).collect::<Vec<u8>>());
    let mut hexes = vec![];
    for _ in 0..2 {
        let g = good(rng);
        let (text, ok) = match rng.gen_range(0..24) {
            0 => (g[2..].to_string(), false),
            1 => ("0x".to_string(), false),
            2 => (String::new(), false),
            3 => (format!("{}0", g), false),
            4 => (format!("{}zz", g), false),
            5 => (format!("0X{}", &g[2..]), false),
            _ => (g, true),
        };
        hexes.push((text, ok));
    }
    let name = ["alice", "bob-1", "", "é", "a&b=c"][rng.gen_range(0..5)];
    let hexed = |h: &(String, bool)| if h.1 { h.0[2..].to_string() } else { String::new() };
    json!({"id": id, "from": rng.gen_range(0..5), "to": rng.gen_range(0..5), "name": name, "ts": rng.gen_range(0..2_000_000_000u64), "owner": hexes[0].0, "sig": hexes[1].0,
        "okowner": hexes[0].1, "oksig": hexes[1].1, "ownerhex": hexed(&hexes[0]), "sighex": hexed(&hexes[1])})
}

fn got_transfer(t: &snapchain::proto::FnameTransfer) -> Value {
    let p = t.proof.clone().unwrap_or_default();
    let mut name = String::from_utf8_lossy(&p.name).to_string();
    if p.r#type != 1 {
        name = format!("type {}", p.r#type);
    }
    json!({"id": t.id, "from": t.from_fid, "to": p.fid, "name": name, "ts": p.timestamp, "owner": hex::encode(&p.owner), "sig": hex::encode(&p.signature)})
}

fn fnames(ctx: &Ctx) {
    let mut tr = ctx.trace("names");
    let s = Arc::new(Mutex::new(Names::default()));
    let stop = Arc::new(Notify::new());
    let url = format!("{}/transfers", names_server(s.clone(), stop.clone()));
    for h in 0..ctx.scale(80, 800) {
        let mut rng = ctx.rng(9000 + h as u64);
        let mut id = rng.gen_range(0..3);
        let ts: Vec<Value> = (0..rng.gen_range(0..14))
            .map(|_| {
                id += *[1u64, 1, 1, 2, 7].get(rng.gen_range(0..5)).unwrap();
                transfer(&mut rng, id)
            })
            .collect();
        tr.rec(json!({"op": "names", "ts": ts}));
        let node = Node::new();
        let start: i64 = if rng.gen_bool(0.8) { rng.gen_range(0..6) } else { -1 };
        let stop_at: i64 = if rng.gen_bool(0.3) { rng.gen_range(1..25) } else { -1 };
        let page = rng.gen_range(1..6);
        let lives = if start < 0 { 1 } else { rng.gen_range(1..=3) };
        for life in 0..lives {
            let last = life + 1 == lives;
            let current = rng.gen_bool(0.7).then(|| rng.gen_range(0..10));
            let mut faults = "none";
            let (mut fail, mut crash_at) = (vec![], 0);
            if !last {
                faults = "left";
                crash_at = rng.gen_range(1..8);
            } else if rng.gen_bool(0.4) {
                fail = (0..3).map(|_| rng.gen_range(1..8)).collect();
            }
            {
                let mut n = s.lock().unwrap();
                *n = Names { ts: ts.clone(), page, fail, current, crash_at, ..Default::default() };
            }
            let db0 = node.state().get_latest_fname_transfer_id().unwrap().unwrap_or(0);
            let (tx, mut rx) = mpsc::channel(100_000);
            let (_keep, req) = broadcast::channel(4);
            let ret = paused(async {
                let cfg = fname::Config { start_from: (start >= 0).then_some(start as u64), stop_at: (stop_at >= 0).then_some(stop_at as u64), url: url.clone(), disable: false };
                let mut f = fname::Fetcher::new(cfg, tx, statsd_client(), node.state(), req);
                tokio::select! {
                    _ = f.run() => "ok",
                    _ = stop.notified() => "cut",
                }
            });
            paused(async {
                tokio::select! { biased; _ = stop.notified() => {}, _ = std::future::ready(()) => {} }
            });
            let mut evs = vec![];
            while let Ok(MempoolRequest::AddMessage(MempoolMessage::FnameTransfer(t), _, _)) = rx.try_recv() {
                evs.push(got_transfer(&t));
            }
            let db1 = node.state().get_latest_fname_transfer_id().unwrap().unwrap_or(0);
            tr.rec(json!({"op": "fetch", "start": start, "stop": stop_at, "db0": db0, "db1": db1, "current_ok": current.is_some(), "current": current.unwrap_or(0), "ret": ret, "evs": evs, "faults": faults}));
        }
    }
    // looking up one name; retrying an account or a name
    for h in 0..ctx.scale(150, 1500) {
        let mut rng = ctx.rng(19000 + h as u64);
        let clean = rng.gen_bool(0.6);
        let served: Vec<Value> = (0..rng.gen_range(0..4))
            .map(|i| loop {
                let t = transfer(&mut rng, i + 1);
                if !clean || (t["okowner"] == json!(true) && t["oksig"] == json!(true)) {
                    break t;
                }
            })
            .collect();
        let answered = rng.gen_bool(0.9);
        *s.lock().unwrap() = Names { answer: answered.then(|| served.clone()), ..Default::default() };
        let name = ["alice", "a&from_id=0", "a b", "a+b", "é", "", "x#y", "a%20b", "a=b", "?q"][rng.gen_range(0..10)];
        if rng.gen_bool(0.6) {
            let got = if rng.gen_bool(0.5) {
                paused(fname::fetch_transfers_for_fname(&url, name))
            } else {
                use fname::FnameTransferLookup;
                paused(async { fname::HttpFnameTransferLookup::new(url.clone()).lookup_fname(name).await })
            };
            let asked = s.lock().unwrap().asked.clone();
            tr.rec(json!({"op": "lookup", "name": name, "served": served, "answered": answered, "asked": asked,
                "res": if got.is_ok() { "ok" } else { "error" }, "evs": got.unwrap_or_default().iter().map(got_transfer).collect::<Vec<_>>()}));
        } else {
            let node = Node::new();
            let (tx, mut rx) = mpsc::channel(1000);
            let (keep, req) = broadcast::channel(4);
            let by_fid = rng.gen_bool(0.5);
            let r = if by_fid { fname::FnameRequest::RetryFid(77) } else { fname::FnameRequest::RetryFname("alice".into()) };
            keep.send(r).ok();
            paused(async {
                let cfg = fname::Config { start_from: Some(0), stop_at: None, url: url.clone(), disable: false };
                let mut f = fname::Fetcher::new(cfg, tx, statsd_client(), node.state(), req);
                tokio::select! {
                    _ = f.run() => {},
                    _ = stop.notified() => {},
                }
            });
            let asked = s.lock().unwrap().asked.clone();
            let want = if by_fid { json!(["fid", "77"]) } else { json!(["fname", "alice"]) };
            let mut evs = vec![];
            while let Ok(MempoolRequest::AddMessage(MempoolMessage::FnameTransfer(t), _, _)) = rx.try_recv() {
                evs.push(got_transfer(&t));
            }
            tr.rec(json!({"op": "retry", "served": if answered { served } else { vec![] }, "evs": evs, "asked": asked, "wantasked": [want]}));
        }
    }
}

pub fn run(ctx: &Ctx) {
    chains(ctx);
    pure(ctx);
    fnames(ctx);
}
