//! Runs the configuration loader, the validator-set selection and the node program's own
//! start checks on many layered configurations.
use crate::common::*;
use libp2p::identity::ed25519::{Keypair, SecretKey};
use rand::seq::SliceRandom;
use rand::Rng as _;
use serde_json::{json, Map, Value};
use snapchain::cfg::load_and_merge_config;
use snapchain::consensus::consensus::{Config as Consensus, ValidatorSetConfig};
use snapchain::core::types::{Height, SnapchainValidatorContext};
use std::process::Command;

const STR: &[&str] = &[
    "log_format", "fnames.url", "onchain_events.rpc_url", "onchain_events.override_tier_registry_address",
    "onchain_events.override_channel_registrar_address", "onchain_events.override_ens_registry_address",
    "base_onchain_events.override_tier_registry_address", "base_onchain_events.rpc_url",
    "base_onchain_events.override_channel_registrar_address", "base_onchain_events.override_ens_registry_address",
    "consensus.private_key", "gossip.address", "gossip.announce_address", "gossip.announce_rpc_address",
    "gossip.bootstrap_peers", "gossip.direct_peers", "snapshot.endpoint_url", "snapshot.s3_bucket",
    "snapshot.backup_dir", "snapshot.snapshot_download_url", "snapshot.snapshot_download_dir",
    "snapshot.aws_access_key_id", "snapshot.aws_secret_access_key", "rpc_auth", "admin_rpc_auth", "rpc_address",
    "http_address", "rocksdb_dir", "statsd.prefix", "statsd.addr", "l1_rpc_url", "pruning.event_pruning_schedule",
    "http_server.cors_origin",
];
const BOOL: &[&str] = &[
    "fnames.disable", "gossip.enable_autodiscovery", "mempool.allow_unlimited_mempool_size",
    "mempool.enable_rate_limits", "snapshot.backup_on_startup", "snapshot.load_db_from_snapshot",
    "snapshot.force_load_db_from_snapshot", "statsd.use_tags", "read_node", "replication.enable",
    "block_receiver.enabled",
];
const U32: &[&str] = &[
    "consensus.num_shards", "consensus.max_messages_per_block", "consensus.consensus_start_delay", "mempool.queue_size",
];
const U64: &[&str] = &[
    "fnames.start_from", "fnames.stop_at", "onchain_events.start_block_number", "onchain_events.stop_block_number",
    "base_onchain_events.start_block_number", "base_onchain_events.stop_block_number",
    "consensus.sync_request_timeout.secs", "consensus.sync_status_update_interval.secs",
    "consensus.reconcile_heartbeat_event", "gossip.contact_info_interval.secs", "gossip.bootstrap_reconnect_interval.secs",
    "mempool.capacity_per_shard", "mempool.rx_poll_interval.secs", "mesh.cache_ttl_secs", "replication.snapshot_interval",
    "block_receiver.sync_batch_size",
];
const DUR: &[&str] = &[
    "consensus.step_delta", "consensus.propose_time", "consensus.prevote_time", "consensus.precommit_time",
    "consensus.block_time", "pruning.block_retention", "pruning.event_retention", "replication.snapshot_max_age",
    "block_receiver.single_block_confirmation_timeout", "block_receiver.sync_confirmation_timeout",
];

#[derive(Clone)]
struct Setting {
    path: String,
    kind: &'static str,
    v: String,
}

fn value(rng: &mut Rng, path: &str, wrong: bool) -> (&'static str, String) {
    let pick = |rng: &mut Rng, l: &[&str]| l.choose(rng).unwrap().to_string();
    let kind = if STR.contains(&path) {
        "str"
    } else if BOOL.contains(&path) {
        "bool"
    } else if U32.contains(&path) {
        "u32"
    } else if U64.contains(&path) {
        "u64"
    } else if DUR.contains(&path) {
        "dur"
    } else {
        path
    };
    if wrong {
        match kind {
            "str" => {}
            "u32" => return if rng.gen() { ("wide", "5000000000".into()) } else { ("str", "many".into()) },
            "u64" => return if rng.gen() { ("neg", "-4".into()) } else { ("str", "many".into()) },
            _ => return ("str", "neither here nor there".into()),
        }
    }
    match kind {
        "str" => match path {
            "log_format" => ("str", pick(rng, &["json", "text", "pretty"])),
            "statsd.prefix" => ("str", pick(rng, &["node", "a-b", ""])),
            "statsd.addr" => ("str", pick(rng, &["127.0.0.1:8125", "statsd.internal:9125", "h:0", "host", ":8125", "host:", "host:99999", "host:x"])),
            "consensus.private_key" => ("str", "5ec2e7".repeat(10) + "abcd"),
            _ => ("str", pick(rng, &["x", "some-value", "/a/b c", "https://h.example/p?q=r", "a=b", "#hash", "a,b", "x__y"])),
        },
        "bool" => ("bool", pick(rng, &["true", "false"])),
        "u32" => ("int", rng.gen_range(0..100_000u32).to_string()),
        "u64" => {
            if rng.gen_bool(0.2) { ("wide", "5000000001".into()) } else { ("int", rng.gen_range(0..1_000_000u32).to_string()) }
        }
        "dur" => ("dur", pick(rng, &["7s", "250ms", "2m", "5h", "1day 1h", "3s 5ms"])),
        "fc_network" => ("net", pick(rng, &["Mainnet", "Testnet", "Devnet"])),
        "snapshot.bootstrap_method" => ("method", pick(rng, &["Snapshot", "Replicate"])),
        "consensus.shard_ids" => ("ints", pick(rng, &["[1,2]", "[2]", "[]", "[3,1]"])),
        "snapshot.replication_peers" | "consensus.validator_addresses" => ("strs", pick(rng, &["[\"aa\"]", "[\"aa\",\"bb\"]", "[]"])),
        k => panic!("{k}"),
    }
}

fn toml_text(settings: &[Setting]) -> String {
    let mut root = toml::Table::new();
    for s in settings {
        let v: toml::Value = match s.kind {
            "str" | "dur" | "net" | "method" => toml::Value::String(s.v.clone()),
            "bool" => toml::Value::Boolean(s.v == "true"),
            "int" | "wide" | "neg" => toml::Value::Integer(s.v.parse().unwrap()),
            _ => format!("x = {}", s.v).parse::<toml::Table>().unwrap()["x"].clone(),
        };
        let parts: Vec<&str> = s.path.split('.').collect();
        let mut t = &mut root;
        for p in &parts[..parts.len() - 1] {
            t = t.entry(p.to_string()).or_insert(toml::Value::Table(toml::Table::new())).as_table_mut().unwrap();
        }
        t.insert(parts[parts.len() - 1].into(), v);
    }
    toml::to_string(&root).unwrap()
}

fn flatten(prefix: &str, v: &Value, out: &mut Map<String, Value>) {
    match v {
        Value::Object(m) => {
            for (k, v) in m {
                let p = if prefix.is_empty() { k.clone() } else { format!("{prefix}.{k}") };
                flatten(&p, v, out);
            }
        }
        Value::Null => {}
        Value::String(s) => {
            out.insert(prefix.into(), json!(s));
        }
        x => {
            out.insert(prefix.into(), json!(x.to_string()));
        }
    }
}

fn rows(l: &[Setting]) -> Value {
    l.iter().map(|s| json!([s.path, s.kind, s.v])).collect::<Vec<_>>().into()
}

pub fn run(ctx: &Ctx) {
    layers(ctx);
    sets(ctx);
    others(ctx);
}

fn layers(ctx: &Ctx) {
    let mut t = ctx.trace("layers");
    let mut rng = ctx.rng(1);
    let mut paths: Vec<&str> = [STR, BOOL, U32, U64, DUR].concat();
    paths.extend(["fc_network", "snapshot.bootstrap_method", "consensus.shard_ids", "snapshot.replication_peers", "consensus.validator_addresses"]);
    let node = std::env::current_exe().unwrap().with_file_name("node");
    let n = ctx.scale(700, 8000);
    for run in 0..n {
        let dir = tmp();
        let file_path = dir.path().join("config.toml");
        let db = dir.path().join("rocks");
        std::fs::create_dir(&db).unwrap();
        std::fs::write(db.join("marker"), "x").unwrap();
        let wrong = rng.gen_bool(0.15);
        let make = |rng: &mut Rng, most: usize, wrong: bool| {
            let mut l: Vec<Setting> = vec![];
            let k = rng.gen_range(0..=most);
            // a few settings come up often so that the layers meet
            let mut pool = if rng.gen() { paths.clone() } else { paths.choose_multiple(rng, 8).copied().collect::<Vec<_>>() };
            pool.extend(["log_format", "statsd.addr", "statsd.prefix", "consensus.num_shards", "read_node", "rpc_auth"]);
            pool.shuffle(rng);
            for p in pool {
                if l.len() >= k || l.iter().any(|s| s.path == p) {
                    continue;
                }
                let bad = wrong && rng.gen_bool(0.3);
                let (kind, v) = value(rng, p, bad);
                l.push(Setting { path: p.into(), kind, v });
            }
            l
        };
        let mut file = make(&mut rng, 12, wrong);
        let mut env = make(&mut rng, 6, wrong && run % 2 == 0);
        // most runs get far enough to start
        if rng.gen_bool(0.7) && !file.iter().chain(&env).any(|s| s.path == "statsd.prefix") {
            file.push(Setting { path: "statsd.prefix".into(), kind: "str", v: "p".into() });
        }
        // the database directory must be a scratch one
        file.retain(|s| s.path != "rocksdb_dir");
        env.retain(|s| s.path != "rocksdb_dir");
        file.push(Setting { path: "rocksdb_dir".into(), kind: "str", v: db.to_str().unwrap().into() });
        // some noise the loader must ignore, and settings only the command line decides
        let mut text = String::new();
        if rng.gen_bool(0.3) {
            text += &format!("clear_db = {}\ncheck_config = {}\nno_such_setting = 5\n", rng.gen::<bool>(), rng.gen::<bool>());
        }
        let mut body = toml_text(&file);
        // top-level keys must precede tables
        body = text + &body;
        let secret = "deadbeefsecretcafe";
        let filestate = if rng.gen_bool(0.9) { "ok" } else { *["missing", "broken", "broken"].choose(&mut rng).unwrap() };
        if filestate == "broken" {
            let bad = *[
                "[consensus_x]\nprivate_key = SECRET\n", "[consensus_x]\nprivate_key = \"SECRET\n", "[consensus_x]\nprivate_key = \"SECRET\" trailing\n",
                "[consensus_x]\nprivate_key \"SECRET\"\n", "[consensus_x]\nk = 'SECRET'\nk = 'SECRET'\n", "[consensus_x\nprivate_key = \"SECRET\"\n",
            ].choose(&mut rng).unwrap();
            body += "\n";
            body += &bad.replace("SECRET", secret);
        }
        if filestate != "missing" {
            std::fs::write(&file_path, &body).unwrap();
        }
        let form = if rng.gen_bool(0.9) { "ok" } else { *["nopath", "unknown", "twice", "novalue"].choose(&mut rng).unwrap() };
        let clear = rng.gen_bool(0.3);
        let check = rng.gen_bool(0.5);
        let logf = if rng.gen_bool(0.3) { *["json", "text", "xml"].choose(&mut rng).unwrap() } else { "-" };
        let mut args: Vec<String> = vec!["snapchain".into()];
        let p = file_path.to_str().unwrap().to_string();
        match form {
            "nopath" => {}
            "novalue" => {}
            "twice" => args.extend(["--config-path".into(), p.clone(), "--config-path".into(), p.clone()]),
            "unknown" => args.extend(["--config-path".into(), p.clone(), "--bogus".into()]),
            _ => {
                if rng.gen() { args.extend(["--config-path".into(), p.clone()]) } else { args.push(format!("--config-path={p}")) }
            }
        }
        if clear {
            args.insert(1, "--clear-db".into());
        }
        if logf != "-" {
            if rng.gen() { args.extend(["--log-format".into(), logf.into()]) } else { args.insert(1, format!("--log-format={logf}")) }
        }
        if check {
            args.push("--check-config".into());
        }
        if form == "novalue" {
            args.push("--config-path".into());
        }
        let mut vars: Vec<(String, String)> = env
            .iter()
            .map(|s| (format!("SNAPCHAIN_{}", s.path.to_uppercase().replace('.', "__")), s.v.clone()))
            .collect();
        if rng.gen_bool(0.3) {
            vars.push(("SNAPCHAIN_CLEAR_DB".into(), rng.gen::<bool>().to_string()));
            vars.push(("SNAPCHAIN_CHECK_CONFIG".into(), rng.gen::<bool>().to_string()));
            vars.push(("SNAPCHAIN_NO_SUCH".into(), "1".into()));
            vars.push(("SNAP_RPC_AUTH".into(), "wrong".into()));
        }
        for (k, v) in &vars {
            std::env::set_var(k, v);
        }
        let res = guarded(|| load_and_merge_config(args.clone()).map_err(|e| e.to_string()));
        for (k, _) in &vars {
            std::env::remove_var(k);
        }
        let res = match res {
            Ok(r) => r,
            Err(e) => Err(e),
        };
        let mut all = Map::new();
        let mut ans = json!({"ok": res.is_ok(), "err": "-", "leak": false, "clear": false, "check": false});
        match &res {
            Ok(c) => {
                let v = serde_json::to_value(c).unwrap();
                ans["clear"] = v["clear_db"].clone();
                ans["check"] = v["check_config"].clone();
                flatten("", &v, &mut all);
                all.remove("clear_db");
                all.remove("check_config");
                let set = file.iter().chain(&env).any(|s| s.path == "consensus.private_key");
                let k = all["consensus.private_key"].as_str().unwrap().to_string();
                if !set && k.len() == 64 && hex::decode(&k).is_ok() {
                    all.insert("consensus.private_key".into(), json!("<generated>"));
                }
            }
            Err(e) => {
                ans["err"] = json!(e.chars().take(160).collect::<String>());
                ans["leak"] = json!(e.contains(secret));
            }
        }
        ans["all"] = if all.is_empty() { json!({"log_format": "-"}) } else { Value::Object(all) };
        // the program itself, only ever asked to check: it must not go on to start
        let (mut started, mut untouched, mut runleak) = ("-".to_string(), true, false);
        if check {
            let out = Command::new(&node).args(&args[1..]).env_clear().envs(vars.iter().cloned()).env("RUST_LOG", "off").output().unwrap();
            let said = String::from_utf8_lossy(&out.stdout).to_string();
            started = if out.status.success() && said.contains("config OK") { "ok".into() } else { format!("{:?}", out.status.code()) };
            untouched = db.join("marker").exists();
            let both = said + &String::from_utf8_lossy(&out.stderr);
            runleak = both.contains(secret);
        }
        t.rec(json!({"op": "load", "cli": {"form": form, "log_format": logf, "clear": clear, "check": check},
            "filestate": filestate, "file": rows(&file), "env": rows(&env), "res": ans, "run": started, "untouched": untouched, "runleak": runleak}));
    }
}

fn keys() -> Vec<String> {
    let mut k: Vec<[u8; 32]> = (1..=6u8)
        .map(|i| {
            let kp = Keypair::from(SecretKey::try_from_bytes([i * 7; 32]).unwrap());
            kp.public().to_bytes()
        })
        .collect();
    k.sort();
    k.iter().map(hex::encode).collect()
}

fn sets(ctx: &Ctx) {
    let mut t = ctx.trace("sets");
    let mut rng = ctx.rng(2);
    let names = keys();
    let rank = |s: &str| names.iter().position(|n| n == s).map(|i| i as i64).unwrap_or(-1);
    let mut lists: Vec<Vec<(u64, Vec<u32>, Vec<usize>)>> = vec![];
    for b in ctx.behaviours() {
        let l = b.as_array().unwrap().iter().map(|e| {
            let shards = e["shards"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
            let mut k: Vec<usize> = (0..6).collect();
            k.shuffle(&mut rng);
            k.truncate(rng.gen_range(1..=5));
            (e["at"].as_u64().unwrap(), shards, k)
        }).collect();
        lists.push(l);
    }
    for _ in 0..ctx.scale(250, 3000) {
        let n = rng.gen_range(1..=6);
        let mut l: Vec<(u64, Vec<u32>, Vec<usize>)> = vec![];
        let mut at = 0u64;
        for i in 0..n {
            let shards: Vec<u32> = if i == 0 { vec![0, 1, 2] } else {
                let mut s = vec![0, 1, 2];
                s.shuffle(&mut rng);
                s.truncate(rng.gen_range(1..=3));
                s
            };
            let mut k: Vec<usize> = (0..6).collect();
            k.shuffle(&mut rng);
            k.truncate(rng.gen_range(1..=6));
            if rng.gen_bool(0.1) {
                let x = k[0];
                k.push(x);
            }
            l.push((at, shards, k));
            at += rng.gen_range(if i == 0 { 1 } else { 0 }..12);
        }
        if rng.gen_bool(0.3) {
            l[1..].shuffle(&mut rng);
        }
        lists.push(l);
    }
    for l in lists {
        let shard = rng.gen_range(0..=2u32);
        let mut body = String::from("[statsd]\nprefix = \"x\"\n");
        for (at, shards, k) in &l {
            let ks: Vec<String> = k.iter().map(|i| format!("\"{}\"", names[*i])).collect();
            body += &format!("[[consensus.validator_sets]]\neffective_at = {at}\nshard_ids = {shards:?}\nvalidator_public_keys = [{}]\n", ks.join(","));
        }
        let dir = tmp();
        let p = dir.path().join("c.toml");
        std::fs::write(&p, body).unwrap();
        let cfg: Consensus = load_and_merge_config(vec!["x".into(), "--config-path".into(), p.to_str().unwrap().into()]).unwrap().consensus;
        let shown = |v: &[ValidatorSetConfig]| -> Value {
            v.iter().map(|e| json!({"at": e.effective_at, "shards": e.shard_ids,
                "keys": e.validator_public_keys.iter().map(|k| rank(k)).collect::<Vec<_>>()})).collect::<Vec<_>>().into()
        };
        let asked: Value = l.iter().map(|(a, s, k)| json!({"at": a, "shards": s, "keys": k})).collect::<Vec<_>>().into();
        let stored = cfg.to_stored_validator_sets(shard);
        let mut hs: Vec<u64> = vec![1, 1_000_000];
        for (a, _, _) in &l {
            hs.extend([a.saturating_sub(1).max(1), (*a).max(1), a + 1]);
        }
        hs.sort();
        hs.dedup();
        let sc = SnapchainValidatorContext::new(Keypair::generate());
        let at: Vec<Value> = hs.iter().map(|h| {
            let vs = stored.get_validator_set(*h);
            let members: Vec<i64> = vs.validators.iter().map(|v| rank(&hex::encode(v.public_key.to_bytes()))).collect();
            let props: Vec<Value> = (0..4u32).map(|r| {
                use informalsystems_malachitebft_core_types::{Context, Round};
                let p = sc.select_proposer(&vs, Height::new(shard, *h), Round::new(r));
                json!({"r": r, "who": rank(&hex::encode(p.public_key.to_bytes()))})
            }).collect();
            json!({"h": h, "keys": members, "props": props})
        }).collect();
        let latest: Vec<i64> = cfg.latest_validator_public_keys().iter().map(|k| rank(k)).collect();
        let mine: Vec<u32> = (0..rng.gen_range(1..4u32)).collect();
        let w = cfg.with(mine.clone(), cfg.get_validator_set_config(shard));
        let mut given = shown(&cfg.get_validator_set_config(shard));
        if shown(&w.get_validator_set_config(shard)) != given {
            given = json!([]);
        }
        t.rec(json!({"op": "sets", "shard": shard, "sets": asked, "given": given, "at": at, "latest": latest,
            "with": {"num": w.num_shards, "shards": mine, "got": w.shard_ids}}));
    }
}

fn others(ctx: &Ctx) {
    let mut t = ctx.trace("others");
    let mut rng = ctx.rng(3);
    let names = keys();
    let load = |body: &str| -> snapchain::cfg::Config {
        let dir = tmp();
        let p = dir.path().join("c.toml");
        std::fs::write(&p, body).unwrap();
        load_and_merge_config(vec!["x".into(), "--config-path".into(), p.to_str().unwrap().into()]).unwrap()
    };
    for _ in 0..ctx.scale(20, 100) {
        let k: Vec<&String> = names.choose_multiple(&mut rng, 3).collect();
        let ks: Vec<String> = k.iter().map(|s| format!("\"{s}\"")).collect();
        let c = load(&format!("[consensus]\nvalidator_addresses = [{}]\n", ks.join(","))).consensus;
        let shard = rng.gen_range(0..4u32);
        let got: Vec<Value> = c.get_validator_set_config(shard).iter()
            .map(|e| json!({"at": e.effective_at, "shards": e.shard_ids, "keys": e.validator_public_keys})).collect();
        t.rec(json!({"op": "addresses", "shard": shard, "keys": k, "got": got}));
        let secret: [u8; 32] = rng.gen();
        let want = ed25519_dalek::SigningKey::from_bytes(&secret).verifying_key().to_bytes();
        let c = load(&format!("[consensus]\nprivate_key = \"{}\"\n", hex::encode(secret))).consensus;
        t.rec(json!({"op": "keypair", "same": guarded(|| c.keypair().public().to_bytes() == want).unwrap_or(false)}));
        let pieces: Vec<String> = (0..rng.gen_range(1..4)).map(|i| format!("/ip4/10.0.0.{i}/udp/3382/quic-v1")).collect();
        let sep = *[",", ", ", " ,", " , "].choose(&mut rng).unwrap();
        let c = load(&format!("[gossip]\nbootstrap_peers = \"{}\"\n", pieces.join(sep)));
        t.rec(json!({"op": "peers", "want": pieces, "got": c.gossip.bootstrap_addrs()}));
        let ids: Vec<String> = (0..rng.gen_range(1..4)).map(|_| libp2p::PeerId::random().to_string()).collect();
        let c = load(&format!("[gossip]\ndirect_peers = \"{}\"\n", ids.join(sep)));
        t.rec(json!({"op": "peers", "want": ids, "got": c.gossip.direct_peers().iter().map(|p| p.to_string()).collect::<Vec<_>>()}));
    }
    for body in ["", "[consensus]\nvalidator_sets = []\n", "[consensus]\nvalidator_addresses = []\n"] {
        let c = load(body).consensus;
        t.rec(json!({"op": "none", "refused": guarded(|| c.get_validator_set_config(1)).is_err()}));
    }
}
