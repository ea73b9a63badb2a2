//! Runs the mesh view: known nodes, classification, pages, crawl, rates, cache, wire form.
use crate::common::*;
use crate::http::flat;
use rand::seq::SliceRandom;
use rand::Rng as _;
use serde_json::{json, Value};
use snapchain::network::gossip::GossipEvent;
use snapchain::network::mesh::cache::MeshCache;
use snapchain::network::mesh::config::Config;
use snapchain::network::mesh::crawl::crawl_mesh;
use snapchain::network::mesh::diagnostics::{MeshDiagnosticsCodec, MESH_DIAGNOSTICS_PROTOCOL};
use snapchain::network::mesh::metrics::GossipMetrics;
use snapchain::network::mesh::nodes::{resolve_http_api_url, KnownNode, NodeRegistry, NodeRole, Operator};
use snapchain::network::mesh::render;
use snapchain::network::mesh::view::{build_validator_peer_ids, classify_mesh_view};
use snapchain::core::types::SnapchainValidatorContext;
use snapchain::proto::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const TOPICS: &[&str] = &["consensus", "mempool", "decided-values", "read-node-peers", "contact-info"];

/// One-to-one replacement of the drawing characters.
fn plain(s: &str) -> Vec<String> {
    let t: String = s
        .chars()
        .map(|c| match c {
            '…' => '~',
            '●' => 'M',
            '◆' => 'D',
            '○' => 'S',
            '·' => '.',
            '—' => '-',
            '─' => '=',
            '╳' => 'X',
            '←' => '<',
            c => c,
        })
        .collect();
    let mut v: Vec<String> = t.split('\n').map(|l| l.to_string()).collect();
    if v.last().map(|l| l.is_empty()).unwrap_or(false) {
        v.pop();
    }
    v
}

#[derive(Clone)]
struct Ident {
    bytes: Vec<u8>,
    text: String,
    key: Vec<u8>,
}
impl Ident {
    fn of_key(n: u8) -> Self {
        let k = ed25519_dalek::SigningKey::from_bytes(&[n; 32]).verifying_key().to_bytes().to_vec();
        let mut b = vec![0x00, 0x24, 0x08, 0x01, 0x12, 0x20];
        b.extend(&k);
        Ident { text: bs58::encode(&b).into_string(), bytes: b, key: k }
    }
    /// Bytes that are no peer id.
    fn broken(b: Vec<u8>) -> Self {
        Ident { text: hex::encode(&b), bytes: b, key: vec![] }
    }
    fn tail(&self, n: usize) -> String {
        let c: Vec<char> = self.text.chars().collect();
        c[c.len().saturating_sub(n)..].iter().collect()
    }
    fn short(&self) -> String {
        format!("~{}", self.tail(7))
    }
}

struct G {
    r: Rng,
    ids: Vec<Ident>,
}
impl G {
    fn id(&mut self) -> Ident {
        self.ids.choose(&mut self.r).unwrap().clone()
    }
    fn word(&mut self) -> String {
        ["", "0.11.7", "a b", "<b>x</b>", "\"q\"", "/ip4/1.2.3.4/udp/3382/quic-v1", "é", "a,b"].choose(&mut self.r).unwrap().to_string()
    }
    fn v4(&mut self) -> [u8; 4] {
        match self.r.gen_range(0..6) {
            0 => *[[10, 0, 0, 1], [9, 255, 255, 255], [11, 0, 0, 0], [172, 15, 9, 9], [172, 16, 0, 0], [172, 31, 255, 255], [172, 32, 0, 1], [192, 168, 4, 4], [192, 167, 1, 1], [192, 169, 0, 1], [191, 168, 1, 1],
                [127, 0, 0, 1], [126, 1, 1, 1], [128, 0, 0, 1], [169, 254, 1, 1], [169, 253, 1, 1], [169, 255, 1, 1], [0, 0, 0, 0], [0, 0, 0, 1], [255, 255, 255, 255], [255, 255, 255, 254]].choose(&mut self.r).unwrap(),
            1 => [10, self.r.gen(), self.r.gen(), self.r.gen()],
            2 => [172, self.r.gen_range(14..34), self.r.gen(), self.r.gen()],
            3 => [192, self.r.gen_range(167..170), self.r.gen(), self.r.gen()],
            4 => [self.r.gen_range(168..171), self.r.gen_range(253..=255), self.r.gen(), self.r.gen()],
            _ => self.r.gen(),
        }
    }
    fn v6(&mut self) -> [u16; 8] {
        let mut s: [u16; 8] = self.r.gen();
        match self.r.gen_range(0..9) {
            0 => s = [0, 0, 0, 0, 0, 0, 0, self.r.gen_range(0..3)],
            1 => { let o = self.v4(); s = [0, 0, 0, 0, 0, 0xffff, (o[0] as u16) << 8 | o[1] as u16, (o[2] as u16) << 8 | o[3] as u16]; }
            2 => s[0] = self.r.gen_range(0xfb00..=0xfe00),
            3 => s[0] = self.r.gen_range(0xfe70..=0xfed0),
            4 => s[0] = 0x2001,
            5 => { let o = self.v4(); s = [0, 0, 0, 0, 0, 0, (o[0] as u16) << 8 | o[1] as u16, (o[2] as u16) << 8 | o[3] as u16]; }
            6 => { let o = self.v4(); s = [0, 0, 0, 0, 1, 0xffff, (o[0] as u16) << 8 | o[1] as u16, 7]; }
            _ => {}
        }
        s
    }
    /// An address text and the hosts it names, in order.
    fn addr(&mut self) -> (String, Value) {
        let n = *[0, 1, 1, 1, 1, 1, 2].choose(&mut self.r).unwrap();
        let mut hosts = vec![];
        let mut text = String::new();
        for _ in 0..n {
            match self.r.gen_range(0..5) {
                0 | 1 => {
                    let o = self.v4();
                    let t = o.map(|x| x.to_string()).join(".");
                    text += &format!("/ip4/{t}");
                    hosts.push(json!({"v": 4, "n": o, "text": t}));
                }
                2 | 3 => {
                    let s = self.v6();
                    let ip = std::net::Ipv6Addr::from(s);
                    text += &format!("/ip6/{ip}");
                    hosts.push(json!({"v": 6, "n": s, "text": ip.to_string()}));
                }
                _ => {
                    let p = *["dns", "dns4", "dns6", "dnsaddr"].choose(&mut self.r).unwrap();
                    let name = *["snap.example.org", "localhost", "x", "10.0.0.8", "8.8.8.8"].choose(&mut self.r).unwrap();
                    text += &format!("/{p}/{name}");
                    // a name that is spelled like an address is judged as one
                    hosts.push(match name.parse::<std::net::Ipv4Addr>() {
                        Ok(ip) => json!({"v": 4, "n": ip.octets(), "text": name}),
                        Err(_) => json!({"v": 0, "n": [], "text": name}),
                    });
                }
            }
            if self.r.gen_bool(0.7) {
                text += if self.r.gen() { "/udp/3382/quic-v1" } else { "/tcp/3383" };
            }
            if n == 2 && hosts.len() == 1 {
                text += &format!("/p2p/{}/p2p-circuit", Ident::of_key(3).text);
            }
        }
        if n == 0 {
            text = self.r.gen_range(0..3).min(2).to_string();
            text = match text.as_str() { "0" => String::new(), "1" => "not an address".into(), _ => "/udp/3382/quic-v1".into() };
        }
        if self.r.gen_bool(0.03) {
            return (format!("{text}/nonsense"), json!([]));
        }
        (text, json!(hosts))
    }
    fn net(&mut self) -> (i32, &'static str) {
        *[(1, "MAINNET"), (2, "TESTNET"), (3, "DEVNET"), (0, "?"), (9, "?")].choose(&mut self.r).unwrap()
    }
    fn count(&mut self) -> u64 {
        *[0u64, 1, 7, 1000, 123_456_789_012].choose(&mut self.r).unwrap()
    }
    fn local(&mut self, id: &Ident, raw: bool) -> (MeshSelf, Value) {
        let (net, name) = self.net();
        let (gossip, hosts) = self.addr();
        let topics: Vec<String> = TOPICS.iter().filter(|_| self.r.gen()).map(|t| t.to_string()).collect();
        let key = if !raw && self.r.gen() { id.key.clone() } else { vec![] };
        let l = MeshSelf {
            peer_id: id.bytes.clone(),
            consensus_public_key: key.clone(),
            is_validator: !raw && self.r.gen(),
            gossip_address: gossip.clone(),
            rpc_address: self.word(),
            snapchain_version: self.word(),
            network: net,
            subscribed_topics: topics.clone(),
            consensus_mesh_size: self.r.gen_range(0..9),
            current_height: if raw { 0 } else { self.count() },
        };
        let v = json!({"id": id.text, "short": id.short(), "tag": id.tail(5), "pub": hex::encode(&key), "val": l.is_validator, "gossip": gossip, "hosts": hosts,
            "rpc": l.rpc_address, "ver": l.snapchain_version, "net": name, "topics": topics, "size": l.consensus_mesh_size.to_string(), "h": l.current_height.to_string()});
        (l, v)
    }
    fn peer(&mut self, id: &Ident, raw: bool) -> (MeshPeer, Value) {
        let (nt, ntl) = if raw { (0, "unknown") } else { *[(1, "validator"), (1, "validator"), (2, "non-val"), (0, "unknown"), (77, "unknown")].choose(&mut self.r).unwrap() };
        let (src, srcl) = *[(1, "collected"), (2, "derived"), (0, "unknown"), (5, "unknown")].choose(&mut self.r).unwrap();
        let (addr, hosts) = self.addr();
        let key = if !raw && self.r.gen_bool(0.6) { Some(if self.r.gen_bool(0.1) { vec![] } else { id.key.clone() }) } else { None };
        let mut topics = vec![];
        let mut tv = vec![];
        let mut rates = vec![];
        let mut rv = vec![];
        for t in TOPICS {
            if self.r.gen_bool(0.75) {
                let m = TopicMembership { topic: t.to_string(), subscribed: self.r.gen(), in_mesh: self.r.gen_bool(0.4) };
                tv.push(json!({"topic": t, "sub": m.subscribed, "mesh": m.in_mesh}));
                topics.push(m);
            }
            if self.r.gen_bool(0.5) {
                let tenths = self.r.gen_range(0..300u32);
                let r = GossipRate { topic: t.to_string(), msgs_per_sec: tenths as f64 / 10.0, bytes_per_sec: self.r.gen_range(0..9000) as f64 / 8.0, total_msgs: self.count(), total_bytes: self.count() };
                rv.push(json!({"topic": t, "tenths": format!("{}.{}", tenths / 10, tenths % 10), "mps": json!(r.msgs_per_sec).to_string(), "bps": json!(r.bytes_per_sec).to_string(),
                    "tm": r.total_msgs.to_string(), "tb": r.total_bytes.to_string()}));
                rates.push(r);
            }
        }
        if self.r.gen_bool(0.3) { topics.reverse(); tv.reverse(); }
        let contact = if self.r.gen() {
            let (n, nl) = self.net();
            let c = ContactInfoBody { peer_id: id.bytes.clone(), gossip_address: self.word(), announce_rpc_address: self.word(), snapchain_version: self.word(), network: n, timestamp: self.count() };
            let v = json!([{"gossip": c.gossip_address, "rpc": c.announce_rpc_address, "ver": c.snapchain_version, "net": nl, "ts": c.timestamp.to_string()}]);
            (Some(c), v)
        } else {
            (None, json!([]))
        };
        let p = MeshPeer {
            peer_id: id.bytes.clone(),
            node_type: nt,
            consensus_public_key: key.clone(),
            connected: self.r.gen(),
            direct_peer: self.r.gen_bool(0.4),
            contact_source: src,
            contact_info: contact.0,
            observed_address: addr.clone(),
            topics,
            gossip_rates: rates,
        };
        let v = json!({"id": id.text, "short": id.short(), "nt": ntl, "pub": key.map_or("-".to_string(), hex::encode), "conn": p.connected, "direct": p.direct_peer, "source": srcl,
            "contact": contact.1, "addr": addr, "hosts": hosts, "topics": tv, "rates": rv});
        (p, v)
    }
    fn view(&mut self, me: Option<&Ident>, raw: bool, max: usize) -> (MeshView, Value) {
        let local = me.map(|m| self.local(m, raw));
        let mut pool = self.ids.clone();
        pool.shuffle(&mut self.r);
        let n = self.r.gen_range(0..=max.min(pool.len()));
        let mut peers = vec![];
        let mut pv = vec![];
        for id in &pool[..n] {
            if Some(&id.text) == me.map(|m| &m.text) && self.r.gen_bool(0.8) { continue; }
            let (p, v) = self.peer(id, raw);
            peers.push(p);
            pv.push(v);
        }
        let at = self.count();
        let v = json!({"self": local.as_ref().map_or(json!([]), |l| json!([l.1])), "peers": pv, "at": at.to_string()});
        (MeshView { local: local.map(|l| l.0), peers, generated_at: at }, v)
    }
}

/// What a classified view says, in the form the generator gave it.
/// The fields classification has no business with must come back as they went in.
fn reread(got: &MeshView, sent: &MeshView, told: &Value) -> Value {
    let mut out = json!({"self": [], "peers": [], "at": got.generated_at.to_string()});
    if let Some(l) = &got.local {
        let mut v = told["self"].get(0).cloned().unwrap_or(json!({}));
        v["val"] = json!(l.is_validator);
        v["pub"] = json!(hex::encode(&l.consensus_public_key));
        v["h"] = json!(l.current_height.to_string());
        let mut a = l.clone();
        let b = sent.local.clone().unwrap_or_default();
        a.is_validator = b.is_validator;
        a.consensus_public_key = b.consensus_public_key.clone();
        a.current_height = b.current_height;
        if a != b { v["changed"] = json!(format!("{a:?}")); }
        out["self"] = json!([v]);
    }
    let mut rest: Vec<usize> = (0..sent.peers.len()).collect();
    for p in &got.peers {
        let k = rest.iter().position(|k| sent.peers[*k].peer_id == p.peer_id);
        let Some(k) = k else { out["peers"].as_array_mut().unwrap().push(json!({"unasked": hex::encode(&p.peer_id)})); continue; };
        let k = rest.remove(k);
        let mut v = told["peers"][k].clone();
        v["nt"] = json!(match p.node_type { 1 => "validator", 2 => "non-val", _ => "unknown" });
        v["pub"] = json!(p.consensus_public_key.as_ref().map_or("-".to_string(), hex::encode));
        let mut a = p.clone();
        a.node_type = sent.peers[k].node_type;
        a.consensus_public_key = sent.peers[k].consensus_public_key.clone();
        if a != sent.peers[k] { v["changed"] = json!(format!("{a:?}")); }
        out["peers"].as_array_mut().unwrap().push(v);
    }
    out
}

fn entry(k: &KnownNode) -> Value {
    json!({"name": k.name,
        "op": match k.operator { Operator::Neynar => "neynar", Operator::Merkle => "merkle", Operator::Community => "community", Operator::Unknown => "" },
        "role": match k.role { NodeRole::MainnetValidator => "mainnet_validator", NodeRole::MainnetReader => "mainnet_reader", NodeRole::TestnetValidator => "testnet_validator", NodeRole::TestnetReader => "testnet_reader", NodeRole::Unknown => "" },
        "url": k.http_api_url.clone().unwrap_or_default(), "pub": k.consensus_public_key.clone().unwrap_or_default().to_lowercase(), "pid": k.peer_id.clone().unwrap_or_default(),
        "off": k.offline, "hasnote": k.note.is_some(), "note": k.note.clone().unwrap_or_default()})
}

/// The compiled-in table, found by asking for every key that appears in the source.
fn builtin() -> Vec<KnownNode> {
    let src = std::fs::read_to_string("/repo/src/network/mesh/nodes.rs").unwrap_or_default();
    let reg = NodeRegistry::builtin();
    let mut out: Vec<KnownNode> = vec![];
    for w in src.split('"') {
        let k = if w.len() == 64 && w.chars().all(|c| c.is_ascii_hexdigit()) { reg.lookup("", Some(w)) } else if w.starts_with("12D3") { reg.lookup(w, None) } else { None };
        if let Some(k) = k {
            if !out.contains(k) { out.push(k.clone()); }
        }
    }
    out
}

fn configured(g: &mut G, n: usize, pubk: Option<String>, pid: Option<String>) -> KnownNode {
    // through the configuration's own form, with fields left out at random
    let mut v = json!({"name": format!("node{n}")});
    let o = v.as_object_mut().unwrap();
    if g.r.gen_bool(0.7) { o.insert("operator".into(), json!(["neynar", "merkle", "community", "unknown"].choose(&mut g.r))); }
    if g.r.gen_bool(0.7) { o.insert("role".into(), json!(["mainnet_validator", "mainnet_reader", "testnet_validator", "testnet_reader", "unknown"].choose(&mut g.r))); }
    if g.r.gen_bool(0.6) { o.insert("http_api_url".into(), json!(["http://h:1", "", "https://x.org"].choose(&mut g.r))); }
    if g.r.gen_bool(0.4) { o.insert("offline".into(), json!(g.r.gen::<bool>())); }
    if g.r.gen_bool(0.4) { o.insert("note".into(), json!(["", "n", "<i>"].choose(&mut g.r))); }
    if let Some(p) = pubk { o.insert("consensus_public_key".into(), json!(if g.r.gen_bool(0.3) { p.to_uppercase() } else { p })); }
    if let Some(p) = pid { o.insert("peer_id".into(), json!(p)); }
    serde_json::from_value(v).unwrap()
}

fn registry(ctx: &Ctx, g: &mut G, table: &[KnownNode], told: &Value) {
    let mut t = ctx.trace("registry");
    let both: Vec<&KnownNode> = table.iter().filter(|k| k.consensus_public_key.is_some() && k.peer_id.is_some()).collect();
    let only: Vec<&KnownNode> = table.iter().filter(|k| k.consensus_public_key.is_none()).collect();
    let mut plans: Vec<Vec<(String, String)>> = ctx.behaviours().iter().filter_map(|b| b.as_array().map(|b| b.iter().map(|e| (e["pub"].as_str().unwrap().to_string(), e["pid"].as_str().unwrap().to_string())).collect())).collect();
    let sym = ["", "a", "b", "c", "n", "m"];
    for _ in 0..ctx.scale(60, 1500) {
        let n = g.r.gen_range(0..5);
        plans.push((0..n).map(|_| { let p = sym.choose(&mut g.r).unwrap().to_string(); (if p == "c" { "".into() } else { p }, sym.choose(&mut g.r).unwrap().to_string()) }).collect());
    }
    for plan in plans {
        let (a, b) = (both[g.r.gen_range(0..both.len() / 2)], both[g.r.gen_range(both.len() / 2..both.len())]);
        let c = only.choose(&mut g.r).unwrap();
        let keys: HashMap<&str, (String, String)> = [
            ("a", (a.consensus_public_key.clone().unwrap(), a.peer_id.clone().unwrap())),
            ("b", (b.consensus_public_key.clone().unwrap(), b.peer_id.clone().unwrap())),
            ("c", (String::new(), c.peer_id.clone().unwrap())),
            ("n", (hex::encode([0xabu8; 32]), "12D3new".into())),
            ("m", (hex::encode([0xcdu8; 32]), "12D3more".into())),
        ].into();
        let cfg: Vec<KnownNode> = plan.iter().enumerate().map(|(i, (p, q))| {
            let pubk = if p.is_empty() { if g.r.gen_bool(0.2) { Some(String::new()) } else { None } } else { Some(keys[p.as_str()].0.clone()) };
            let pid = if q.is_empty() { if g.r.gen_bool(0.2) { Some(String::new()) } else { None } } else { Some(keys[q.as_str()].1.clone()) };
            configured(g, i, pubk, pid)
        }).collect();
        let reg = NodeRegistry::from_config(&Config { nodes: cfg.clone(), ..Default::default() });
        let mut asks = vec![];
        for p in ["a", "b", "n", "m", "", "z"] {
            for q in ["a", "b", "c", "n", "m", "", "z"] {
                let pk = keys.get(p).map(|k| k.0.clone()).unwrap_or(if p == "z" { hex::encode([9; 32]) } else { String::new() });
                let pd = keys.get(q).map(|k| k.1.clone()).unwrap_or(if q == "z" { "12D3nobody".into() } else { String::new() });
                let up = if g.r.gen_bool(0.3) { pk.to_uppercase() } else { pk.clone() };
                let arg = if pk.is_empty() && g.r.gen() { None } else { Some(up.as_str()) };
                asks.push(json!({"pid": pd, "pub": pk, "got": reg.lookup(&pd, arg).map_or(json!({"name": ""}), entry)}));
            }
        }
        t.rec(json!({"op": "registry", "builtin": told, "cfg": cfg.iter().map(entry).collect::<Vec<_>>(), "len": reg.len(), "asks": asks}));
    }
}

fn pages(ctx: &Ctx, g: &mut G, table: &[KnownNode], told: &Value) {
    let mut t = ctx.trace("pages");
    // a few of the identities are configured nodes, so that names show up
    for n in 0..ctx.scale(250, 3000) {
        let mut cfg = vec![];
        for (k, id) in g.ids.clone().iter().enumerate() {
            if g.r.gen_bool(0.3) {
                let pubk = if g.r.gen() && !id.key.is_empty() { Some(hex::encode(&id.key)) } else { None };
                cfg.push(configured(g, k, pubk, Some(id.text.clone())));
            }
        }
        let reg = NodeRegistry::from_config(&Config { nodes: cfg.clone(), ..Default::default() });
        let cfgv: Vec<Value> = cfg.iter().map(entry).collect();
        let mut topics: Vec<String> = TOPICS.iter().map(|t| t.to_string()).collect();
        topics.shuffle(&mut g.r);
        topics.truncate(g.r.gen_range(1..=5));
        let _ = table;
        if n % 2 == 0 {
            let me = if g.r.gen_bool(0.9) { Some(g.id()) } else { None };
            let (v, told_v) = g.view(me.as_ref(), false, 6);
            let text = plain(&render::render_mesh_view(&v, &topics));
            let mut l = vec![];
            flat(&render::mesh_view_json(&v, &reg), "", &mut l);
            t.rec(json!({"op": "view", "builtin": told, "cfg": cfgv, "topics": topics, "view": told_v, "text": text, "json": l}));
        } else {
            let mut ids = g.ids.clone();
            ids.shuffle(&mut g.r);
            let k = g.r.gen_range(0..5);
            let mut nodes = vec![];
            let mut nv = vec![];
            for id in ids.iter().take(k) {
                let told_self = g.r.gen_bool(0.95);
                let (v, j) = g.view(told_self.then_some(id), false, 6);
                nodes.push(v);
                nv.push(j);
            }
            let mut un = vec![];
            let mut uv = vec![];
            let few = g.r.gen_range(0..3);
            for id in ids.iter().skip(k).take(few) {
                let key = if g.r.gen() { id.key.clone() } else { vec![] };
                let reason = ["timeout", "not_connected", "error: x", ""].choose(&mut g.r).unwrap().to_string();
                uv.push(json!({"id": id.text, "short": id.short(), "pub": hex::encode(&key), "reason": reason}));
                un.push(UnreachableNode { peer_id: id.bytes.clone(), consensus_public_key: key, reason });
            }
            let at = g.count();
            let topo = MeshTopology { nodes, unreachable: un, generated_at: at };
            let text = plain(&render::render_topology(&topo, &topics));
            let mut l = vec![];
            flat(&render::topology_json(&topo, &reg), "", &mut l);
            t.rec(json!({"op": "topology", "builtin": told, "cfg": cfgv, "topics": topics, "topo": {"nodes": nv, "unreachable": uv, "at": at.to_string()}, "text": text, "json": l}));
        }
    }
    for _ in 0..ctx.scale(600, 6000) {
        let (addr, hosts) = g.addr();
        let known = if g.r.gen() { Some(configured(g, 1, None, None)) } else { None };
        let (u, s) = resolve_http_api_url(known.as_ref(), &addr).map_or((String::new(), ""), |(u, s)| (u, s.as_str()));
        t.rec(json!({"op": "url", "known": known.as_ref().map_or(json!({"name": ""}), entry), "addr": addr, "hosts": hosts, "got": [u, s]}));
    }
    for _ in 0..ctx.scale(150, 1500) {
        let n = g.r.gen_range(0..4);
        let parts: Vec<String> = (0..n).map(|_| ["consensus", "mempool", "decided-values", "read-node-peers", "contact-info", "all", "ALL", "All", "", "Consensus", "nope", "consensu"][g.r.gen_range(0..12usize)].to_string()).collect();
        let raw: Vec<String> = parts.iter().map(|p| if g.r.gen_bool(0.3) { format!(" {p}\t") } else { p.clone() }).collect();
        let param = if n == 0 { None } else { Some(raw.join(",")) };
        let got = render::parse_topics(param.as_deref());
        t.rec(json!({"op": "topics", "parts": parts, "all": parts.iter().any(|p| p.to_lowercase() == "all"), "got": got}));
    }
}

fn keys(g: &mut G) -> (Vec<String>, Value) {
    let mut raw = vec![];
    let mut told = vec![];
    for id in g.ids.clone() {
        if id.key.is_empty() || g.r.gen() { continue; }
        let mut k = hex::encode(&id.key);
        if g.r.gen_bool(0.2) { k = k.to_uppercase(); }
        let mut ok = true;
        if g.r.gen_bool(0.15) {
            ok = false;
            match g.r.gen_range(0..4) { 0 => { k.pop(); } 1 => { k = k[2..].to_string(); } 2 => { k = format!("0x{k}"); } _ => { k.push_str("00"); } }
        }
        raw.push(k);
        told.push(json!({"id": id.text, "pub": hex::encode(&id.key), "ok": ok}));
    }
    (raw, json!(told))
}

fn crawl_one(rt: &tokio::runtime::Runtime, g: &mut G, t: &mut Trace) {
    let (raw, told_keys) = keys(g);
    let validators = build_validator_peer_ids(raw.iter());
    let me = g.id();
    let (view, told_view) = g.view(Some(&me), true, 9);
    let only: bool = g.r.gen();
    let h = g.count();
    let at = g.count();
    let mut replies: HashMap<Vec<u8>, (&'static str, MeshView, String)> = HashMap::new();
    let mut told_replies = vec![];
    let mut sent: HashMap<Vec<u8>, (MeshView, Value)> = HashMap::new();
    sent.insert(me.bytes.clone(), (view.clone(), told_view.clone()));
    for id in g.ids.clone() {
        let (v, j) = g.view(Some(&id), true, 5);
        let kind = *["view", "view", "view", "error", "silent", "closed"].choose(&mut g.r).unwrap();
        let text = g.word();
        if id.text != me.text { sent.insert(id.bytes.clone(), (v.clone(), j.clone())); }
        replies.insert(id.bytes.clone(), (kind, v, text.clone()));
        told_replies.push(json!({"id": id.text, "reply": {"kind": kind, "view": j, "text": text}}));
    }
    let asked: Arc<Mutex<Vec<Value>>> = Default::default();
    let seen = asked.clone();
    let topo = rt.block_on(async move {
        let (tx, mut rx) = tokio::sync::mpsc::channel::<GossipEvent<SnapchainValidatorContext>>(4);
        let gossip = tokio::spawn(async move {
            let mut held = vec![];
            while let Some(e) = rx.recv().await {
                match e {
                    GossipEvent::GetMeshView(tx) => { let _ = tx.send(view.clone()); }
                    GossipEvent::SendMeshViewRequest(pid, req, tx) => {
                        seen.lock().unwrap().push(json!({"id": pid.to_base58(), "only": req.validators_only}));
                        match replies.get(&pid.to_bytes()) {
                            Some(("view", v, _)) => { let _ = tx.send(Ok(v.clone())); }
                            Some(("error", _, s)) => { let _ = tx.send(Err(s.clone())); }
                            Some(("silent", _, _)) => held.push(tx),
                            _ => drop(tx),
                        }
                    }
                    _ => {}
                }
            }
        });
        let r = crawl_mesh(&tx, &validators, h, only, at).await;
        drop(tx);
        let _ = gossip.await;
        r.unwrap()
    });
    let nodes: Vec<Value> = topo.nodes.iter().map(|n| {
        let id = n.local.as_ref().map(|l| l.peer_id.clone()).unwrap_or_default();
        match sent.get(&id) { Some((v, j)) => reread(n, v, j), None => json!({"unknown": hex::encode(id)}) }
    }).collect();
    let missing: Vec<Value> = topo.unreachable.iter().map(|u| json!({"id": bs58::encode(&u.peer_id).into_string(), "pub": hex::encode(&u.consensus_public_key), "reason": u.reason})).collect();
    let asked = asked.lock().unwrap().clone();
    t.rec(json!({"op": "crawl", "keys": told_keys, "view": told_view, "h": h.to_string(), "only": only, "replies": told_replies, "nodes": nodes, "missing": missing, "asked": asked}));
}

fn classify(ctx: &Ctx, g: &mut G) {
    let mut t = ctx.trace("classify");
    for _ in 0..ctx.scale(200, 3000) {
        let (raw, told_keys) = keys(g);
        let validators = build_validator_peer_ids(raw.iter());
        let got: Vec<Value> = validators.iter().map(|(p, k)| json!([p.to_base58(), hex::encode(k)])).collect();
        t.rec(json!({"op": "keys", "keys": told_keys, "got": got}));
        let me = if g.r.gen_bool(0.9) { Some(g.id()) } else { None };
        let raw = g.r.gen_bool(0.7);
        let (v, told) = g.view(me.as_ref(), raw, 8);
        let only: bool = g.r.gen();
        let h = g.count();
        let out = classify_mesh_view(v.clone(), &validators, h, only);
        t.rec(json!({"op": "classify", "keys": told_keys, "view": told, "h": h.to_string(), "only": only, "out": reread(&out, &v, &told)}));
    }
    // time stands still except while everybody waits, so silence costs nothing
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    for _ in 0..ctx.scale(120, 2000) {
        crawl_one(&rt, g, &mut t);
    }
}

fn rates(ctx: &Ctx, g: &mut G) {
    let mut t = ctx.trace("rates");
    let start = Instant::now();
    for _ in 0..ctx.scale(6, 60) {
        t.rec(json!({"op": "reset"}));
        let m = GossipMetrics::new();
        let ids: Vec<Ident> = (1..4).map(Ident::of_key).collect();
        let pid = |i: &Ident| libp2p::PeerId::from_bytes(&i.bytes).unwrap();
        let pick = |g: &mut G| -> Vec<&'static str> { TOPICS[..3].iter().copied().filter(|_| g.r.gen_bool(0.7)).collect() };
        for _ in 0..60 {
            let id = ids.choose(&mut g.r).unwrap();
            match g.r.gen_range(0..12) {
                0..=5 => {
                    let (topic, bytes) = (*TOPICS[..3].choose(&mut g.r).unwrap(), *[0u64, 1, 100, 5000].choose(&mut g.r).unwrap());
                    for _ in 0..*[1, 3, 17].choose(&mut g.r).unwrap() {
                        m.record_message(&pid(id), topic, bytes);
                        t.rec(json!({"op": "record", "peer": id.text, "topic": topic, "bytes": bytes}));
                    }
                }
                6..=7 => {
                    std::thread::sleep(Duration::from_millis(g.r.gen_range(3..25)));
                    let who: Vec<&Ident> = ids.iter().filter(|_| g.r.gen_bool(0.8)).collect();
                    let ps: Vec<libp2p::PeerId> = who.iter().map(|i| pid(i)).collect();
                    let ts = pick(g);
                    let lo = start.elapsed().as_millis() as u64;
                    m.refresh_rates(ps.iter(), &ts);
                    let hi = start.elapsed().as_millis() as u64 + 1;
                    t.rec(json!({"op": "refresh", "peers": who.iter().map(|i| i.text.clone()).collect::<Vec<_>>(), "topics": ts, "lo": lo, "hi": hi}));
                }
                8 => {
                    let ts = pick(g);
                    m.remove_peer(&pid(id), &ts);
                    t.rec(json!({"op": "forget", "peer": id.text, "topics": ts}));
                }
                _ => {
                    let ts = pick(g);
                    let got: Vec<Value> = m.rates_for(&pid(id), &ts).into_iter().map(|(topic, r)| json!({"topic": topic, "tm": r.total_msgs, "tb": r.total_bytes,
                        "mps": r.msgs_per_sec.floor() as u64, "bps": r.bytes_per_sec.floor() as u64, "zero": r.msgs_per_sec == 0.0 && r.bytes_per_sec == 0.0})).collect();
                    t.rec(json!({"op": "rates", "peer": id.text, "topics": ts, "got": got}));
                }
            }
        }
    }
}

fn cache(ctx: &Ctx, g: &mut G) {
    let mut t = ctx.trace("cache");
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    let start = Instant::now();
    let fresh = AtomicUsize::new(1);
    for round in 0..ctx.scale(14, 100) {
        let ttl = [60_000u64, 0, 60, 250][round % 4];
        let c = MeshCache::new(Duration::from_millis(ttl));
        let mut steps = vec![];
        for _ in 0..25 {
            let which = g.r.gen_range(0..2);
            let only: bool = g.r.gen();
            let ok = g.r.gen_bool(0.75);
            let n = fresh.fetch_add(1, Ordering::SeqCst);
            if ttl > 0 && ttl < 1000 { std::thread::sleep(Duration::from_millis(*[0, 0, 5, ttl / 2, ttl + 20].choose(&mut g.r).unwrap())); }
            let ran = AtomicUsize::new(0);
            let lo = start.elapsed().as_millis() as u64;
            let got = rt.block_on(async {
                let f = |v: Result<u64, tonic::Status>| match v { Ok(x) => x.to_string(), Err(s) => format!("{:?} {}", s.code(), s.message()) };
                let fail = || tonic::Status::new(tonic::Code::Unavailable, format!("no {n}"));
                if which == 0 {
                    f(c.view(only, || async { ran.fetch_add(1, Ordering::SeqCst); if ok { Ok(MeshView { generated_at: n as u64, ..Default::default() }) } else { Err(fail()) } }).await.map(|v| v.generated_at))
                } else {
                    f(c.topology(only, || async { ran.fetch_add(1, Ordering::SeqCst); if ok { Ok(MeshTopology { generated_at: n as u64, ..Default::default() }) } else { Err(fail()) } }).await.map(|v| v.generated_at))
                }
            });
            let hi = start.elapsed().as_millis() as u64 + 1;
            steps.push(json!({"q": format!("{which}{only}"), "ok": ok, "ran": ran.load(Ordering::SeqCst) > 0, "lo": lo, "hi": hi, "got": got,
                "fresh": if ok { n.to_string() } else { format!("Unavailable no {n}") }}));
        }
        t.rec(json!({"op": "cache", "ttl": ttl, "steps": steps}));
    }
    for round in 0..ctx.scale(8, 60) {
        let c = MeshCache::new(Duration::from_secs(60));
        let n = 6usize;
        let (ran, waiting) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
        let gate = Arc::new(tokio::sync::Semaphore::new(0));
        let got: Vec<String> = rt.block_on(async {
            let hs: Vec<_> = (0..n).map(|i| {
                let (c, ran, waiting, gate) = (c.clone(), ran.clone(), waiting.clone(), gate.clone());
                tokio::spawn(async move {
                    waiting.fetch_add(1, Ordering::SeqCst);
                    let init = || async move {
                        ran.fetch_add(1, Ordering::SeqCst);
                        let _ = gate.acquire().await;
                        i as u64 + 1
                    };
                    if round % 2 == 0 {
                        c.view(true, || async { Ok(MeshView { generated_at: init().await, ..Default::default() }) }).await.map(|v| v.generated_at)
                    } else {
                        c.topology(true, || async { Ok(MeshTopology { generated_at: init().await, ..Default::default() }) }).await.map(|v| v.generated_at)
                    }
                })
            }).collect();
            while waiting.load(Ordering::SeqCst) < n { tokio::time::sleep(Duration::from_millis(2)).await; }
            tokio::time::sleep(Duration::from_millis(15)).await;
            gate.add_permits(n);
            let mut out = vec![];
            for h in hs { out.push(h.await.unwrap().map_or_else(|e| e.to_string(), |v| v.to_string())); }
            out
        });
        t.rec(json!({"op": "flight", "ran": ran.load(Ordering::SeqCst), "got": got}));
    }
}

fn codec(ctx: &Ctx, g: &mut G) {
    use futures::io::Cursor;
    use libp2p::request_response::Codec as _;
    use prost::Message as _;
    let mut t = ctx.trace("codec");
    let mut c = MeshDiagnosticsCodec;
    let p = MESH_DIAGNOSTICS_PROTOCOL;
    for n in 0..ctx.scale(40, 400) {
        let req = GetMeshViewRequest { validators_only: g.r.gen(), ttl: g.r.gen(), visited_peer_ids: (0..g.r.gen_range(0..3)).map(|_| g.id().bytes).collect() };
        let me = g.id();
        let (v, _) = g.view(Some(&me), true, 6);
        let (res, want) = block_on(async {
            let mut w = Cursor::new(vec![]);
            match n % 5 {
                0 => { c.write_request(&p, &mut w, req.clone()).await.unwrap(); w.set_position(0); let r = c.read_request(&p, &mut w).await; (r.map_or_else(|e| format!("{:?}", e.kind()), |r| (r == req).to_string()), "true") }
                1 => { c.write_response(&p, &mut w, v.clone()).await.unwrap(); w.set_position(0); let r = c.read_response(&p, &mut w).await; (r.map_or_else(|e| format!("{:?}", e.kind()), |r| (r == v).to_string()), "true") }
                2 => { let r = c.read_response(&p, &mut w).await; (r.map_or_else(|e| format!("{:?}", e.kind()), |_| "accepted".into()), "UnexpectedEof") }
                3 => { let mut w = Cursor::new(vec![0x0a, 0xff, 0x01]); let r = c.read_response(&p, &mut w).await; (r.map_or_else(|e| format!("{:?}", e.kind()), |_| "accepted".into()), "InvalidData") }
                _ => {
                    let b = v.encode_to_vec();
                    let cut = b.len() - 1;
                    let mut w = Cursor::new(b[..cut].to_vec());
                    let r = c.read_response(&p, &mut w).await;
                    let _ = cut;
                    (r.map_or_else(|e| format!("{:?}", e.kind()), |r| (r != v).to_string()), if MeshView::decode(&b[..cut]).is_ok() { "true" } else { "InvalidData" })
                }
            }
        });
        t.rec(json!({"op": "codec", "case": n % 5, "res": res, "want": want}));
    }
}

pub fn run(ctx: &Ctx) {
    let mut g = G { r: ctx.rng(24), ids: (1..9).map(Ident::of_key).collect() };
    g.ids.push(Ident::broken(vec![0xde, 0xad, 0xbe, 0xef, 0x01]));
    g.ids.push(Ident::broken(vec![7]));
    let table = builtin();
    let told = json!(table.iter().map(entry).collect::<Vec<_>>());
    registry(ctx, &mut g, &table, &told);
    pages(ctx, &mut g, &table, &told);
    classify(ctx, &mut g);
    rates(ctx, &mut g);
    cache(ctx, &mut g);
    codec(ctx, &mut g);
}
