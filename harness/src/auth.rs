//! Which calls a node answers (AuthTrace.tla): the real user, diagnostic and
//! operator services, called directly and through the HTTP gateway.
use crate::common::*;
use crate::http::ask;
use base64::prelude::*;
use rand::seq::SliceRandom;
use rand::Rng as _;
use serde_json::{json, Value};
use snapchain::connectors::fname::FnameRequest;
use snapchain::connectors::onchain_events::{ChainClients, OnchainEventsRequest};
use snapchain::core::util::FarcasterTime;
use snapchain::mempool::mempool::MempoolRequest;
use snapchain::mempool::routing::ShardRouter;
use snapchain::network::admin_server::MyAdminService;
use snapchain::network::gossip::GossipEvent;
use snapchain::network::http_server::{spawn_http_server, Config, HubHttpServiceImpl};
use snapchain::network::mesh::nodes::NodeRegistry;
use snapchain::network::server::MyHubService;
use snapchain::proto::admin_service_server::AdminService;
use snapchain::proto::hub_service_server::HubService;
use snapchain::proto::*;
use snapchain::storage::db::{RocksDB, RocksDbTransactionBatch};
use snapchain::storage::store::block_engine::BlockStores;
use snapchain::storage::store::engine::Senders;
use snapchain::storage::store::node_local_state::LocalStateStore;
use snapchain::storage::store::stores::{StoreLimits, Stores};
use snapchain::storage::store::test_helper::{self, statsd_client};
use snapchain::storage::trie::merkle_trie::MerkleTrie;
use snapchain::utils::factory::{events_factory, messages_factory};
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Duration;
use tokio::sync::{broadcast, mpsc};
use tonic::{Code, Request, Status};

const NET: FarcasterNetwork = FarcasterNetwork::Devnet;
const FID: u64 = 1001;

struct Node {
    _dirs: Vec<tempfile::TempDir>,
    backups: std::path::PathBuf,
    svc: Arc<MyHubService>,
    admin: MyAdminService,
    addr: std::net::SocketAddr,
    handed: Arc<AtomicUsize>,
    asked: Arc<AtomicUsize>,
}

fn db(dirs: &mut Vec<tempfile::TempDir>) -> Arc<RocksDB> {
    let d = tmp();
    let db = Arc::new(RocksDB::new(d.path().to_str().unwrap()));
    db.open().unwrap();
    dirs.push(d);
    db
}

fn text(entries: &Value) -> String {
    let e: Vec<String> = entries
        .as_array()
        .unwrap()
        .iter()
        .map(|e| e.as_array().unwrap().iter().map(|p| p.as_str().unwrap()).collect::<Vec<_>>().join(":"))
        .collect();
    e.join(",")
}

async fn node(users: &Value, diagnostics: &Value, operator: &Value) -> Node {
    let mut dirs = vec![];
    let stores = Stores::new(db(&mut dirs), 1, MerkleTrie::new().unwrap(), StoreLimits::default(), NET, statsd_client());
    let mut b = RocksDbTransactionBatch::new();
    for e in [
        events_factory::create_id_register_event(FID, IdRegisterEventType::Register, vec![7; 20], None),
        events_factory::create_signer_event(FID, test_helper::default_signer(), SignerEventType::Add, None, None),
        test_helper::default_storage_event(FID),
    ] {
        stores.onchain_event_store.merge_onchain_event(e, &mut b).unwrap();
    }
    stores.db.commit(b).unwrap();
    let stores = HashMap::from([(1, stores)]);
    let blocks = BlockStores::new(db(&mut dirs), MerkleTrie::new().unwrap(), NET);
    let (mtx, mut mrx) = mpsc::channel::<MempoolRequest>(10);
    let (gtx, mut grx) = mpsc::channel::<GossipEvent<_>>(10);
    let handed = Arc::new(AtomicUsize::new(0));
    let asked = Arc::new(AtomicUsize::new(0));
    let h = handed.clone();
    tokio::spawn(async move {
        while let Some(r) = mrx.recv().await {
            if let MempoolRequest::AddMessage(_, _, reply) = r {
                h.fetch_add(1, Ordering::SeqCst);
                if let Some(reply) = reply {
                    let _ = reply.send(Ok(()));
                }
            }
        }
    });
    let a = asked.clone();
    tokio::spawn(async move {
        while let Some(e) = grx.recv().await {
            match e {
                GossipEvent::GetMeshView(tx) => {
                    a.fetch_add(1, Ordering::SeqCst);
                    let _ = tx.send(MeshView::default());
                }
                GossipEvent::GetConnectedPeers(tx) => {
                    let _ = tx.send(vec![]);
                }
                _ => {}
            }
        }
    });
    let svc = Arc::new(MyHubService::new(
        text(users), text(diagnostics), vec![], blocks.clone(), stores.clone(), HashMap::from([(1, Senders::new())]), statsd_client(), 1, NET,
        Box::new(ShardRouter {}), mtx.clone(), gtx, ChainClients { chain_api_map: HashMap::new() }, "0".into(), "me".into(), None,
        Default::default(),
    ));
    let d = tmp();
    let backups = d.path().join("backups");
    dirs.push(d);
    let snapshots = snapchain::storage::db::snapshot::Config {
        backup_dir: backups.to_str().unwrap().into(),
        endpoint_url: "http://127.0.0.1:9".into(),
        ..Default::default()
    };
    let admin = MyAdminService::new(
        text(operator),
        mtx,
        broadcast::channel::<OnchainEventsRequest>(4).0,
        broadcast::channel::<FnameRequest>(4).0,
        stores,
        blocks,
        snapshots,
        NET,
        statsd_client(),
        LocalStateStore::new(db(&mut dirs)),
    );
    let config: Config = serde_json::from_value(json!({"cors_origin": "*"})).unwrap();
    let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
    let addr = l.local_addr().unwrap();
    spawn_http_server(l, HubHttpServiceImpl { service: svc.clone() }, config, Arc::new(NodeRegistry::builtin()));
    Node { _dirs: dirs, backups, svc, admin, addr, handed, asked }
}

/// The text of a header.
fn header(h: &Value) -> Option<String> {
    if !h["there"].as_bool().unwrap() {
        return None;
    }
    let said = h["pieces"].as_array().unwrap().iter().map(|p| p.as_str().unwrap()).collect::<Vec<_>>().join(":");
    let b = BASE64_STANDARD.encode(&said);
    let second = match h["decodes"].as_bool().unwrap() {
        true => b,
        // not base64, or base64 of what is not text
        false if said.len() % 2 == 0 => format!("!{b}"),
        false => BASE64_STANDARD.encode([&[0xff, 0xfe][..], said.as_bytes()].concat()),
    };
    let mut words = vec![h["scheme"].as_str().unwrap().to_string(), second, "more".into()];
    words.truncate(h["words"].as_u64().unwrap() as usize);
    Some(words.join(" "))
}

fn with<T>(head: &Option<String>, t: T) -> Request<T> {
    let mut r = Request::new(t);
    if let Some(h) = head {
        r.metadata_mut().insert("authorization", h.parse().unwrap());
    }
    r
}

struct Out {
    answered: bool,
    shown: bool,
    code: String,
}
fn out<T>(r: Result<T, Status>, shows: bool) -> Out {
    match r {
        Ok(_) => Out { answered: true, shown: shows, code: "-".into() },
        Err(s) => Out { answered: s.code() != Code::Unauthenticated, shown: false, code: format!("{:?}", s.code()) },
    }
}

impl Node {
    fn message(&self, n: &mut u32) -> Message {
        *n += 1;
        let ts = FarcasterTime::current().to_u64() as u32;
        messages_factory::casts::create_cast_add(FID, &format!("cast {n}"), Some(ts), Some(&test_helper::default_signer()))
    }
    async fn call(&self, call: &str, via: &str, head: &Option<String>, n: &mut u32) -> Out {
        if via == "http" {
            return self.http(call, head, n).await;
        }
        match call {
            "submit" => match self.svc.submit_message(with(head, self.message(n))).await {
                Err(s) if s.code() != Code::Unauthenticated => Out { answered: true, shown: false, code: format!("{s:?}") },
                r => out(r, true),
            },
            "bulk" => out(self.svc.submit_bulk_messages(with(head, SubmitBulkMessagesRequest { messages: vec![self.message(n)] })).await, true),
            "view" => out(self.svc.get_mesh_view(with(head, GetMeshViewRequest::default())).await, true),
            "crawl" => out(self.svc.get_mesh_topology(with(head, GetMeshViewRequest::default())).await, true),
            "info" => out(self.svc.get_info(with(head, GetInfoRequest {})).await, true),
            "peers" => out(self.svc.get_connected_peers(with(head, GetConnectedPeersRequest {})).await, true),
            "migrate" => out(self.admin.run_onchain_events_migration(with(head, RunOnchainEventsMigrationRequest { shard_id: 9, ..Default::default() })).await, false),
            "upload" => {
                let _ = std::fs::remove_dir_all(&self.backups);
                let mut o = out(self.admin.upload_snapshot(with(head, UploadSnapshotRequest { shard_indexes: vec![9] })).await, false);
                // the upload goes on in the background; for a shard that is not there it only makes its folder
                for _ in 0..(if o.answered { 200 } else { 4 }) {
                    if self.backups.exists() {
                        o.shown = true;
                        break;
                    }
                    tokio::time::sleep(Duration::from_millis(2)).await;
                }
                o
            }
            _ => unreachable!(),
        }
    }
    async fn http(&self, call: &str, head: &Option<String>, n: &mut u32) -> Out {
        use prost::Message as _;
        let mut headers: Vec<(String, String)> = vec![];
        if let Some(h) = head {
            headers.push(("Authorization".into(), h.clone()));
        }
        let (method, target, body) = match call {
            "submit" => ("POST", "/v1/submitMessage", self.message(n).encode_to_vec()),
            "bulk" => ("POST", "/v1/submitBulkMessages", SubmitBulkMessagesRequest { messages: vec![self.message(n)] }.encode_to_vec()),
            "view" => ("GET", "/v1/mesh", vec![]),
            "crawl" => ("GET", "/v1/mesh?crawl=true", vec![]),
            "info" => ("GET", "/v1/info", vec![]),
            _ => ("GET", "/v1/currentPeers", vec![]),
        };
        if method == "POST" {
            headers.push(("Content-Type".into(), "application/octet-stream".into()));
        }
        let addr = self.addr;
        let a = tokio::task::spawn_blocking(move || ask(addr, method, target, &headers, &body)).await.unwrap();
        Out { answered: a.status == 200, shown: a.status == 200, code: a.status.to_string() }
    }
}

pub fn run(ctx: &Ctx) {
    let mut t = ctx.trace("auth");
    let mut r = ctx.rng(31);
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap();
    let behs = ctx.behaviours();
    let settings: Vec<Value> = behs.iter().map(|b| b["entries"].clone()).collect();
    let heads: Vec<Value> = behs[0]["heads"].as_array().unwrap().clone();
    let calls = [("submit", true), ("bulk", true), ("view", true), ("crawl", true), ("info", true), ("peers", true), ("upload", false), ("migrate", false)];
    rt.block_on(async {
        let mut n = 0;
        let mut visit = |users: Value, diag: Value, oper: Value, r: &mut Rng, whole: bool| {
            let plan: Vec<(usize, &str, &str)> = if whole {
                (0..heads.len()).flat_map(|h| calls.iter().flat_map(move |(c, http)| if *http { vec![(h, *c, "grpc"), (h, *c, "http")] } else { vec![(h, *c, "grpc")] })).collect()
            } else {
                (0..120)
                    .map(|_| {
                        let (c, http) = calls.choose(r).unwrap();
                        (r.gen_range(0..heads.len()), *c, if *http && r.gen_bool(0.5) { "http" } else { "grpc" })
                    })
                    .collect()
            };
            (users, diag, oper, plan)
        };
        let mut rounds = vec![];
        for (k, s) in settings.iter().enumerate() {
            // the same setting everywhere, then each one beside another
            let o = &settings[(k + 3) % settings.len()];
            rounds.push(visit(s.clone(), s.clone(), s.clone(), &mut r, true));
            rounds.push(visit(s.clone(), o.clone(), json!([["ann", "one"]]), &mut r, false));
            rounds.push(visit(o.clone(), json!([["bob", "two"]]), s.clone(), &mut r, false));
        }
        for _ in 0..ctx.scale(10, 200) {
            let mut one = |r: &mut Rng| {
                let e: Vec<Value> = (0..r.gen_range(0..4usize))
                    .map(|_| {
                        let w = ["ann", "bob", "one", "two", "", "Ann"];
                        json!((0..[1, 2, 2, 2, 2, 3][r.gen_range(0..6)]).map(|_| *w.choose(r).unwrap()).collect::<Vec<_>>())
                    })
                    .collect();
                json!(e)
            };
            let (a, b, c) = (one(&mut r), one(&mut r), one(&mut r));
            rounds.push(visit(a, b, c, &mut r, false));
        }
        for (users, diag, oper, plan) in rounds {
            let w = node(&users, &diag, &oper).await;
            t.rec(json!({"op": "open", "users": users, "diagnostics": diag, "operator": oper}));
            t.rec(json!({"op": "enabled", "on": w.admin.enabled()}));
            for (h, c, via) in plan {
                let head = header(&heads[h]);
                w.handed.store(0, Ordering::SeqCst);
                w.asked.store(0, Ordering::SeqCst);
                let o = w.call(c, via, &head, &mut n).await;
                t.rec(json!({"op": "call", "call": c, "via": via, "head": heads[h], "answered": o.answered, "shown": o.shown, "code": o.code,
                             "handed": w.handed.load(Ordering::SeqCst), "asked": w.asked.load(Ordering::SeqCst)}));
            }
        }
    });
    println!("{} records", t.n);
}
