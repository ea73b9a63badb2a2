//! The public interface of a node that hosts several shards (ServeTrace.tla).
use crate::common::*;
use crate::merge::{n, pool, q, tname, universe, Pool, Table, M};
use rand::seq::SliceRandom;
use rand::Rng as _;
use serde_json::{json, Value};
use snapchain::connectors::onchain_events::ChainClients;
use snapchain::core::channel_uri::{channel_id_for_follow_target, channel_registrar_for_network};
use snapchain::mempool::routing::{MessageRouter, ShardRouter};
use snapchain::network::server::MyHubService;
use snapchain::proto::hub_service_server::HubService;
use snapchain::proto::{self, message_data::Body, *};
use snapchain::storage::db::{RocksDB, RocksDbTransactionBatch};
use snapchain::storage::store::account::*;
use snapchain::storage::store::block_engine::BlockStores;
use snapchain::storage::store::engine::Senders;
use snapchain::storage::store::stores::{StoreLimits, Stores};
use snapchain::storage::store::test_helper::statsd_client;
use snapchain::storage::trie::merkle_trie::MerkleTrie;
use snapchain::version::version::EngineVersion;
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::sync::Arc;
use std::time::Duration;
use tokio::sync::mpsc;
use tonic::{Code, Request, Response, Status};

const NET: FarcasterNetwork = FarcasterNetwork::Devnet;
type Pages = (Vec<Vec<usize>>, String);

struct World {
    _dirs: Vec<tempfile::TempDir>,
    shards: u32,
    stores: HashMap<u32, Stores>,
    senders: HashMap<u32, Senders>,
    svc: MyHubService,
}

fn db(dirs: &mut Vec<tempfile::TempDir>) -> Arc<RocksDB> {
    let d = tmp();
    let db = Arc::new(RocksDB::new(d.path().to_str().unwrap()));
    db.open().unwrap();
    dirs.push(d);
    db
}

impl World {
    fn new(shards: u32) -> World {
        let mut dirs = vec![];
        let stores: HashMap<u32, Stores> = (1..=shards)
            .map(|s| (s, Stores::new(db(&mut dirs), s, MerkleTrie::new().unwrap(), StoreLimits::default(), NET, statsd_client())))
            .collect();
        let senders: HashMap<u32, Senders> = (1..=shards).map(|s| (s, Senders::new())).collect();
        let blocks = BlockStores::new(db(&mut dirs), MerkleTrie::new().unwrap(), NET);
        let (mtx, _) = mpsc::channel(10);
        let (gtx, _) = mpsc::channel(10);
        let svc = MyHubService::new(
            "".into(), "".into(), vec![], blocks, stores.clone(), senders.clone(), statsd_client(), shards, NET,
            Box::new(ShardRouter {}), mtx, gtx, ChainClients { chain_api_map: HashMap::new() }, "0".into(), "me".into(), None,
            Default::default(),
        );
        World { _dirs: dirs, shards, stores, senders, svc }
    }
    fn of(&self, fid: u64) -> u32 {
        ShardRouter {}.route_fid(fid, self.shards)
    }
    /// merges into a shard and commits
    fn merge(&self, m: &M) -> Result<HubEvent, snapchain::core::error::HubError> {
        let ctx = MergeContext { version: EngineVersion::latest() };
        let s = &self.stores[&self.of(m.fid())];
        let mut t = RocksDbTransactionBatch::new();
        let e = match m.store {
            "cast" => s.cast_store.merge(&m.proto, &mut t, &ctx),
            "link" => s.link_store.merge(&m.proto, &mut t, &ctx),
            "react" => s.reaction_store.merge(&m.proto, &mut t, &ctx),
            "data" => s.user_data_store.merge(&m.proto, &mut t, &ctx),
            _ => s.verification_store.merge(&m.proto, &mut t, &ctx),
        }?;
        s.db.commit(t).unwrap();
        Ok(e)
    }
}

/// Follows the page tokens of a query to the end.
async fn walk<F, R>(t: &Table, mut f: F) -> Pages
where
    F: FnMut(Option<Vec<u8>>) -> R,
    R: Future<Output = Result<Response<MessagesResponse>, Status>>,
{
    let (mut pages, mut token) = (vec![], None);
    for _ in 0..60 {
        match f(token).await {
            Err(e) => return (pages, format!("{:?}: {}", e.code(), e.message())),
            Ok(p) => {
                let p = p.into_inner();
                pages.push(t.ids(&p.messages));
                token = p.next_page_token;
                if token.is_none() {
                    return (pages, "".into());
                }
            }
        }
    }
    (pages, "endless".into())
}

fn one(t: &Table, r: Result<Response<Message>, Status>) -> Pages {
    match r {
        Ok(m) => (vec![vec![t.id(m.get_ref())]], "".into()),
        Err(e) if e.code() == Code::NotFound => (vec![], "".into()),
        // a missing message may also be reported as an internal error that says so
        Err(e) if e.message().contains("not_found") => (vec![], "".into()),
        Err(e) => (vec![], format!("{:?}: {}", e.code(), e.message())),
    }
}

async fn query(r: &mut Rng, w: &World, p: &Pool, ms: &[M], t: &Table, live: &dyn Fn() -> Vec<usize>, tr: &mut Trace) {
    let size = *[0u32, 1, 2, 3].choose(r).unwrap();
    let rev = r.gen_bool(0.4);
    let page_size = if size == 0 { None } else { Some(size) };
    let reverse = if rev { Some(true) } else { *[None, Some(false)].choose(r).unwrap() };
    let fid = *p.fids.choose(r).unwrap();
    let store = *["cast", "link", "react", "data", "verif"].choose(r).unwrap();
    let tgt = *p.targets.choose(r).unwrap();
    let lt = if r.gen_bool(0.4) { None } else { Some(p.types.choose(r).unwrap().clone()) };
    let rt: Option<i32> = if r.gen_bool(0.3) { None } else { Some(r.gen_range(0..3)) };
    let rsub = if rt.unwrap_or(0) == 0 { "".to_string() } else { rt.unwrap().to_string() };
    let sz = size as usize;
    let s = &w.svc;
    match r.gen_range(0..13) {
        0 | 1 => {
            let by = |page_token| Request::new(FidRequest { fid, page_size, page_token, reverse });
            let (sub, res) = match store {
                "cast" => ("".to_string(), walk(t, |k| s.get_casts_by_fid(by(k))).await),
                "data" => ("".to_string(), walk(t, |k| s.get_user_data_by_fid(by(k))).await),
                "verif" => ("".to_string(), walk(t, |k| s.get_verifications_by_fid(by(k))).await),
                "link" => (
                    lt.clone().unwrap_or_default(),
                    walk(t, |page_token| s.get_links_by_fid(Request::new(LinksByFidRequest { fid, link_type: lt.clone(), page_size, page_token, reverse }))).await,
                ),
                _ => (
                    rsub,
                    walk(t, |page_token| s.get_reactions_by_fid(Request::new(ReactionsByFidRequest { fid, reaction_type: rt, page_size, page_token, reverse }))).await,
                ),
            };
            tr.rec(q(json!({"q": "adds_by_fid", "store": store, "fid": n(fid), "sub": sub}), sz, rev, res));
        }
        2 | 3 => {
            let a = if r.gen_bool(0.5) { None } else { Some((p.base + r.gen_range(0..4)) as u64) };
            let b = if r.gen_bool(0.5) { None } else { Some((p.base + r.gen_range(0..4)) as u64) };
            let by = |page_token| Request::new(FidTimestampRequest { fid, page_size, page_token, reverse, start_timestamp: a, stop_timestamp: b });
            let res = match store {
                "cast" => walk(t, |k| s.get_all_cast_messages_by_fid(by(k))).await,
                "link" => walk(t, |k| s.get_all_link_messages_by_fid(by(k))).await,
                "react" => walk(t, |k| s.get_all_reaction_messages_by_fid(by(k))).await,
                "data" => walk(t, |k| s.get_all_user_data_messages_by_fid(by(k))).await,
                _ => walk(t, |k| s.get_all_verification_messages_by_fid(by(k))).await,
            };
            let f = |x: Option<u64>| x.map(|v| (v - p.base as u64) as i64).unwrap_or(-1);
            tr.rec(q(json!({"q": "all_by_fid", "store": store, "fid": n(fid), "start": f(a), "stop": f(b)}), sz, rev, res));
        }
        4 => {
            let res = walk(t, |page_token| s.get_link_compact_state_message_by_fid(Request::new(FidRequest { fid, page_size, page_token, reverse }))).await;
            tr.rec(q(json!({"q": "compacts", "fid": n(fid)}), sz, rev, res));
        }
        5 | 6 => {
            let url = r.gen_bool(0.6);
            let (u, c) = (p.urls.choose(r).unwrap().clone(), p.casts.choose(r).unwrap().clone());
            let name = if url { format!("url:{u}") } else { format!("cast:{}:{}", c.fid, hex::encode(&c.hash)) };
            use casts_by_parent_request::Parent;
            let parent = Some(if url { Parent::ParentUrl(u) } else { Parent::ParentCastId(c) });
            let res = walk(t, |page_token| s.get_casts_by_parent(Request::new(CastsByParentRequest { page_size, page_token, reverse, parent: parent.clone() }))).await;
            tr.rec(q(json!({"q": "by_parent", "par": name}), sz, rev, res));
        }
        7 => {
            let res = walk(t, |page_token| s.get_casts_by_mention(Request::new(FidRequest { fid: tgt, page_size, page_token, reverse }))).await;
            tr.rec(q(json!({"q": "by_mention", "mention": n(tgt)}), sz, rev, res));
        }
        8 => {
            let lt = lt.unwrap_or_default();
            use links_by_target_request::Target;
            let res = walk(t, |page_token| {
                s.get_links_by_target(Request::new(LinksByTargetRequest { link_type: Some(lt.clone()), page_size, page_token, reverse, target: Some(Target::TargetFid(tgt)) }))
            })
            .await;
            tr.rec(q(json!({"q": "by_target", "store": "link", "par": format!("fid:{tgt}"), "sub": lt}), sz, rev, res));
        }
        9 | 10 => {
            let x = if r.gen_bool(0.6) { reaction_body::Target::TargetUrl(p.urls.choose(r).unwrap().clone()) } else { reaction_body::Target::TargetCastId(p.casts.choose(r).unwrap().clone()) };
            use reactions_by_target_request::Target;
            let target = Some(match &x {
                reaction_body::Target::TargetUrl(u) => Target::TargetUrl(u.clone()),
                reaction_body::Target::TargetCastId(c) => Target::TargetCastId(c.clone()),
            });
            let cast = matches!(x, reaction_body::Target::TargetCastId(_)) && rt.is_some() && r.gen_bool(0.5);
            let by = |page_token| Request::new(ReactionsByTargetRequest { reaction_type: rt, page_size, page_token, reverse, target: target.clone() });
            let res = if cast { walk(t, |k| s.get_reactions_by_cast(by(k))).await } else { walk(t, |k| s.get_reactions_by_target(by(k))).await };
            tr.rec(q(json!({"q": "by_target", "store": "react", "par": tname(&x), "sub": rsub}), sz, rev, res));
        }
        11 => follows(w, p, ms, live, fid, page_size, reverse, tr).await,
        _ => {
            let Some(m) = ms.choose(r) else { return };
            if m.kind == "cmp" { return }
            let h = match &m.proto.data.as_ref().unwrap().body { Some(Body::CastRemoveBody(b)) => b.target_hash.clone(), _ => m.proto.hash.clone() };
            let f = m.fid();
            let rty: i32 = m.sub.parse().unwrap_or(0);
            let res = match m.store {
                "cast" => one(t, s.get_cast(Request::new(CastId { fid: f, hash: h })).await),
                "link" => one(t, s.get_link(Request::new(LinkRequest { fid: f, link_type: m.lt.clone(), target: Some(link_request::Target::TargetFid(m.tgt)) })).await),
                "react" => {
                    let target = m.target.clone().map(|x| match x {
                        reaction_body::Target::TargetUrl(u) => reaction_request::Target::TargetUrl(u),
                        reaction_body::Target::TargetCastId(c) => reaction_request::Target::TargetCastId(c),
                    });
                    one(t, s.get_reaction(Request::new(ReactionRequest { fid: f, reaction_type: rty, target })).await)
                }
                "data" => one(t, s.get_user_data(Request::new(UserDataRequest { fid: f, user_data_type: rty })).await),
                _ => one(t, s.get_verification(Request::new(VerificationRequest { fid: f, address: hex::decode(&m.par).unwrap_or_default() })).await),
            };
            tr.rec(q(json!({"q": "get", "store": m.store, "kind": "add", "key": m.key}), 0, false, res));
        }
    }
}

/// Who follows a channel, what an account follows, and whether the two agree.
async fn follows(w: &World, p: &Pool, ms: &[M], live: &dyn Fn() -> Vec<usize>, fid: u64, page_size: Option<u32>, reverse: Option<bool>, tr: &mut Trace) {
    let reg = channel_registrar_for_network(NET).unwrap();
    let alive = live();
    // a follow names account, channel and time; the reaction it stands for
    let find = |f: u64, ch: &[u8], at: u32| {
        let v: Vec<usize> = ms.iter().enumerate()
            .filter(|(_, m)| m.fid() == f && m.ts() == at && m.kind == "add" && !m.follow.is_empty()
                && channel_id_for_follow_target(&m.follow, &reg).map(|c| c.to_vec()) == Some(ch.to_vec()))
            .map(|(i, _)| i + 1).collect();
        v.iter().find(|i| alive.contains(i)).or(v.first()).cloned().unwrap_or(999996)
    };
    let (sz, rev) = (page_size.unwrap_or(0) as usize, reverse == Some(true));
    if let Some(u) = p.urls.iter().find(|u| u.starts_with("eip155:")) {
        let ch = channel_id_for_follow_target(u, &reg).unwrap();
        let (mut pages, mut token, mut err) = (vec![], None, "endless".to_string());
        for _ in 0..60 {
            match w.svc.get_channel_followers(Request::new(ChannelFollowersRequest { channel_id: ch.to_vec(), page_size, page_token: token, reverse })).await {
                Err(e) => { err = e.message().into(); break }
                Ok(x) => {
                    let x = x.into_inner();
                    pages.push(x.followers.iter().map(|e| find(e.fid, &ch, e.followed_at as u32)).collect::<Vec<_>>());
                    token = x.next_page_token;
                    if token.is_none() { err = "".into(); break }
                }
            }
        }
        let total: usize = pages.iter().map(|x| x.len()).sum();
        let count = w.svc.get_channel_follower_count(Request::new(ChannelFollowerCountRequest { channel_id: ch.to_vec() })).await.unwrap().into_inner().count;
        if err.is_empty() && count != total as u64 { err = format!("count {count} for {total} followers"); }
        tr.rec(q(json!({"q": "followers", "chan": u}), sz, rev, (pages, err)));
    }
    let (mut pages, mut token, mut err) = (vec![], None, "endless".to_string());
    for _ in 0..60 {
        match w.svc.get_channel_follows(Request::new(ChannelFollowsRequest { fid, page_size, page_token: token, reverse })).await {
            Err(e) => { err = e.message().into(); break }
            Ok(x) => {
                let x = x.into_inner();
                let mut page = vec![];
                for e in &x.follows {
                    page.push(find(fid, &e.channel_id, e.followed_at as u32));
                    let is = w.svc.is_following_channel(Request::new(IsFollowingChannelRequest { fid, channel_id: e.channel_id.clone() })).await.unwrap().into_inner();
                    if !is.following || is.followed_at.map(|x| x as u64) != Some(e.followed_at as u64) { page.push(999995); }
                }
                pages.push(page);
                token = x.next_page_token;
                if token.is_none() { err = "".into(); break }
            }
        }
    }
    tr.rec(q(json!({"q": "follows", "fid": n(fid)}), sz, rev, (pages, err)));
}

fn told(t: &Table, e: &HubEvent) -> Value {
    match &e.body {
        Some(hub_event::Body::MergeMessageBody(b)) => json!({"sh": e.shard_index, "ev": e.id, "m": b.message.as_ref().map(|m| t.id(m)).unwrap_or(0), "del": t.ids(&b.deleted_messages)}),
        _ => json!({"sh": e.shard_index, "ev": e.id, "m": 0, "del": []}),
    }
}

async fn events(r: &mut Rng, w: &World, t: &Table, log: &[(u32, HubEvent)], tr: &mut Trace) {
    let id = |r: &mut Rng| if log.is_empty() || r.gen_bool(0.2) { r.gen_range(0..3) } else { log.choose(r).unwrap().1.id + r.gen_range(0..2) };
    let which = if r.gen_bool(0.5) { None } else { Some(r.gen_range(1..=w.shards)) };
    let asked: Vec<u32> = which.map(|k| vec![k]).unwrap_or((1..=w.shards).collect());
    match r.gen_range(0..4) {
        0 | 1 => {
            let start_id = if r.gen_bool(0.4) { 0 } else { id(r) };
            let stop_id = if r.gen_bool(0.6) { None } else { Some(id(r).max(start_id)) };
            let size = *[0u32, 1, 2, 3].choose(r).unwrap();
            let rev = r.gen_bool(0.4);
            let (mut pages, mut token, mut err) = (vec![], None, "endless".to_string());
            for _ in 0..80 {
                let rq = EventsRequest { start_id, shard_index: which, stop_id, page_size: if size == 0 { None } else { Some(size) }, page_token: token, reverse: if rev { Some(true) } else { None } };
                match w.svc.get_events(Request::new(rq)).await {
                    Err(e) => { err = e.message().into(); break }
                    Ok(x) => {
                        let x = x.into_inner();
                        pages.push(x.events.iter().map(|e| told(t, e)).collect::<Vec<_>>());
                        token = x.next_page_token;
                        if token.is_none() { err = "".into(); break }
                    }
                }
            }
            tr.rec(json!({"op": "events", "shards": asked, "from": start_id, "stop": stop_id.map(|x| x as i64).unwrap_or(-1), "size": size, "rev": rev, "pages": pages, "err": err}));
        }
        2 => {
            let (sh, ev) = (r.gen_range(1..=w.shards), id(r));
            let got = match w.svc.get_event(Request::new(EventRequest { id: ev, shard_index: sh })).await { Ok(e) => vec![told(t, e.get_ref())], Err(_) => vec![] };
            tr.rec(json!({"op": "event", "sh": sh, "ev": ev, "got": got}));
        }
        _ => {
            let from = if r.gen_bool(0.3) { None } else { Some(id(r)) };
            let wanted = r.gen_bool(0.8);
            let mut types = vec![HubEventType::MergeUsernameProof as i32, HubEventType::RevokeMessage as i32];
            if wanted { types.push(HubEventType::MergeMessage as i32); }
            let before: usize = w.senders.values().map(|s| s.events_tx.receiver_count()).sum();
            let mut st = w.svc.subscribe(Request::new(SubscribeRequest { event_types: types, from_id: from, shard_index: which })).await.unwrap().into_inner().into_inner();
            // what has been stored comes first; then it listens
            for _ in 0..2000 {
                if w.senders.values().map(|s| s.events_tx.receiver_count()).sum::<usize>() >= before + asked.len() { break }
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
            let mut live = vec![];
            for _ in 0..r.gen_range(0..4) {
                let Some((sh, e)) = log.choose(r) else { break };
                let mut e = e.clone();
                let _ = w.senders[sh].events_tx.send(e.clone());
                if let Some(hub_event::Body::MergeMessageBody(b)) = &mut e.body {
                    if b.message.as_ref().unwrap().msg_type() == MessageType::LinkCompactState { b.deleted_messages.clear(); }
                }
                e.shard_index = *sh;
                if asked.contains(sh) { live.push(told(t, &e)); }
            }
            let mut got = vec![];
            while let Ok(Some(Ok(e))) = tokio::time::timeout(Duration::from_millis(if wanted { 12 } else { 5 }), st.recv()).await {
                got.push(told(t, &e));
            }
            tr.rec(json!({"op": "stream", "shards": asked, "from": from.map(|x| x as i64).unwrap_or(-1), "wanted": wanted, "live": live, "got": got}));
        }
    }
}

async fn history(r: &mut Rng, tr: &mut Trace) {
    let mut p = pool(r);
    // more accounts, so that every shard has some
    let more = [1u64, 2, 3, 4, 5, 255, 256, 65536, 4294967294];
    p.fids = more.choose_multiple(r, 4).cloned().collect();
    p.fids.sort();
    let w = World::new(r.gen_range(1..4));
    let stores: Vec<&'static str> = if r.gen_bool(0.3) { vec!["cast", "link", "react", "data", "verif"] } else { vec![*["cast", "cast", "link", "react", "react"].choose(r).unwrap()] };
    let k = r.gen_range(8..30);
    let ms = universe(r, &p, k, &stores);
    let mut ranks: Vec<&Vec<u8>> = ms.iter().map(|m| &m.proto.hash).collect();
    ranks.sort();
    let rank: BTreeMap<&Vec<u8>, usize> = ranks.iter().enumerate().map(|(i, h)| (*h, i)).collect();
    let t = Table(ms.iter().enumerate().map(|(i, m)| (m.proto.hash.clone(), i + 1)).collect());
    let split: Vec<Vec<String>> = (1..=w.shards).map(|s| p.fids.iter().filter(|f| w.of(**f) == s).map(|f| n(*f)).collect()).collect();
    tr.rec(json!({"op": "reset", "split": split, "msgs": ms.iter().enumerate().map(|(i, m)| m.json(i + 1, rank[&m.proto.hash], p.base)).collect::<Vec<_>>()}));
    let mut log: Vec<(u32, HubEvent)> = vec![];
    let all = |log: &[(u32, HubEvent)]| -> Vec<usize> {
        // what was merged and not superseded since
        let mut v: Vec<usize> = vec![];
        for (_, e) in log {
            if let Some(hub_event::Body::MergeMessageBody(b)) = &e.body {
                let d = t.ids(&b.deleted_messages);
                v.retain(|x| !d.contains(x));
                v.push(t.id(b.message.as_ref().unwrap()));
            }
        }
        v
    };
    let mut order: Vec<usize> = (1..=k).collect();
    order.shuffle(r);
    for (i, k) in order.iter().enumerate() {
        let m = &ms[*k - 1];
        let sh = w.of(m.fid());
        let (res, del, ev) = match w.merge(m) {
            Ok(e) => {
                let d = match &e.body { Some(hub_event::Body::MergeMessageBody(b)) => t.ids(&b.deleted_messages), _ => vec![] };
                let id = e.id;
                log.push((sh, e));
                ("ok".to_string(), d, id)
            }
            Err(e) => (short(&e.code), vec![], 0),
        };
        tr.rec(json!({"op": "merge", "m": k, "res": res, "del": del, "sh": sh, "ev": ev}));
        tr.rec(json!({"op": "commit"}));
        if i % 4 == 3 || i + 1 == order.len() {
            for _ in 0..if i + 1 == order.len() { 8 } else { 2 } {
                query(r, &w, &p, &ms, &t, &|| all(&log), tr).await;
                events(r, &w, &t, &log, tr).await;
            }
        }
    }
}

pub fn run(ctx: &Ctx) {
    let parts = 4;
    let hs: Vec<_> = (0..parts)
        .map(|i| {
            let mut tr = ctx.trace(&format!("s{i}"));
            let mut r = ctx.rng(40 + i as u64);
            let count = ctx.scale(40, 900);
            std::thread::spawn(move || {
                let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
                for _ in 0..count {
                    rt.block_on(history(&mut r, &mut tr));
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
}
