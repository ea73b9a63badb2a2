//! Channels: the real block engine deciding about channel messages, a real shard
//! engine following it, and the real index of who follows a channel.
use crate::common::*;
use crate::eip712;
use crate::validate::versions;
use alloy_primitives::{keccak256, Address, U256};
use ed25519_dalek::SigningKey;
use rand::Rng as _;
use serde_json::{json, Value};
use snapchain::core::channel_uri::*;
use snapchain::core::util::FarcasterTime;
use snapchain::proto::message_data::Body;
use snapchain::proto::reaction_body::Target;
use snapchain::proto::{self, *};
use snapchain::storage::db::{PageOptions, RocksDB, RocksDbTransactionBatch};
use snapchain::storage::store::account::*;
use snapchain::storage::store::account::{ChannelMemberState, ChannelModerationState, ReactionStore};
use snapchain::storage::store::block_engine::BlockEngine;
use snapchain::storage::store::block_engine_test_helpers as bh;
use snapchain::storage::store::engine::ShardEngine;
use snapchain::storage::store::mempool_poller::MempoolMessage;
use snapchain::storage::store::stores::{StoreLimits, Stores};
use snapchain::storage::store::test_helper as th;
use snapchain::storage::trie::merkle_trie::MerkleTrie;
use snapchain::utils::factory::{events_factory, messages_factory, time};
use std::collections::HashSet;
use std::sync::Arc;

const FIDS: [u64; 6] = [1, 2, 3, 4, 70_000, 2_000_000_000];
const ACTS: [(&str, ChannelMemberAction); 6] = [
    ("add", ChannelMemberAction::AddMember),
    ("remove", ChannelMemberAction::RemoveMember),
    ("addmod", ChannelMemberAction::AddModerator),
    ("removemod", ChannelMemberAction::RemoveModerator),
    ("ban", ChannelMemberAction::Ban),
    ("unban", ChannelMemberAction::Unban),
];
const CASTING: [(&str, CastingMode); 4] =
    [("none", CastingMode::None), ("everyone", CastingMode::Everyone), ("members", CastingMode::MembersOnly), ("recommended", CastingMode::Recommended)];
const MEMBERSHIP: [(&str, MembershipMode); 3] = [("none", MembershipMode::None), ("open", MembershipMode::Open), ("approval", MembershipMode::Approval)];

fn key(fid: u64) -> SigningKey {
    let mut k = [7u8; 32];
    k[..8].copy_from_slice(&fid.to_be_bytes());
    SigningKey::from_bytes(&k)
}
/// Channel names, in the order of their identifiers. The last is never registered.
fn names() -> Vec<String> {
    let mut n: Vec<String> = ["pets", "farcaster", "memes", "dev"].iter().map(|s| s.to_string()).collect();
    n.sort_by_key(|s| keccak256(s.as_bytes()));
    n
}
fn cid(c: usize) -> Vec<u8> {
    keccak256(names()[c - 1].as_bytes()).to_vec()
}
fn cnum(id: &[u8]) -> usize {
    (1..=4).find(|c| cid(*c) == id).unwrap_or(0)
}
fn addr(n: usize) -> Address {
    eip712::wallet(n as u8 + 1).address()
}
const ADDR: [&str; 3] = ["A", "B", "C"];
fn cast(n: usize) -> Vec<u8> {
    vec![n as u8 * 17 + 1; 20]
}
fn hexs(b: &[u8]) -> String {
    hex::encode(b)
}
fn now() -> u32 {
    time::farcaster_time()
}

#[derive(Clone)]
struct Msg {
    m: Message,
    j: Value,
}
fn msg(fid: u64, t: MessageType, b: Body, ts: u32, mut j: Value) -> Msg {
    let m = messages_factory::create_message_with_data(fid, t, b, Some(ts), Some(&key(fid)));
    j["f"] = json!(fid);
    j["ts"] = json!(ts);
    j["id"] = json!(hexs(&m.hash[..8]) + &format!("-{fid}"));
    j["h"] = json!(u32::from_be_bytes([0, m.hash[0], m.hash[1], m.hash[2]]));
    Msg { m, j }
}
fn member(c: usize, f: u64, target: u64, act: usize, ts: u32) -> Msg {
    let b = ChannelMemberBody { channel_id: cid(c), fid: target, action: ACTS[act].1 as i32 };
    msg(f, MessageType::ChannelMember, Body::ChannelMemberBody(b), ts, json!({"t": "member", "c": c, "target": target, "act": ACTS[act].0}))
}
/// What is said in settings: the modes, and which of the texts are given.
fn settings(b: &ChannelUpdateBody) -> Value {
    let s = |x: &Option<String>| x.clone().unwrap_or("-".into());
    json!({
        "casting": b.casting_mode.map(|m| CASTING.iter().find(|x| x.1 as i32 == m).map(|x| x.0).unwrap_or("?")).unwrap_or(""),
        "membership": b.membership_mode.map(|m| MEMBERSHIP.iter().find(|x| x.1 as i32 == m).map(|x| x.0).unwrap_or("?")).unwrap_or(""),
        "texts": [s(&b.name), s(&b.description), s(&b.image_url), s(&b.header), s(&b.rules)],
    })
}
fn update(c: usize, f: u64, ts: u32, b: ChannelUpdateBody) -> Msg {
    let b = ChannelUpdateBody { channel_id: cid(c), ..b };
    let j = json!({"t": "update", "c": c, "body": settings(&b)});
    msg(f, MessageType::ChannelUpdate, Body::ChannelUpdateBody(b), ts, j)
}
fn pin(c: usize, f: u64, n: usize, ts: u32) -> Msg {
    let h = if n == 0 { vec![] } else { cast(n) };
    msg(f, MessageType::ChannelPin, Body::ChannelPinBody(ChannelPinBody { channel_id: cid(c), cast_hash: h.clone() }), ts, json!({"t": "pin", "c": c, "cast": hexs(&h)}))
}
fn moderate(c: usize, f: u64, n: usize, hide: bool, ts: u32) -> Msg {
    let a = if hide { ChannelModerateAction::Hide } else { ChannelModerateAction::Unhide };
    let b = ChannelModerateBody { channel_id: cid(c), cast_hash: cast(n), action: a as i32 };
    msg(f, MessageType::ChannelModerate, Body::ChannelModerateBody(b), ts, json!({"t": "mod", "c": c, "cast": hexs(&cast(n)), "act": if hide { "hide" } else { "unhide" }}))
}
fn verify(f: u64, a: usize, add: bool, ts: u32) -> Msg {
    let j = json!({"t": "ver", "a": ADDR[a], "add": add});
    let address = addr(a).to_vec();
    if add {
        let bh = vec![a as u8; 32];
        let sig = eip712::sign(&eip712::wallet(a as u8 + 1), eip712::claim_digest(f, &address, &bh, FarcasterNetwork::Mainnet as u64, None));
        let b = VerificationAddAddressBody { address, claim_signature: sig, block_hash: bh, verification_type: 0, chain_id: 0, protocol: 0 };
        msg(f, MessageType::VerificationAddEthAddress, Body::VerificationAddAddressBody(b), ts, j)
    } else {
        msg(f, MessageType::VerificationRemove, Body::VerificationRemoveBody(VerificationRemoveBody { address, protocol: 0 }), ts, j)
    }
}
/// Messages whose shape is wrong: none of them may ever be taken.
fn odd(r: &mut Rng, c: usize, f: u64, ts: u32) -> Msg {
    let fine = [
        (MessageType::ChannelUpdate, Body::ChannelUpdateBody(ChannelUpdateBody { channel_id: cid(c), ..Default::default() })),
        (MessageType::ChannelMember, Body::ChannelMemberBody(ChannelMemberBody { channel_id: cid(c), fid: 9, action: 1 })),
        (MessageType::ChannelPin, Body::ChannelPinBody(ChannelPinBody { channel_id: cid(c), cast_hash: cast(1) })),
        (MessageType::ChannelModerate, Body::ChannelModerateBody(ChannelModerateBody { channel_id: cid(c), cast_hash: cast(1), action: 1 })),
        (MessageType::LendStorage, Body::LendStorageBody(LendStorageBody { to_fid: 2, num_units: 1, unit_type: 2 })),
        (MessageType::VerificationRemove, Body::VerificationRemoveBody(VerificationRemoveBody { address: addr(0).to_vec(), protocol: 0 })),
    ];
    let j = json!({"t": "shape", "c": c});
    let mut id = cid(c);
    let (t, b) = match r.gen_range(0..7) {
        0..=2 => {
            let a = r.gen_range(0..6);
            let mut b = r.gen_range(0..6);
            while a == b || (a > 3 && b > 3) {
                b = r.gen_range(0..6);
            }
            (fine[a].0, fine[b].1.clone())
        }
        3 => {
            if r.gen_bool(0.5) { id.push(0) } else { id.pop(); }
            (MessageType::ChannelMember, Body::ChannelMemberBody(ChannelMemberBody { channel_id: id, fid: 9, action: 1 }))
        }
        4 => (MessageType::ChannelMember, Body::ChannelMemberBody(ChannelMemberBody { channel_id: id, fid: [9, 9, 0, 1 << 32][r.gen_range(0..4)], action: [0, 7, 0, 7][r.gen_range(0..2)] })),
        5 => (MessageType::ChannelModerate, Body::ChannelModerateBody(ChannelModerateBody { channel_id: id, cast_hash: vec![1; [0, 19, 21][r.gen_range(0..3)]], action: 1 })),
        _ => (MessageType::ChannelModerate, Body::ChannelModerateBody(ChannelModerateBody { channel_id: id, cast_hash: cast(1), action: [0, 3][r.gen_range(0..2)] })),
    };
    msg(f, t, b, ts, j)
}

struct Own {
    e: OnChainEvent,
    j: Value,
}

pub(crate) struct World {
    pub(crate) zero: BlockEngine,
    pub(crate) shard: ShardEngine,
    _dirs: (tempfile::TempDir, tempfile::TempDir),
    block: u32,
}

fn state(s: ChannelMemberState) -> &'static str {
    match s {
        ChannelMemberState::Member => "member",
        ChannelMemberState::Moderator => "moderator",
        ChannelMemberState::Removed => "removed",
        ChannelMemberState::Banned => "banned",
    }
}
const STATES: [ChannelMemberState; 4] = [ChannelMemberState::Member, ChannelMemberState::Moderator, ChannelMemberState::Removed, ChannelMemberState::Banned];

fn pages<T, E>(r: &mut Rng, mut f: impl FnMut(&PageOptions) -> Result<ChannelPage<T>, E>) -> (Vec<T>, bool) {
    let reverse = r.gen_bool(0.3);
    let size = [None, Some(1), Some(2), Some(3), Some(100)][r.gen_range(0..5)];
    let mut o = PageOptions { page_size: size, page_token: None, reverse };
    let mut all = vec![];
    for _ in 0..500 {
        let p = f(&o).map_err(|_| ()).unwrap();
        assert!(size.is_none_or(|s| p.entries.len() <= s), "page too long");
        all.extend(p.entries);
        match p.next_page_token {
            None => break,
            Some(t) => o.page_token = Some(t),
        }
    }
    if reverse {
        all.reverse();
    }
    (all, reverse)
}

macro_rules! view {
    ($who:expr, $s:expr, $r:expr, $c:expr) => {{
        let (s, r, c) = ($s, $r, $c);
        let id = cid(c);
        let upd = ChannelUpdateStore::get_channel_update(&s.channel_update_store, &id, None).unwrap();
        let filter = if r.gen_bool(0.5) { None } else { Some(STATES[r.gen_range(0..4)]) };
        let ms = pages(r, |o| ChannelMemberStore::members_by_channel(&s.channel_member_store, &id, filter, o)).0;
        let mods = pages(r, |o| ChannelModerateStore::moderations_by_channel(&s.channel_moderate_store, &id, o)).0;
        let pin = ChannelPinStore::get_channel_pin_state(&s.channel_pin_store, &id, None).unwrap();
        let body = ChannelPinStore::get_channel_pin(&s.channel_pin_store, &id, None).unwrap();
        let f = FIDS[r.gen_range(0..6)];
        let of = pages(r, |o| ChannelMemberStore::memberships_by_fid(&s.channel_member_store, f, o)).0;
        let one = ChannelMemberStore::member(&s.channel_member_store, &id, f, None).unwrap();
        let st = ChannelMemberStore::member_state(&s.channel_member_store, &id, f, None).unwrap();
        let k = r.gen_range(1..6);
        let md = ChannelModerateStore::moderation_state(&s.channel_moderate_store, &id, &cast(k), None).unwrap();
        json!({
            "op": "read", "who": $who, "c": c,
            "update": upd.map(|u| {
                let mut j = settings(&u.body);
                j["id"] = json!(cnum(&u.body.channel_id));
                j["means"] = json!([CASTING.iter().find(|x| x.1 == u.casting_mode).unwrap().0, MEMBERSHIP.iter().find(|x| x.1 == u.membership_mode).unwrap().0]);
                vec![j]
            }).unwrap_or_default(),
            "filter": filter.map(state).unwrap_or(""),
            "members": ms.iter().map(|m| json!([m.fid, state(m.state), m.last_action_ts])).collect::<Vec<_>>(),
            "mods": mods.iter().map(|m| json!([hexs(&m.cast_hash), if m.action == ChannelModerateAction::Hide { "hide" } else { "unhide" }, m.author_fid])).collect::<Vec<_>>(),
            "pin": pin.map(|p| vec![json!([cnum(&p.body.channel_id), hexs(&p.body.cast_hash), p.author_fid])]).unwrap_or_default(),
            "body": body.map(|p| vec![json!([cnum(&p.channel_id), hexs(&p.cast_hash)])]).unwrap_or_default(),
            "f": f,
            "of": of.iter().map(|m| json!([cnum(&m.channel_id), state(m.state)])).collect::<Vec<_>>(),
            "one": one.map(|m| vec![json!([m.fid, state(m.state), m.last_action_ts])]).unwrap_or_default(),
            "state": st.map(state).unwrap_or("none"),
            "cast": hexs(&cast(k)),
            "shown": md.map(|m| if m == ChannelModerationState::Hidden { "hide" } else { "unhide" }).unwrap_or("none"),
            "counts": [
                ChannelMemberStore::slot_count(&s.channel_member_store, &id, None).unwrap(),
                ChannelMemberStore::live_moderator_count(&s.channel_member_store, &id, None).unwrap(),
                ChannelModerateStore::slot_count(&s.channel_moderate_store, &id, None).unwrap(),
            ],
        })
    }};
}

impl World {
    pub(crate) fn new(cap: Option<u32>) -> World {
        let (mut zero, d0) = bh::setup_with_options(bh::BlockEngineOptions { network: FarcasterNetwork::Devnet, channel_slot_cap_override: cap, ..Default::default() });
        let (shard, d1) = block_on(th::new_engine_with_options(th::EngineOptions { network: Some(FarcasterNetwork::Devnet), channel_slot_cap_override: cap, ..Default::default() }));
        let mut ms = vec![];
        for f in FIDS {
            ms.push(MempoolMessage::OnchainEvent(events_factory::create_id_register_event(f, IdRegisterEventType::Register, vec![f as u8; 20], None)));
            ms.push(MempoolMessage::OnchainEvent(events_factory::create_signer_event(f, key(f), SignerEventType::Add, None, None)));
            ms.push(MempoolMessage::OnchainEvent(events_factory::create_rent_event_with_timestamp(f, 20, now() + 1609459200 - 100_000)));
        }
        let h = zero.get_confirmed_height().increment();
        let c = zero.propose_state_change(ms.clone(), h, None);
        bh::validate_and_commit_state_change(&mut zero, &c);
        let mut w = World { zero, shard, _dirs: (d0, d1), block: 100 };
        let own = w.shard.propose_state_change(1, ms, None);
        block_on(th::validate_and_commit_state_change(&mut w.shard, &own));
        w.follow(&c.events);
        w
    }
    /// The shard takes what the block says happened.
    pub(crate) fn follow(&mut self, events: &[BlockEvent]) {
        for e in events {
            let c = self.shard.propose_state_change(1, vec![MempoolMessage::BlockEvent { for_shard: 1, message: e.clone() }], None);
            block_on(th::validate_and_commit_state_change(&mut self.shard, &c));
        }
    }
    fn own(&mut self, c: usize, a: usize, first: bool) -> Own {
        self.block += 1;
        let n = &names()[c - 1];
        let e = events_factory::create_channel_register_event(
            n, cid(c), addr(a).to_vec(), 1, if first { ChannelRegisterEventType::Register } else { ChannelRegisterEventType::Transfer }, self.block, 0);
        Own { e, j: json!({"c": c, "a": ADDR[a]}) }
    }
    fn step(&mut self, t: &mut Trace, owns: &[Own], msgs: &[Msg]) {
        let mut ms: Vec<MempoolMessage> = owns.iter().map(|o| MempoolMessage::OnchainEvent(o.e.clone())).collect();
        ms.extend(msgs.iter().map(|m| MempoolMessage::UserMessage(m.m.clone())));
        let h = self.zero.get_confirmed_height().increment();
        let c = self.zero.propose_state_change(ms, h, None);
        let valid = self.zero.validate_state_change(&c, h);
        let said: Vec<Vec<u8>> = c
            .events
            .iter()
            .filter_map(|b| match b.data.as_ref().and_then(|d| d.body.as_ref()) {
                Some(block_event_data::Body::MergeMessageEventBody(m)) => Some(m.message.as_ref().unwrap().hash.clone()),
                _ => None,
            })
            .collect();
        let taken: HashSet<Vec<u8>> = said.iter().cloned().collect();
        let mut steps = vec![];
        let mut order: Vec<Vec<u8>> = vec![];
        let (mut left, mut seen) = (vec![true; msgs.len()], 0);
        for tx in &c.transactions {
            for s in &tx.system_messages {
                let o = owns.iter().find(|o| Some(&o.e) == s.on_chain_event.as_ref()).unwrap();
                let mut j = o.j.clone();
                j["t"] = json!("own");
                seen += 1;
                steps.push(j);
            }
            for m in &tx.user_messages {
                let i = (0..msgs.len()).find(|i| left[*i] && msgs[*i].m.hash == m.hash && msgs[*i].m.fid() == m.fid()).unwrap();
                left[i] = false;
                let mut j = msgs[i].j.clone();
                j["taken"] = json!(taken.contains(&m.hash));
                if taken.contains(&m.hash) {
                    order.push(m.hash.clone());
                }
                steps.push(j);
            }
        }
        // nothing offered is lost, nothing is told twice or in another order
        let all = left.iter().all(|l| !l) && seen == owns.len();
        t.rec(json!({"op": "block", "steps": steps, "valid": valid, "all": all, "order": order == said}));
        bh::validate_and_commit_state_change(&mut self.zero, &c);
        self.follow(&c.events);
    }
    /// A block of the root shard and the shard's of what it says.
    pub(crate) fn round(&mut self, ms: Vec<MempoolMessage>) {
        let h = self.zero.get_confirmed_height().increment();
        let c = self.zero.propose_state_change(ms, h, None);
        bh::validate_and_commit_state_change(&mut self.zero, &c);
        self.follow(&c.events);
    }
    /// Something for the next block of the root shard.
    pub(crate) fn pool(&mut self, r: &mut Rng, owned: &mut [bool; 5]) -> Vec<MempoolMessage> {
        let base = now() - 4000;
        let mut out = vec![];
        if !owned[1] {
            owned[1] = true;
            out.push(MempoolMessage::OnchainEvent(self.own(1, 0, true).e));
            out.push(MempoolMessage::UserMessage(verify(1, 0, true, base).m));
        }
        if r.gen_bool(0.15) {
            let c = r.gen_range(1..4);
            out.push(MempoolMessage::OnchainEvent(self.own(c, r.gen_range(0..3), !owned[c]).e));
            owned[c] = true;
        }
        for _ in 0..[0, 1, 1, 2, 4][r.gen_range(0..5)] {
            let ts = base + r.gen_range(0..4500);
            let m = if r.gen_bool(0.4) { verify(FIDS[r.gen_range(0..4)], r.gen_range(0..3), r.gen_bool(0.7), ts) } else { any(r, self, ts) };
            out.push(MempoolMessage::UserMessage(m.m));
        }
        out
    }
    /// Do the two shards answer alike about channels and verifications?
    pub(crate) fn alike(&self, r: &mut Rng) -> bool {
        (1..5).all(|c| {
            let (mut a, mut b) = (r.clone(), r.clone());
            r.gen::<u64>();
            let mut x: Value = view!("", &self.zero.stores(), &mut a, c);
            let y: Value = view!("", &self.shard.get_stores(), &mut b, c);
            x["who"] = json!("");
            if x != y && std::env::var("SNAPSPEC_WHY").is_ok() {
                eprintln!("{x}\n{y}");
            }
            x == y
        }) && FIDS.iter().all(|f| {
            let o = PageOptions::default();
            let hs = |v: Vec<proto::Message>| v.iter().map(|m| m.hash.clone()).collect::<Vec<_>>();
            let z = VerificationStore::get_verification_adds_by_fid(&self.zero.stores().verification_store, *f, &o).unwrap().messages;
            let s = VerificationStore::get_verification_adds_by_fid(&self.shard.get_stores().verification_store, *f, &o).unwrap().messages;
            let (z, s) = (hs(z), hs(s));
            if z != s && std::env::var("SNAPSPEC_WHY").is_ok() {
                eprintln!("{f} {:?}\n  {:?}", z.iter().map(|h| hexs(&h[..4])).collect::<Vec<_>>(), s.iter().map(|h| hexs(&h[..4])).collect::<Vec<_>>());
            }
            z == s
        })
    }
    fn read(&mut self, t: &mut Trace, r: &mut Rng, c: usize) {
        if r.gen_bool(0.5) {
            t.rec(view!("zero", &self.zero.stores(), r, c));
        } else {
            t.rec(view!("shard", &self.shard.get_stores(), r, c));
        }
    }
    fn simulate(&mut self, m: &Msg) -> bool {
        let got = self.zero.simulate_message(&m.m);
        if std::env::var("SNAPSPEC_WHY").is_ok() {
            eprintln!("{} {:?}", m.j, got);
        }
        got.is_ok()
    }
}

fn text(r: &mut Rng) -> Option<String> {
    if r.gen_bool(0.5) { None } else { Some(["x", "pets", "dogs and cats", ""][r.gen_range(0..4)].into()) }
}
fn any(r: &mut Rng, w: &World, ts: u32) -> Msg {
    let c = [1, 1, 1, 1, 2, 2, 3, 4][r.gen_range(0..8)];
    let f = if r.gen_bool(0.6) { FIDS[r.gen_range(0..2)] } else { FIDS[r.gen_range(0..6)] };
    match r.gen_range(0..20) {
        0 | 1 => update(c, f, ts, ChannelUpdateBody {
            name: text(r), description: text(r), image_url: text(r), header: text(r), rules: text(r),
            casting_mode: if r.gen_bool(0.4) { None } else { Some(r.gen_range(0..4)) },
            membership_mode: if r.gen_bool(0.3) { None } else { Some([0, 1, 1, 2][r.gen_range(0..4)]) },
            ..Default::default()
        }),
        2 | 3 => pin(c, f, r.gen_range(0..4), ts),
        4..=6 => moderate(c, f, r.gen_range(1..6), r.gen_bool(0.6), ts),
        7 => odd(r, c, f, ts),
        _ => {
            let target = if r.gen_bool(0.2) { f } else if r.gen_bool(0.2) { 100 + r.gen_range(0..6) } else { FIDS[r.gen_range(0..6)] };
            // mostly something that makes sense for the target as it is
            let st = ChannelMemberStore::member_state(&w.zero.stores().channel_member_store, &cid(c), target, None).unwrap();
            let act = match st {
                _ if r.gen_bool(0.25) => r.gen_range(0..6),
                None | Some(ChannelMemberState::Removed) => [0, 0, 2, 4][r.gen_range(0..4)],
                Some(ChannelMemberState::Member) => [1, 2, 4][r.gen_range(0..3)],
                Some(ChannelMemberState::Moderator) => [1, 3, 4][r.gen_range(0..3)],
                Some(ChannelMemberState::Banned) => 5,
            };
            member(c, f, target, act, ts)
        }
    }
}

/// Histories at random: several messages to a block, repeated ones, changing owners.
fn random(ctx: &Ctx) {
    let mut t = ctx.trace("random");
    let mut r = ctx.rng(1);
    for _ in 0..ctx.scale(40, 500) {
        let cap = [None, Some(2), Some(4), Some(5)][r.gen_range(0..4)];
        let mut w = World::new(cap);
        t.rec(json!({"op": "reset", "caps": {"member": cap.unwrap_or(8192), "mod": cap.unwrap_or(16384)}}));
        let base = now() - 4000;
        let mut owned = [false; 5];
        let mut said: Vec<Msg> = vec![];
        let first = [w.own(1, 0, true), w.own(2, r.gen_range(0..3), true)];
        owned[1] = true;
        owned[2] = true;
        w.step(&mut t, &first, &[verify(1, 0, true, base), verify(2, 1, true, base + 1)]);
        t.rec(json!({"op": "begin", "ver": 2}));
        let mut verified: Vec<(u64, usize)> = vec![(1, 0), (2, 1)];
        for _ in 0..r.gen_range(10..40) {
            let mut owns = vec![];
            let mut msgs: Vec<Msg> = vec![];
            if r.gen_bool(0.07) {
                let c = r.gen_range(1..4);
                let o = w.own(c, r.gen_range(0..3), !owned[c]);
                owned[c] = true;
                owns.push(o);
            }
            for _ in 0..[1, 1, 1, 2, 3, 6][r.gen_range(0..6)] {
                let ts = base + r.gen_range(0..4500);
                let m = if !said.is_empty() && r.gen_bool(0.08) {
                    said[r.gen_range(0..said.len())].clone()
                } else if r.gen_bool(0.08) {
                    let (f, a) = if r.gen_bool(0.6) { verified[r.gen_range(0..verified.len())] } else { (FIDS[r.gen_range(0..6)], r.gen_range(0..3)) };
                    verified.push((f, a));
                    verify(f, a, r.gen_bool(0.6), base + r.gen_range(0..4500))
                } else {
                    any(&mut r, &w, ts)
                };
                if msgs.iter().any(|x| x.m.hash == m.m.hash) {
                    continue;
                }
                if r.gen_bool(0.5) && m.j["t"] != "ver" {
                    t.rec(json!({"op": "sim", "m": m.j, "ok": w.simulate(&m)}));
                }
                said.push(m.clone());
                msgs.push(m);
            }
            w.step(&mut t, &owns, &msgs);
            for c in [1, 2, r.gen_range(1..5)] {
                if r.gen_bool(0.4) {
                    w.read(&mut t, &mut r, c);
                }
            }
        }
    }
}

/// A channel with as many moderators as it can have.
fn crowded(ctx: &Ctx) {
    let mut t = ctx.trace("crowded");
    let mut r = ctx.rng(2);
    for _ in 0..ctx.scale(4, 40) {
        let mut w = World::new(None);
        t.rec(json!({"op": "reset", "caps": {"member": 8192, "mod": 16384}}));
        let ts = now() - 100;
        let o = [w.own(1, 0, true)];
        w.step(&mut t, &o, &[verify(1, 0, true, ts)]);
        t.rec(json!({"op": "begin", "ver": 1}));
        for n in 0..r.gen_range(14..24) {
            let k = 100 + r.gen_range(0..13) as u64;
            let ms: Vec<Msg> = match r.gen_range(0..8) {
                0 => vec![member(1, 1, k, 3, ts)],
                1 => vec![member(1, 1, k, 4, ts), member(1, 1, 100 + n, 2, ts)],
                2 => vec![member(1, 1, k, 0, ts)],
                3 => vec![member(1, 1, 2, 2, ts), member(1, 2, 2, 1, ts)],
                _ => vec![member(1, 1, 100 + n, 2, ts), member(1, 1, 101 + n, 2, ts)],
            };
            w.step(&mut t, &[], &ms);
            w.read(&mut t, &mut r, 1);
        }
    }
}

/// From every state the specification reaches, every action by everyone.
fn generated(ctx: &Ctx) {
    let mut t = ctx.trace("generated");
    let mut r = ctx.rng(3);
    for beh in ctx.behaviours() {
        let mut w = World::new(Some(9));
        t.rec(json!({"op": "reset", "caps": {"member": 9, "mod": 9}}));
        let ts = now() - 1000;
        let o = [w.own(1, 0, true)];
        w.step(&mut t, &o, &[verify(1, 0, true, ts), verify(2, 1, true, ts)]);
        t.rec(json!({"op": "begin", "ver": 2}));
        let (mut owns, mut msgs, mut by) = (vec![], vec![], 0);
        let together = r.gen_bool(0.5);
        for (n, s) in beh.as_array().unwrap().iter().enumerate() {
            let at = ts - n as u32; // the later, the earlier it claims to be
            let f = s[1].as_u64().unwrap_or(0);
            let flush = !together || (by != f && by != 0);
            if flush && (!owns.is_empty() || !msgs.is_empty()) {
                w.step(&mut t, &owns, &msgs);
                owns.clear();
                msgs.clear();
            }
            match s[0].as_str().unwrap() {
                "own" => {
                    if !msgs.is_empty() {
                        w.step(&mut t, &owns, &msgs);
                        owns.clear();
                        msgs.clear();
                    }
                    let a = ADDR.iter().position(|a| *a == s[1].as_str().unwrap()).unwrap();
                    let o = [w.own(1, a, false)];
                    w.step(&mut t, &o, &[]);
                    by = 0;
                    continue;
                }
                "update" => msgs.push(update(1, f, at, ChannelUpdateBody { membership_mode: if s[2] == "open" { Some(1) } else { None }, ..Default::default() })),
                _ => msgs.push(member(1, f, s[2].as_u64().unwrap(), ACTS.iter().position(|a| a.0 == s[3].as_str().unwrap()).unwrap(), at)),
            }
            by = f;
        }
        if !owns.is_empty() || !msgs.is_empty() {
            w.step(&mut t, &owns, &msgs);
        }
        w.read(&mut t, &mut r, 1);
        let mut sims = vec![];
        for f in [1u64, 2, 3, 4] {
            for target in [1u64, 2, 3, 4] {
                for act in 0..6 {
                    if target == 4 && f != 4 {
                        continue;
                    }
                    let m = member(1, f, target, act, ts);
                    sims.push(json!([m.j, w.simulate(&m)]));
                }
            }
            for m in [update(1, f, ts, ChannelUpdateBody::default()), pin(1, f, 1, ts), moderate(1, f, 1, true, ts), member(4, f, f, 0, ts)] {
                sims.push(json!([m.j, w.simulate(&m)]));
            }
        }
        t.rec(json!({"op": "sims", "all": sims}));
    }
}

// ------------------------------------------------------------------ following

fn registrar() -> ChannelRegistrar {
    channel_registrar_for_network(FarcasterNetwork::Devnet).unwrap()
}
/// The spelling with the checksum, computed here.
fn checksummed(a: &str) -> bool {
    let Some(h) = a.strip_prefix("0x") else { return false };
    if h.len() != 40 || !h.chars().all(|c| c.is_ascii_hexdigit()) {
        return false;
    }
    let low = h.to_lowercase();
    let k = hex::encode(keccak256(low.as_bytes()));
    let want: String = low.chars().zip(k.chars()).map(|(c, n)| if n.to_digit(16).unwrap() >= 8 { c.to_ascii_uppercase() } else { c }).collect();
    want == h
}
fn decimal(b: &[u8]) -> String {
    let mut n: Vec<u32> = b.iter().map(|x| *x as u32).collect();
    let mut out = vec![];
    while n.iter().any(|x| *x != 0) {
        let mut rem = 0;
        for x in n.iter_mut() {
            let v = rem * 256 + *x;
            *x = v / 10;
            rem = v % 10;
        }
        out.push(char::from_digit(rem, 10).unwrap());
    }
    if out.is_empty() {
        out.push('0');
    }
    out.iter().rev().collect()
}
fn address(c: usize) -> String {
    ChannelAssetId::for_channel(&registrar(), cid(c).try_into().unwrap()).canonical_string()
}

fn uris(ctx: &Ctx) {
    let mut t = ctx.trace("uris");
    let mut r = ctx.rng(4);
    t.rec(json!({"op": "reset", "caps": {"member": 0, "mod": 0}}));
    for (n, name) in [(FarcasterNetwork::None, "none"), (FarcasterNetwork::Mainnet, "mainnet"), (FarcasterNetwork::Testnet, "testnet"), (FarcasterNetwork::Devnet, "devnet")] {
        let g = channel_registrar_for_network(n);
        t.rec(json!({"op": "registrar", "net": name, "got": g.map(|g| vec![json!([g.chain_id.to_string(), hexs(g.address.as_slice())])]).unwrap_or_default()}));
    }
    let max = "115792089237316195423570985008687907853269984665640564039457584007913129639935";
    let nums = |r: &mut Rng, most: &str, at: &str| -> String {
        let digits = |r: &mut Rng, n: usize| (0..n).map(|_| char::from_digit(r.gen_range(0..10), 10).unwrap()).collect::<String>();
        match r.gen_range(0..14) {
            0 => most.into(),
            1 => {
                // one digit away from the greatest
                let mut b: Vec<u8> = most.bytes().collect();
                let i = r.gen_range(0..b.len());
                b[i] = b'0' + r.gen_range(0..10);
                String::from_utf8(b).unwrap()
            }
            2 => format!("0{at}"),
            3 => format!("+{at}"),
            4 => "".into(),
            5 => "0".into(),
            6 => format!("{}_{}", at, 1),
            7 => format!("{}0", most),
            8 => format!(" {at}"),
            9 => "0x1".into(),
            10 => { let n = r.gen_range(1..most.len() + 2); digits(r, n) }
            11 => { let n = r.gen_range(1..9); digits(r, n) }
            _ => at.into(),
        }
    };
    for _ in 0..ctx.scale(800, 8000) {
        let reg = if r.gen_bool(0.6) { registrar() } else { ChannelRegistrar { chain_id: 8453, address: Address::repeat_byte(r.gen_range(0..3)) } };
        let mut chain = reg.chain_id.to_string();
        let mut contract = reg.address.to_checksum(None);
        let mut token = decimal(&if r.gen_bool(0.5) { cid(r.gen_range(1..5)) } else { let mut b = vec![0u8; 32]; let k = r.gen_range(0..32); for x in b[k..].iter_mut() { *x = r.gen() } b });
        let (mut p, mut q) = ("eip155:".to_string(), "erc721:".to_string());
        for _ in 0..[0, 0, 1, 1, 1, 2][r.gen_range(0..6)] {
            match r.gen_range(0..12) {
                0..=2 => chain = nums(&mut r, "18446744073709551615", &chain),
                3..=5 => token = nums(&mut r, max, &token),
                6 => contract = [contract.to_lowercase(), contract.to_uppercase(), contract[2..].to_string(), contract[..40].to_string(), format!("{contract}0"), format!("0X{}", &contract[2..])][r.gen_range(0..6)].clone(),
                7 => {
                    let mut b: Vec<u8> = contract.bytes().collect();
                    if b.is_empty() { continue }
                    let i = r.gen_range(0..b.len());
                    b[i] = if b[i].is_ascii_uppercase() { b[i].to_ascii_lowercase() } else { b[i].to_ascii_uppercase() };
                    contract = String::from_utf8(b).unwrap();
                }
                8 => p = ["EIP155:", "eip155", "eip155::", "", "eip15:"][r.gen_range(0..5)].into(),
                9 => q = ["ERC721:", "erc721", "erc20:", "", "erc721: "][r.gen_range(0..5)].into(),
                10 => token = format!("{token}/{}", ["", "1", "x"][r.gen_range(0..3)]),
                _ => token = "1".repeat(r.gen_range(70..300)),
            }
        }
        let uri = match r.gen_range(0..40) {
            0 => format!("{p}{chain}/{q}{contract}"),
            1 => format!("/{p}{chain}/{q}{contract}/{token}"),
            2 => format!("{p}{chain}{q}{contract}{token}"),
            3 => format!("{p}{chain}/{q}{contract}/{token} "),
            _ => format!("{p}{chain}/{q}{contract}/{token}"),
        };
        let seg: Vec<&str> = uri.split('/').collect();
        let sum = seg.get(1).and_then(|s| s.strip_prefix("erc721:")).is_some_and(checksummed);
        let got = guarded(|| ChannelAssetId::parse(&uri));
        let target = guarded(|| channel_id_for_follow_target(&uri, &reg)).unwrap_or(Some([0; 32]));
        t.rec(json!({
            "op": "uri", "len": uri.len(), "seg": seg, "sum": sum, "uri": uri,
            "reg": [reg.chain_id.to_string(), hexs(reg.address.as_slice())],
            "low": seg.get(1).map(|s| s.trim_start_matches("erc721:").trim_start_matches("0x").to_lowercase()).unwrap_or_default(),
            "got": match &got {
                Ok(Ok(a)) => vec![json!({"chain": a.chain_id.to_string(), "contract": hexs(a.contract.as_slice()), "token": decimal(&a.channel_id), "again": a.canonical_string(), "in": a.is_in(&reg)})],
                Ok(Err(_)) => vec![],
                Err(e) => vec![json!({"chain": "panic", "contract": e, "token": "", "again": "", "in": false})],
            },
            "target": target.map(|x| vec![decimal(&x)]).unwrap_or_default(),
        }));
        let x: [u8; 32] = U256::from(r.gen::<u64>()).to_be_bytes();
        let a = ChannelAssetId::for_channel(&reg, x);
        t.rec(json!({"op": "for", "ok": a.is_in(&reg) && ChannelAssetId::parse(&a.canonical_string()) == Ok(a) && decimal(&a.channel_id) == U256::from_be_bytes(x).to_string()}));
    }
}

fn follows(ctx: &Ctx) {
    let mut t = ctx.trace("follows");
    let mut r = ctx.rng(5);
    let vs = versions();
    for h in 0..ctx.scale(60, 800) {
        let dir = tmp();
        let db = RocksDB::new(dir.path().to_str().unwrap());
        db.open().unwrap();
        let db = Arc::new(db);
        let net = if r.gen_bool(0.85) { FarcasterNetwork::Devnet } else { FarcasterNetwork::Mainnet };
        let s = Stores::new(db.clone(), 1, MerkleTrie::new().unwrap(), StoreLimits::default(), net, th::statsd_client()).reaction_store;
        t.rec(json!({"op": "reset", "caps": {"member": 0, "mod": 0}, "net": if net == FarcasterNetwork::Devnet { "devnet" } else { "mainnet" }}));
        let base = now() - 1000;
        let targets: Vec<(String, Target)> = (1..=3)
            .map(|c| (format!("c{c}"), Target::TargetUrl(address(c))))
            .chain([
                ("other".to_string(), Target::TargetUrl(address(1).replace("11155111", "1"))),
                ("low".to_string(), Target::TargetUrl(address(1).to_lowercase())),
                ("cast".to_string(), Target::TargetCastId(CastId { fid: 3, hash: cast(1) })),
            ])
            .collect();
        let old = vs[r.gen_range(0..vs.len())];
        for _ in 0..r.gen_range(8..50) {
            let f = FIDS[r.gen_range(0..6)];
            match r.gen_range(0..14) {
                0..=8 => {
                    let (u, target) = targets[if r.gen_bool(0.7) { r.gen_range(0..2) } else { r.gen_range(0..6) }].clone();
                    let k = if r.gen_bool(0.75) { ReactionType::Like } else { ReactionType::Recast };
                    let v = if r.gen_bool(0.25) { old } else { *vs.last().unwrap() };
                    let ts = base + r.gen_range(0..12);
                    let add = r.gen_bool(0.65);
                    let (tm, b) = (if add { MessageType::ReactionAdd } else { MessageType::ReactionRemove }, Body::ReactionBody(ReactionBody { r#type: k as i32, target: Some(target) }));
                    let m = messages_factory::create_message_with_data(f, tm, b, Some(ts), Some(&SigningKey::from_bytes(&[if r.gen_bool(0.5) { 1 } else { 2 }; 32])));
                    let mut txn = RocksDbTransactionBatch::new();
                    let got = s.merge(&m, &mut txn, &MergeContext { version: v });
                    if got.is_ok() {
                        db.commit(txn).unwrap();
                    }
                    t.rec(json!({"op": "react", "f": f, "u": u, "k": if k == ReactionType::Like { "like" } else { "recast" }, "add": add, "ts": ts, "v": v as u32, "by": m.signer[0], "taken": got.is_ok(), "id": hexs(&m.hash[..8])}));
                }
                9 => {
                    let k = SigningKey::from_bytes(&[if r.gen_bool(0.5) { 1 } else { 2 }; 32]).verifying_key().to_bytes().to_vec();
                    let mut txn = RocksDbTransactionBatch::new();
                    let _ = s.revoke_messages_by_signer(f, &k, &mut txn).unwrap();
                    db.commit(txn).unwrap();
                    t.rec(json!({"op": "revoke", "f": f, "by": k[0]}));
                }
                10 => {
                    let mut txn = RocksDbTransactionBatch::new();
                    let ev = s.prune_messages(f, 10, 10 - r.gen_range(0..3), &mut txn).unwrap();
                    db.commit(txn).unwrap();
                    let gone: Vec<String> = ev.iter().filter_map(|e| match &e.body { Some(hub_event::Body::PruneMessageBody(b)) => Some(hexs(&b.message.as_ref().unwrap().hash[..8])), _ => None }).collect();
                    t.rec(json!({"op": "pruned", "gone": gone}));
                }
                _ => {}
            }
            if h % 2 == 0 || r.gen_bool(0.3) {
                let c = r.gen_range(1..5);
                let id: [u8; 32] = cid(c).try_into().unwrap();
                let who = pages(&mut r, |o| ReactionStore::followers_by_channel(&s, &id, o)).0;
                let what = pages(&mut r, |o| ReactionStore::follows_by_fid(&s, f, o)).0;
                let is = ReactionStore::is_following(&s, f, &id).unwrap();
                t.rec(json!({"op": "follows", "c": c, "u": format!("c{c}"), "f": f, "count": ReactionStore::follower_count(&s, &id).unwrap(),
                    "who": who.iter().map(|x| json!([x.fid, x.followed_at])).collect::<Vec<_>>(),
                    "what": what.iter().map(|x| json!([cnum(&x.channel_id), x.followed_at])).collect::<Vec<_>>(),
                    "is": is.map(|x| vec![x]).unwrap_or_default()}));
            }
        }
    }
}

pub fn run(ctx: &Ctx) {
    uris(ctx);
    follows(ctx);
    crowded(ctx);
    random(ctx);
    generated(ctx);
    let _: Option<proto::Message> = None;
}
