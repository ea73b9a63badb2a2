//! Stateless validation: builds messages around every boundary, asks the real code, and records
//! the verdict together with the facts the specification judges by.
use crate::common::*;
use crate::eip712;
use ed25519_dalek::{Signer, SigningKey, VerifyingKey};
use prost::Message as _;
use rand::{Rng as _, RngCore};
use serde_json::{json, Value};
use snapchain::core::util::FarcasterTime;
use snapchain::core::validations::error::ValidationError;
use snapchain::core::validations::message::validate_message;
use snapchain::core::validations::{key, verification};
use snapchain::proto::message_data::Body;
use snapchain::proto::*;
use snapchain::version::version::EngineVersion;

pub fn versions() -> Vec<EngineVersion> {
    use EngineVersion::*;
    vec![
        V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21,
    ]
}

pub fn name_of(e: &ValidationError) -> String {
    format!("{e:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string()
}
fn verdict<T>(r: Result<Result<T, ValidationError>, String>) -> String {
    match r {
        Ok(Ok(_)) => "ok".into(),
        Ok(Err(e)) => name_of(&e),
        Err(_) => "panic".into(),
    }
}

fn fidf(f: u64) -> &'static str {
    if f == 0 {
        "0"
    } else {
        "n"
    }
}
fn castf(c: &CastId) -> Value {
    json!({"k":"cast","fid":fidf(c.fid),"hl":c.hash.len()})
}
fn urlf(u: &str) -> Value {
    json!({"k":"url","len":u.len()})
}

/// The abstraction function: what the specification sees of a message body.
pub fn describe(d: &MessageData) -> Value {
    let none = json!({"k":"none"});
    match &d.body {
        None => none,
        Some(Body::CastAddBody(b)) => json!({"k":"cast_add","ct":b.r#type,"tl":b.text.len(),
            "emb": b.embeds.iter().map(|e| match &e.embed {
                None => json!({"k":"none"}),
                Some(embed::Embed::Url(u)) => urlf(u),
                Some(embed::Embed::CastId(c)) => castf(c)}).collect::<Vec<_>>(),
            "dep": b.embeds_deprecated.iter().map(|s| s.len()).collect::<Vec<_>>(),
            "ment": b.mentions.iter().map(|f| fidf(*f)).collect::<Vec<_>>(),
            "pos": b.mentions_positions,
            "par": match &b.parent {
                None => none,
                Some(cast_add_body::Parent::ParentUrl(u)) => urlf(u),
                Some(cast_add_body::Parent::ParentCastId(c)) => castf(c)}}),
        Some(Body::CastRemoveBody(b)) => json!({"k":"cast_remove","hl":b.target_hash.len()}),
        Some(Body::LinkBody(b)) => json!({"k":"link","tlen":b.r#type.len(),"tgt":match &b.target {
            None => "none", Some(link_body::Target::TargetFid(f)) => fidf(*f)}}),
        Some(Body::LinkCompactStateBody(b)) => json!({"k":"compact","tlen":b.r#type.len(),
            "tgts":b.target_fids.iter().map(|f| fidf(*f)).collect::<Vec<_>>()}),
        Some(Body::ReactionBody(b)) => json!({"k":"reaction","rt":b.r#type,"tgt":match &b.target {
            None => none,
            Some(reaction_body::Target::TargetUrl(u)) => urlf(u),
            Some(reaction_body::Target::TargetCastId(c)) => castf(c)}}),
        Some(Body::UserDataBody(b)) => {
            let textual = [6, 7, 8, 9, 11, 13].contains(&b.r#type);
            let sum = b.r#type == 11 && b.value.len() == 42 && b.value.is_ascii() && b.value == checksum(&b.value);
            let b58 = bs58::decode(&b.value).into_vec().map(|v| v.len() as i64).unwrap_or(-1);
            json!({"k":"user_data","ty":b.r#type,"len":b.value.len(),
                "val": if textual { b.value.as_bytes().to_vec() } else { vec![] }, "sum":sum, "b58":b58})
        }
        Some(Body::UsernameProofBody(b)) => json!({"k":"proof","ty":b.r#type,"name":b.name,
            "utf8":std::str::from_utf8(&b.name).is_ok()}),
        Some(Body::FrameActionBody(b)) => json!({"k":"frame","btn":b.button_index.min(1000),"url":b.url.len(),
            "input":b.input_text.len(),"state":b.state.len(),"tx":b.transaction_id.len(),"addr":b.address.len(),
            "cast":b.cast_id.as_ref().map(castf).unwrap_or(none)}),
        Some(Body::LendStorageBody(b)) => json!({"k":"lend","ut":b.unit_type,"n":b.num_units.min(1_000_000)}),
        Some(Body::KeyAddBody(b)) => json!({"k":"key_add","kl":b.key.len(),"kt":b.key_type,"deadline0":b.deadline==0,
            "ttl":b.ttl.min(1<<30),"mt":b.metadata_type,"ml":b.metadata.len(),"scopes":b.scopes}),
        Some(Body::KeyRemoveBody(b)) => json!({"k":"key_remove","kl":b.key.len(),"st":b.signature_type,
            "deadline0":b.deadline==0}),
        Some(Body::VerificationAddAddressBody(b)) => {
            let exact = match b.protocol {
                0 => {
                    let d = eip712::claim_digest(d.fid, &b.address, &b.block_hash, d.network as u64, None);
                    eip712::signer_of(&b.claim_signature, d).map(|a| a.to_vec()) == Some(b.address.clone())
                }
                1 => sol_exact(d, b),
                _ => false,
            };
            json!({"k":"verif_add","proto":b.protocol,"al":b.address.len(),"bl":b.block_hash.len(),
                "sl":b.claim_signature.len(),"chain":b.chain_id.to_string(),"cut":b.chain_id>65535,"low":(b.chain_id as u16).to_string(),
                "vt":b.verification_type.min(9),"claim":if exact {"exact"} else {"other"}})
        }
        Some(Body::VerificationRemoveBody(b)) => json!({"k":"verif_remove","proto":b.protocol,"al":b.address.len()}),
        Some(Body::ChannelUpdateBody(b)) => json!({"k":"chan_update","cl":b.channel_id.len(),
            "cm":b.casting_mode.unwrap_or(0),"mm":b.membership_mode.unwrap_or(0)}),
        Some(Body::ChannelMemberBody(b)) => json!({"k":"chan_member","cl":b.channel_id.len(),"act":b.action,
            "fid": if b.fid == 0 {"0"} else if b.fid > u32::MAX as u64 {"big"} else {"n"}}),
        Some(Body::ChannelPinBody(b)) => json!({"k":"chan_pin","cl":b.channel_id.len(),"hl":b.cast_hash.len()}),
        Some(Body::ChannelModerateBody(b)) => json!({"k":"chan_moderate","cl":b.channel_id.len(),
            "hl":b.cast_hash.len(),"act":b.action}),
    }
}

fn checksum(s: &str) -> String {
    let lower = s[2..].to_lowercase();
    let h = hex::encode(alloy_primitives::keccak256(lower.as_bytes()));
    let mut out = "0x".to_string();
    for (c, n) in lower.chars().zip(h.chars()) {
        out.push(if n.to_digit(16).unwrap() >= 8 { c.to_ascii_uppercase() } else { c });
    }
    out
}
pub fn sol_text(fid: u64, address: &[u8], network: i32, block_hash: &[u8]) -> String {
    format!(
        "fid: {} address: {} network: {} blockHash: {} protocol: 1",
        fid,
        bs58::encode(address).into_string(),
        network,
        bs58::encode(block_hash).into_string()
    )
}
fn sol_exact(d: &MessageData, b: &VerificationAddAddressBody) -> bool {
    let Ok(vk) = VerifyingKey::try_from(b.address.as_slice()) else { return false };
    let Ok(s) = ed25519_dalek::Signature::from_slice(&b.claim_signature) else { return false };
    vk.verify_strict(sol_text(d.fid, &b.address, d.network, &b.block_hash).as_bytes(), &s).is_ok()
}

pub const NOW: u64 = 150_000_000;

/// All facts of a message for the specification.
pub fn facts(m: &Message, cur: i32, pro: bool, v: EngineVersion, block_ts: u64) -> Value {
    let (bytes, data, state) = match (&m.data_bytes, &m.data) {
        (Some(b), _) if b.is_empty() => (vec![], None, "missing"),
        (Some(b), _) => match MessageData::decode(b.as_slice()) {
            Ok(d) => (b.clone(), Some(d), "ok"),
            Err(_) => (b.clone(), None, "garbled"),
        },
        (None, None) => (vec![], None, "missing"),
        (None, Some(d)) => (d.encode_to_vec(), Some(d.clone()), "ok"),
    };
    let vk = VerifyingKey::try_from(m.signer.as_slice());
    let sig = if m.signature.is_empty() {
        "empty"
    } else {
        match (ed25519_dalek::Signature::from_slice(&m.signature), &vk) {
            (Err(_), _) => "wrong",
            (Ok(s), Ok(k)) => if k.verify_strict(&m.hash, &s).is_ok() { "ok" } else { "wrong" },
            (Ok(_), Err(_)) => "ok",
        }
    };
    let d = data.unwrap_or_default();
    let ahead = (d.timestamp as i64 - block_ts as i64).clamp(-2_000_000_000, 2_000_000_000);
    json!({"op":"msg","v":v as u32,"pro":pro,"data":state,"dlen":bytes.len(),"type":d.r#type,"net":d.network,"cur":cur,
        "hs":m.hash_scheme,"hash":if blake3::hash(&bytes).as_bytes()[..20]==m.hash[..] {"ok"} else {"bad"},
        "ss":m.signature_scheme,"sig":sig,"signer":if vk.is_ok() {"ok"} else {"bad"},
        "ahead":ahead,"old":d.timestamp<73_612_800,"body":describe(&d)})
}

fn key_n(n: u8) -> SigningKey {
    SigningKey::from_bytes(&[n; 32])
}

pub fn seal(d: &MessageData, key: &SigningKey, inline: bool) -> Message {
    let bytes = d.encode_to_vec();
    let hash = blake3::hash(&bytes).as_bytes()[..20].to_vec();
    Message {
        signature: key.sign(&hash).to_bytes().to_vec(),
        hash,
        hash_scheme: 1,
        signature_scheme: 1,
        signer: key.verifying_key().to_bytes().to_vec(),
        data: if inline { Some(d.clone()) } else { None },
        data_bytes: if inline { None } else { Some(bytes) },
    }
}

/// Field values near the rules: `odd` is the chance of an out-of-the-ordinary pick.
struct G<'a> {
    r: &'a mut Rng,
    odd: f64,
}
impl G<'_> {
    fn odd(&mut self) -> bool {
        let p = self.odd;
        self.r.gen_bool(p)
    }
    fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.r.gen_range(0..xs.len())].clone()
    }
    /// a length allowed up to `max` (or the boundary), at times beyond
    fn len(&mut self, lo: usize, max: usize) -> usize {
        if self.odd() {
            self.pick(&[0, lo.saturating_sub(1), max + 1, max + 1, max + 7])
        } else {
            let mid = self.r.gen_range(lo..=max);
            self.pick(&[lo, lo, max, max, mid])
        }
    }
    fn exact(&mut self, n: usize) -> usize {
        if self.odd() {
            self.pick(&[0, n - 1, n + 1, 2 * n])
        } else {
            n
        }
    }
    fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0u8; n];
        self.r.fill_bytes(&mut v);
        v
    }
    fn int(&mut self, good: &[i32], bad: &[i32]) -> i32 {
        if self.odd() {
            self.pick(bad)
        } else {
            self.pick(good)
        }
    }
    /// text of exactly n bytes, sometimes in multi-byte characters
    fn text(&mut self, n: usize) -> String {
        let mut s = String::new();
        let wide = self.r.gen_bool(0.4);
        while s.len() < n {
            let left = n - s.len();
            if wide && left >= 4 && self.r.gen_bool(0.3) {
                s.push('😀');
            } else if wide && left >= 2 {
                s.push('é');
            } else {
                s.push((b'a' + self.r.gen_range(0..26)) as char);
            }
        }
        s
    }
    fn fid(&mut self) -> u64 {
        if self.odd() {
            0
        } else {
            let x = self.r.gen_range(1..10_000);
            self.pick(&[1, x, u32::MAX as u64, u64::MAX])
        }
    }
    fn cast_id(&mut self) -> CastId {
        let n = self.exact(20);
        CastId { fid: self.fid(), hash: self.bytes(n) }
    }
    fn url(&mut self) -> String {
        let n = self.len(1, 256);
        self.text(n)
    }
    fn name(&mut self) -> String {
        let good = ["a", "alice", "9lives", "a-b-c", "abcdefghijklmnop", "0123456789012345", "b--c", "z-"];
        let bad = ["", "-alice", "Alice", "alice_", "abcdefghijklmnopq", "al ice", "ali.ce", "é", "alice\n", "\nalice", "alıce", "a\u{0}b"];
        let s = if self.odd() { self.pick(&bad) } else { self.pick(&good) };
        s.to_string()
    }
    fn ens(&mut self, suffix: &str) -> String {
        let n = self.name();
        if self.odd() {
            let b = ["eth", "", ".ETH", ".eth.eth", ".eth.", ".eth\n", ".base.eth", ".sub.eth", ".base.base.eth", ".base", "eth.eth", ".ethh"];
            format!("{n}{}", self.pick(&b))
        } else {
            format!("{n}{suffix}")
        }
    }
    fn mutate(&mut self, s: &str, alphabet: &str) -> String {
        let mut v: Vec<char> = s.chars().collect();
        let a: Vec<char> = alphabet.chars().collect();
        for _ in 0..self.r.gen_range(1..3) {
            let c = a[self.r.gen_range(0..a.len())];
            match self.r.gen_range(0..3) {
                0 if !v.is_empty() => { let i = self.r.gen_range(0..v.len()); v[i] = c; }
                1 if !v.is_empty() => { let i = self.r.gen_range(0..v.len()); v.remove(i); }
                _ => { let i = self.r.gen_range(0..=v.len()); v.insert(i, c); }
            }
        }
        v.into_iter().collect()
    }
    fn geo(&mut self) -> String {
        let base = ["geo:12.34,-56.78", "geo:-90.00,180.00", "geo:90.00,-180.00", "geo:0.00,0.00", "geo:9.99,99.99", "geo:89.99,179.99",
            "geo:-0.00,-0.00", "geo:90.01,0.00", "geo:0.00,180.01", "geo:-90.01,0.00", "geo:0.00,-180.01", "geo:99.99,0.00", "geo:0.00,999.99", ""];
        let s = self.pick(&base);
        if self.odd() { self.mutate(s, "0123456789.,-+ geo:\nE") } else { s.to_string() }
    }
    fn caip(&mut self) -> String {
        let long: String = "a".repeat(128);
        let base = ["eip155:1/erc20:0x6b175474e89094c44da98b954eedeac495271d0f".to_string(),
            "eip155:1/erc721:0x06012c8cf97BEaD5deAe237070F9587f8E7A266d/771769".into(), "a:B/abc:1".into(), "a:B/abcdefgh:1".into(),
            format!("a:B/abc:{long}"), format!("a:B/abc:{long}a"), format!("a:B/abc:1/{}", "z".repeat(246)), format!("a:B/abc:1/{}", "z".repeat(247)),
            "solana:mainnet/nft:a-b.c%20".into(), "a:B/ab:1".into(), "a:B/abcdefghi:1".into(), "a:B/abc:".into(), "a:B/abc:1/".into(), "a:B/abc:1/x/y".into(), "".into()];
        let s = self.pick(&base);
        if self.odd() { self.mutate(&s, "abzAZ09:/-.%_ \n") } else { s }
    }
    fn user_value(&mut self, ty: i32) -> String {
        match ty {
            2 => { let n = self.len(0, 32); self.text(n) }
            6 => match self.r.gen_range(0..4) {
                0 => self.name(),
                1 => self.ens(".eth"),
                2 => self.ens(".base.eth"),
                _ => { let p = self.name(); self.mutate(&p, "abz09-_.AZ ") }
            },
            7 => self.geo(),
            8 => { let b = ["", "jack", "a_b_c", "012345678901234", "abcdefghijklmno"]; let s = self.pick(&b);
                if self.odd() { self.mutate(s, "abz09_-AZ. \n") } else { s.into() } }
            9 => { let b = ["octo-cat", "A", "a-B-9", "abcdefghijabcdefghijabcdefghijabcdefgh", "9"]; let s = self.pick(&b);
                if self.odd() { self.mutate(s, "aZ0--_. \n") } else { s.into() } }
            11 => { let a = eip712::wallet(self.r.gen_range(1..9)).address(); let s = checksum(&format!("{a:#x}"));
                match if self.odd() { self.r.gen_range(1..7) } else { 0 } {
                    1 => s.to_lowercase(), 2 => s[2..].to_string(), 3 => format!("{s}0"), 4 => self.mutate(&s, "0aAfFgx"), 5 => s.replace("0x", "0X"), 6 => s[..41].to_string(),
                    _ => if self.r.gen_bool(0.1) { String::new() } else { s } } }
            12 => { let n = self.exact(32); let mut b = self.bytes(n);
                if self.r.gen_bool(0.2) && n > 0 { b[0] = 0; }
                let s = bs58::encode(b).into_string();
                if self.odd() { self.mutate(&s, "0OIl+1zZ") } else { s } }
            13 => self.caip(),
            _ => { let n = self.len(0, 256); self.text(n) }
        }
    }
}

fn verif_body(g: &mut G, d: &MessageData, contract: bool) -> VerificationAddAddressBody {
    let w = eip712::wallet(g.r.gen_range(1..6));
    let sol = key_n(g.r.gen_range(1..6));
    let proto = if g.r.gen_bool(0.35) { 1 } else { 0 };
    let bh = { let b = g.bytes(32); b };
    let address = if proto == 1 { sol.verifying_key().to_bytes().to_vec() } else { w.address().to_vec() };
    // what was signed, possibly not what is claimed
    let what = if g.odd() { g.r.gen_range(1..7) } else { 0 };
    let (mut sf, mut sn, mut sb, mut sa) = (d.fid, d.network, bh.clone(), address.clone());
    match what {
        1 => sf = sf.wrapping_add(1),
        2 => sn = if sn == 1 { 2 } else { 1 },
        3 => sb[31] ^= 1,
        4 => sa[0] ^= 1,
        5 => { let i = g.r.gen_range(0..32); sb[i] ^= 0x80; }
        _ => {}
    }
    let chain = if what == 6 { Some(1) } else { None };
    let mut sig = if proto == 1 {
        let t = sol_text(sf, &sa, sn, &sb);
        let t = if what == 6 { t.replace("protocol: 1", "protocol: 0") } else { t };
        sol.sign(t.as_bytes()).to_bytes().to_vec()
    } else {
        eip712::sign(&w, eip712::claim_digest(sf, &sa, &sb, sn as u64, chain))
    };
    let mut b = VerificationAddAddressBody {
        address,
        claim_signature: vec![],
        block_hash: bh,
        verification_type: if contract || g.r.gen_bool(0.1) { 1 } else { 0 },
        chain_id: if contract { g.pick(&[1, 10, 5, 420]) } else { g.pick(&[0, 0, 0, 1, 10]) },
        protocol: proto,
    };
    if proto == 0 && g.r.gen_bool(0.2) {
        // other spellings of the parity byte
        sig[64] = if sig[64] == 27 { 0 } else { g.pick(&[1, 28, 29, 255]) };
    }
    if g.odd() {
        match g.r.gen_range(0..11) {
            0 => { b.address.pop(); }
            1 => b.address.push(0),
            2 => b.address.clear(),
            3 => { b.block_hash.pop(); }
            4 => b.block_hash.push(0),
            5 => b.block_hash.clear(),
            6 => { sig.pop(); }
            7 => sig.push(0),
            8 => { let i = g.r.gen_range(0..sig.len()); sig[i] ^= 1 << g.r.gen_range(0..8); }
            9 => { b.verification_type = g.pick(&[0, 1, 2, 3, 256]); }
            _ => { let x = g.r.gen_range(0..32); b.address[x.min(19)] ^= 1; }
        }
    }
    if g.odd() { b.chain_id = g.pick(&[2, 4, 6, 9, 11, 137, 421, 8453, 42161, 65535, 65536, 65537, 65546, 1 << 31]); }
    if g.odd() { b.protocol = g.pick(&[0, 1, 2, -1, 7]); }
    if b.verification_type == 1 && g.odd() { let n = g.pick(&[0, 1, 2048, 2049, 1024]); sig = g.bytes(n); }
    b.claim_signature = sig;
    b
}

fn body(g: &mut G, kind: usize, d: &MessageData) -> (i32, Option<Body>) {
    match kind {
        0 => {
            let ct = g.int(&[0, 0, 0, 1, 2], &[3, -1, 1, 2]);
            let tl = match ct { 1 => g.len(321, 1024), 2 => g.len(1025, 10_000), _ => g.len(0, 320) };
            let text = g.text(tl);
            let n = g.pick(&[0, 0, 1, 2, 3, 4, 5]);
            let embeds = (0..n).map(|_| Embed { embed: if g.odd() { None } else if g.r.gen_bool(0.5) { Some(embed::Embed::Url(g.url())) } else { Some(embed::Embed::CastId(g.cast_id())) } }).collect::<Vec<_>>();
            let old = d.timestamp < 73_612_800;
            let nd = if old && embeds.is_empty() { g.pick(&[0, 1, 2, 3]) } else if g.odd() { g.pick(&[1, 3]) } else { 0 };
            let nm = g.pick(&[0, 0, 1, 3, 10, 11]);
            let mut pos: Vec<u32> = (0..nm).map(|_| g.r.gen_range(0..=tl as u32)).collect();
            pos.sort();
            if nm > 0 && g.odd() { match g.r.gen_range(0..4) { 0 => pos[nm - 1] = tl as u32 + 1, 1 => pos.reverse(), 2 => { pos.pop(); } _ => pos[nm - 1] = tl as u32 } }
            let parent = match g.r.gen_range(0..4) { 0 => Some(cast_add_body::Parent::ParentUrl(g.url())), 1 => Some(cast_add_body::Parent::ParentCastId(g.cast_id())), _ => None };
            (1, Some(Body::CastAddBody(CastAddBody { text, embeds, embeds_deprecated: (0..nd).map(|_| g.url()).collect(), mentions: (0..nm).map(|_| g.fid()).collect(), mentions_positions: pos, parent, r#type: ct })))
        }
        1 => { let n = g.exact(20); (2, Some(Body::CastRemoveBody(CastRemoveBody { target_hash: g.bytes(n) }))) }
        2 => { let n = g.len(1, 8); (g.pick(&[5, 6]), Some(Body::LinkBody(LinkBody { r#type: g.text(n), display_timestamp: None, target: if g.odd() { None } else { Some(link_body::Target::TargetFid(g.fid())) } }))) }
        3 => { let n = g.len(1, 8); let k = g.pick(&[0, 1, 2, 5, 9, 17, 33, 64, 65, 100, 130]); let at = g.r.gen_range(0..k.max(1)); let bad = g.odd(); (14, Some(Body::LinkCompactStateBody(LinkCompactStateBody { r#type: g.text(n), target_fids: (0..k).map(|i| if i == at { if bad { 0 } else { g.fid() } } else { 1 + i as u64 }).collect() }))) }
        4 => (g.pick(&[3, 4]), Some(Body::ReactionBody(ReactionBody { r#type: g.int(&[0, 1, 2], &[3, -1]), target: match if g.odd() { 2 } else { g.r.gen_range(0..2) } { 0 => Some(reaction_body::Target::TargetUrl(g.url())), 1 => Some(reaction_body::Target::TargetCastId(g.cast_id())), _ => None } }))),
        5 | 6 => { let ty = g.int(&[1, 2, 3, 5, 6, 6, 7, 7, 8, 9, 10, 11, 12, 13, 13, 14], &[0, 4, 15, -1]); (11, Some(Body::UserDataBody(UserDataBody { r#type: ty, value: g.user_value(ty) }))) }
        7 => { let ty = g.int(&[2, 3], &[0, 1, 4]); let n = if ty == 3 { g.ens(".base.eth") } else { g.ens(".eth") }; let mut name = n.into_bytes(); if g.odd() && !name.is_empty() { name[0] = 0xff; }
            (12, Some(Body::UsernameProofBody(UserNameProof { timestamp: 1, name, owner: g.bytes(20), signature: g.bytes(65), fid: d.fid, r#type: ty }))) }
        8 => { let (a, b, c, e, f) = (g.len(1, 1024), g.len(0, 256), g.len(0, 900), g.len(0, 256), g.len(0, 64));
            (13, Some(Body::FrameActionBody(FrameActionBody { url: g.bytes(a), button_index: g.int(&[0, 1, 4, 5], &[6, 100]) as u32, cast_id: if g.r.gen_bool(0.5) { Some(g.cast_id()) } else { None }, input_text: g.bytes(b), state: g.bytes(c), transaction_id: g.bytes(e), address: g.bytes(f) }))) }
        9 => (15, Some(Body::LendStorageBody(LendStorageBody { to_fid: g.fid(), num_units: g.int(&[0, 1, 4999, 5000], &[5001, i32::MAX]) as u64, unit_type: g.int(&[0, 1, 2], &[3, -1]) }))),
        10 => { let n = g.exact(32);
            let k = g.pick(&[1, 2, 13, 16]);
            let all = [1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 14, 15];
            let mut scopes: Vec<i32> = (0..k).map(|_| g.pick(&all)).collect();
            if g.odd() { match g.r.gen_range(0..3) { 0 => scopes.clear(), 1 => scopes = vec![1; 17], _ => { let i = g.r.gen_range(0..scopes.len()); scopes[i] = g.pick(&[0, 9, 10, 16, 17, 18, 19, 20, 21, 22, -1]); } } }
            let m = if g.odd() { 0 } else { 10 };
            (16, Some(Body::KeyAddBody(KeyAddBody { key: g.bytes(n), key_type: g.int(&[1], &[0, 2]) as u32, custody_signature: g.bytes(65), deadline: g.int(&[1, 100], &[0]) as u32, nonce: 1, metadata: g.bytes(m), metadata_type: g.int(&[1], &[0, 2]) as u32, registration_tx_hash: vec![], scopes, ttl: g.int(&[1, 86400, 7_775_999, 7_776_000], &[0, 7_776_001, i32::MAX]) as u32 }))) }
        11 => { let n = g.exact(32); (17, Some(Body::KeyRemoveBody(KeyRemoveBody { key: g.bytes(n), signature: g.bytes(65), signature_type: g.int(&[1, 2], &[0, 3]) as u32, deadline: g.int(&[1, 100], &[0]) as u32, nonce: 1 }))) }
        12 => { let p = g.int(&[0, 1], &[2, -1]); let n = g.exact(if p == 1 { 32 } else { 20 }); let n = if g.odd() { if n == 20 { 32 } else { 20 } } else { n }; (8, Some(Body::VerificationRemoveBody(VerificationRemoveBody { address: g.bytes(n), protocol: p }))) }
        13 => { let n = g.exact(32); (18, Some(Body::ChannelUpdateBody(ChannelUpdateBody { channel_id: g.bytes(n), name: None, description: None, image_url: None, header: None, rules: None, casting_mode: if g.r.gen_bool(0.3) { None } else { Some(g.int(&[0, 1, 2, 3], &[4, -1, 7])) }, membership_mode: if g.r.gen_bool(0.3) { None } else { Some(g.int(&[0, 1, 2], &[3, 4, -2])) } }))) }
        14 => { let n = g.exact(32); (19, Some(Body::ChannelMemberBody(ChannelMemberBody { channel_id: g.bytes(n), fid: if g.odd() { g.pick(&[0, 1 << 32, u64::MAX]) } else { g.pick(&[1, 77, u32::MAX as u64]) }, action: g.int(&[1, 2, 3, 4, 5, 6], &[0, 7, -1]) }))) }
        15 => { let n = g.exact(32); let h = if g.r.gen_bool(0.3) { 0 } else { g.exact(20) }; (20, Some(Body::ChannelPinBody(ChannelPinBody { channel_id: g.bytes(n), cast_hash: g.bytes(h) }))) }
        16 => { let n = g.exact(32); let h = g.exact(20); (21, Some(Body::ChannelModerateBody(ChannelModerateBody { channel_id: g.bytes(n), cast_hash: g.bytes(h), action: g.int(&[1, 2], &[0, 3, -1]) }))) }
        17 => (7, Some(Body::VerificationAddAddressBody(verif_body(g, d, false)))),
        _ => (g.pick(&[1, 11, 0]), None),
    }
}

fn data(g: &mut G, kind: usize, block_ts: u64, nets: &[i32]) -> MessageData {
    let mut d = MessageData { fid: g.r.gen_range(1..1000), ..Default::default() };
    d.network = g.pick(nets);
    if g.odd() { d.network = g.pick(&[0, 4, -1, 1, 2, 3]); }
    let off = if g.odd() { g.pick(&[601i64, 700, 602]) } else { g.pick(&[0, -1, 600, 599, -600, -599]) };
    let off = if kind == 9 && g.odd() { g.pick(&[-601, -602, -10_000]) } else { off };
    d.timestamp = (block_ts as i64 + off) as u32;
    if kind == 0 && g.r.gen_bool(0.3) { d.timestamp = g.pick(&[73_612_799, 73_612_800, 70_000_000]); }
    if g.r.gen_bool(0.03) { d.timestamp = g.pick(&[0, u32::MAX]); }
    let (t, b) = body(g, kind, &d);
    d.r#type = t;
    d.body = b;
    d
}

/// Pads the encoded message with an unknown field up to a length around the size limits.
fn pad(bytes: &mut Vec<u8>, to: usize) {
    // field 200, wire type 2
    let room = to.saturating_sub(bytes.len());
    if room < 6 { return; }
    let mut n = room - 4;
    let hdr = |n: usize| -> Vec<u8> { let mut v = vec![]; prost::encoding::encode_key(200, prost::encoding::WireType::LengthDelimited, &mut v); prost::encoding::encode_varint(n as u64, &mut v); v };
    while hdr(n).len() + n > room { n -= 1; }
    let h = hdr(n);
    bytes.extend_from_slice(&h);
    bytes.extend(std::iter::repeat(7).take(n));
}

fn envelope(g: &mut G, d: &MessageData, kind: usize) -> Message {
    let k = key_n(g.r.gen_range(1..6));
    let inline = g.r.gen_bool(0.3);
    let mut m = seal(d, &k, inline);
    let reseal = |m: &mut Message, bytes: Vec<u8>| {
        m.hash = blake3::hash(&bytes).as_bytes()[..20].to_vec();
        m.signature = k.sign(&m.hash).to_bytes().to_vec();
        m.data_bytes = Some(bytes);
    };
    if !inline && g.r.gen_bool(0.15) {
        let lim = match kind { 3 => g.pick(&[2048, 65536]), 0 | 7 => g.pick(&[2048, 16384]), _ => 2048 };
        let to = lim + g.pick(&[0, 1, 0, 1]);
        let mut b = m.data_bytes.clone().unwrap();
        if b.len() + 8 < to { pad(&mut b, to); reseal(&mut m, b); }
    }
    if g.odd() {
        match g.r.gen_range(0..14) {
            0 => m.hash_scheme = g.pick(&[0, 2, -1]),
            1 => m.signature_scheme = g.pick(&[0, 2, 3]),
            2 => { let i = g.r.gen_range(0..20); m.hash[i] ^= 1; }
            3 => { let i = g.r.gen_range(0..20); m.hash[i] ^= 1; m.signature = k.sign(&m.hash).to_bytes().to_vec(); }
            4 => { m.hash.pop(); m.signature = k.sign(&m.hash).to_bytes().to_vec(); }
            5 => { let i = g.r.gen_range(0..64); m.signature[i] ^= 1; }
            6 => m.signature.clear(),
            7 => { m.signature.pop(); }
            8 => m.signer.push(1),
            9 => m.signer = key_n(77).verifying_key().to_bytes().to_vec(),
            10 => m.signer.clear(),
            11 => { m.data_bytes = Some(vec![]); }
            12 => { let mut b = d.encode_to_vec(); b.push(0x0b); b.push(0xff); reseal(&mut m, b); }
            _ => { let full: Vec<u8> = blake3::hash(&d.encode_to_vec()).as_bytes().to_vec(); m.hash = full[..g.pick(&[21, 32])].to_vec(); m.signature = k.sign(&m.hash).to_bytes().to_vec(); }
        }
        if g.r.gen_bool(0.05) { m.data = None; m.data_bytes = None; }
        // another content under the same envelope
        if g.r.gen_bool(0.1) { let mut e = d.clone(); e.fid += 1; if m.data.is_some() { m.data = Some(e); } else { m.data_bytes = Some(e.encode_to_vec()); } }
    }
    // both representations present: the bytes are what counts
    if m.data_bytes.is_some() && g.r.gen_bool(0.1) { m.data = Some(d.clone()); }
    m
}

fn nets(i: i32) -> FarcasterNetwork {
    FarcasterNetwork::try_from(i).unwrap()
}

fn judge(t: &mut Trace, m: &Message, cur: i32, pro: bool, v: EngineVersion, ts: u64) {
    let mut f = facts(m, cur, pro, v, ts);
    let r = guarded(|| validate_message(m, nets(cur), pro, &FarcasterTime::new(ts), v));
    f["res"] = json!(verdict(r));
    t.rec(f);
}

fn messages(ctx: &Ctx, kinds: &[usize], n: usize, name: &str, stream: u64) {
    let mut r = ctx.rng(stream);
    let mut t = ctx.trace(name);
    let vs = versions();
    for i in 0..n {
        if i % 50 == 0 {
            t.rec(json!({"op":"reset"}));
        }
        let kind = kinds[i % kinds.len()];
        let odd = [0.0, 0.05, 0.1, 0.2][r.gen_range(0..4)];
        let v = if r.gen_bool(0.5) { EngineVersion::V21 } else { vs[r.gen_range(0..vs.len())] };
        let cur = [1, 2, 3][r.gen_range(0..3)];
        let pro = r.gen_bool(0.4);
        let allowed: &[i32] = if cur == 1 { &[1] } else { &[1, 2, 3] };
        let mut g = G { r: &mut r, odd };
        let d = data(&mut g, kind, NOW, allowed);
        let m = envelope(&mut g, &d, kind);
        judge(&mut t, &m, cur, pro, v, NOW);
    }
}

/// One valid message per kind of body, at every version, for ordinary and pro users.
fn every_version(ctx: &Ctx, kinds: &[usize]) {
    let mut r = ctx.rng(77);
    let mut t = ctx.trace("versions");
    for v in versions() {
        t.rec(json!({"op":"reset"}));
        for kind in kinds {
            for pro in [false, true] {
                let mut g = G { r: &mut r, odd: 0.0 };
                let d = data(&mut g, *kind, NOW, &[1]);
                let m = seal(&d, &key_n(3), false);
                judge(&mut t, &m, 1, pro, v, NOW);
            }
        }
    }
}

pub fn run(ctx: &Ctx) {
    match ctx.focus.as_str() {
        "message" => {
            let kinds: Vec<usize> = (0..19).filter(|k| *k != 17).collect();
            messages(ctx, &kinds, ctx.scale(15_000, 150_000), "messages", 1);
            every_version(ctx, &kinds);
            every_position(ctx);
            generated(ctx);
        }
        "verify" => {
            messages(ctx, &[17, 17, 17, 12], ctx.scale(2500, 40_000), "claims", 2);
            known_chain(ctx);
            near_claims(ctx);
            contract(ctx);
            fname(ctx);
        }
        "key" => {
            messages(ctx, &[10, 10, 11], ctx.scale(2500, 40_000), "bodies", 3);
            key_proofs(ctx);
        }
        f => panic!("unknown focus {f}"),
    }
}

/// One bad element at every position of every list and text, at every small length.
fn every_position(ctx: &Ctx) {
    let mut t = ctx.trace("positions");
    let mut n = 0;
    let mut put = |ty: i32, ts: u32, body: Body| {
        if n % 50 == 0 { t.rec(json!({"op":"reset"})); }
        n += 1;
        let d = MessageData { r#type: ty, fid: 77, timestamp: ts, network: 1, body: Some(body) };
        let m = seal(&d, &key_n(2), false);
        judge(&mut t, &m, 1, n % 2 == 0, EngineVersion::V21, ts as u64);
    };
    let now = NOW as u32;
    for len in (1usize..=18).chain([32, 33, 64, 65]) {
        for bad in 0..=len {
            let fids: Vec<u64> = (0..len).map(|i| if i == bad { 0 } else { 1 + i as u64 }).collect();
            put(14, now, Body::LinkCompactStateBody(LinkCompactStateBody { r#type: "follow".into(), target_fids: fids.clone() }));
            if len <= 12 {
                let cast = |mentions: Vec<u64>, pos: Vec<u32>| Body::CastAddBody(CastAddBody { text: "x".repeat(12), mentions, mentions_positions: pos, ..Default::default() });
                let pos: Vec<u32> = (0..len as u32).collect();
                put(1, now, cast(fids.clone(), pos.clone()));
                let good: Vec<u64> = (1..=len as u64).collect();
                if bad < len {
                    let mut p = pos.clone(); p[bad] = 13; put(1, now, cast(good.clone(), p));
                    if bad > 0 { let mut p = pos.clone(); p.swap(bad, bad - 1); put(1, now, cast(good.clone(), p)); let mut p = pos.clone(); p[bad] = p[bad - 1]; put(1, now, cast(good, p)); }
                }
            }
            if len <= 5 {
                for what in 0..5 {
                    let embeds = (0..len).map(|i| Embed { embed: match (i == bad, what) {
                        (true, 0) => None,
                        (true, 1) => Some(embed::Embed::Url(String::new())),
                        (true, 2) => Some(embed::Embed::Url("u".repeat(257))),
                        (true, 3) => Some(embed::Embed::CastId(CastId { fid: 0, hash: vec![1; 20] })),
                        (true, _) => Some(embed::Embed::CastId(CastId { fid: 1, hash: vec![1; 19] })),
                        (false, w) if (i + w) % 2 == 0 => Some(embed::Embed::Url("https://a.b".into())),
                        _ => Some(embed::Embed::CastId(CastId { fid: 1, hash: vec![1; 20] })),
                    } }).collect();
                    put(1, now, Body::CastAddBody(CastAddBody { text: "t".into(), embeds, ..Default::default() }));
                }
                for url in ["", "long"] {
                    let old: Vec<String> = (0..len).map(|i| if i == bad { if url.is_empty() { String::new() } else { "u".repeat(257) } } else { "https://a.b".into() }).collect();
                    put(1, 73_000_000, Body::CastAddBody(CastAddBody { text: "t".into(), embeds_deprecated: old, ..Default::default() }));
                }
            }
        }
    }
    for ty in [6, 7, 8, 9, 11, 13] {
        for len in 1usize..=17 {
            for at in 0..len {
                for c in ["A", "-", "_", "@", ".", " ", "\u{e9}", "0", "/"] {
                    if (len * 7 + at * 3) % 4 != 0 && len > 3 && at + 1 != len && at != 0 { continue; }
                    let v: String = (0..len).map(|i| if i == at { c } else { "a" }).collect();
                    put(11, now, Body::UserDataBody(UserDataBody { r#type: ty, value: v }));
                }
            }
        }
    }
    for (ty, base) in [(7, "geo:12.34,-56.78"), (7, "geo:-90.00,180.00"), (7, ""), (11, "0x91031dcfdea024b4d51e775486111d2b2a715871"), (11, "0x91031dcfDEA024b4d51e775486111d2b2A715871"),
        (13, "eip155:1/erc20:0x91031dcfdea024b4d51e775486111d2b2a715871"), (13, "solana:mainnet/token:abc"), (6, "alice.base.eth"), (6, "alice.eth"), (8, "Al_ice9"), (9, "al-ice9")] {
        let b: Vec<char> = base.chars().collect();
        for at in 0..=b.len() {
            for c in ["", "0", "9", "A", "f", "g", "-", "_", ".", ",", ":", "/", " ", "x", "+", "\u{661}"] {
                let head: String = b[..at].iter().collect();
                let tail: String = b[at..].iter().collect();
                put(11, now, Body::UserDataBody(UserDataBody { r#type: ty, value: format!("{head}{c}{tail}") }));
                if at < b.len() {
                    let rest: String = b[at + 1..].iter().collect();
                    put(11, now, Body::UserDataBody(UserDataBody { r#type: ty, value: format!("{head}{c}{rest}") }));
                }
            }
        }
    }
    for la in [-91i32, -90, -89, -10, -9, -1, 0, 1, 9, 10, 89, 90, 91, 100, 900] {
        for lo in [-181i32, -180, -179, -100, -99, -10, -9, -1, 0, 1, 9, 10, 99, 100, 179, 180, 181, 190, 200, 1000] {
            for v in [format!("geo:{la}.00,{lo}.00"), format!("geo:{la}.01,{lo}.99"), format!("geo:{la}.5,{lo}.50"), format!("geo:{la},{lo}")] { put(11, now, Body::UserDataBody(UserDataBody { r#type: 7, value: v })); }
        }
    }
    // every length of every text that has a limit
    for len in (0usize..=34).chain([38, 39, 40, 41, 63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 319, 320, 321, 322, 1023, 1024, 1025]) {
        let s = "a".repeat(len);
        for ty in [1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13] { put(11, now, Body::UserDataBody(UserDataBody { r#type: ty, value: s.clone() })); }
        for ty in [0, 1, 2] { put(1, now, Body::CastAddBody(CastAddBody { text: s.clone(), r#type: ty, embeds: if ty == 0 { vec![] } else { vec![Embed { embed: Some(embed::Embed::Url("https://a.b".into())) }] }, ..Default::default() })); }
        put(5, now, Body::LinkBody(LinkBody { r#type: s.clone(), display_timestamp: None, target: Some(link_body::Target::TargetFid(4)) }));
        put(3, now, Body::ReactionBody(ReactionBody { r#type: 1, target: Some(reaction_body::Target::TargetUrl(s.clone())) }));
        put(1, now, Body::CastAddBody(CastAddBody { text: "t".into(), parent: Some(cast_add_body::Parent::ParentUrl(s.clone())), ..Default::default() }));
        put(2, now, Body::CastRemoveBody(CastRemoveBody { target_hash: vec![3; len] }));
        put(13, now, Body::FrameActionBody(FrameActionBody { url: s.clone().into_bytes(), button_index: (len % 7) as u32, cast_id: Some(CastId { fid: 3, hash: vec![1; 20] }), input_text: vec![], state: vec![], transaction_id: vec![], address: vec![] }));
        put(13, now, Body::FrameActionBody(FrameActionBody { url: b"u".to_vec(), button_index: 1, cast_id: Some(CastId { fid: 3, hash: vec![1; 20] }), input_text: s.clone().into_bytes(), state: vec![], transaction_id: vec![], address: vec![] }));
        put(13, now, Body::FrameActionBody(FrameActionBody { url: b"u".to_vec(), button_index: 1, cast_id: Some(CastId { fid: 3, hash: vec![1; 20] }), input_text: vec![], state: vec![7; len], transaction_id: vec![], address: vec![] }));
        put(13, now, Body::FrameActionBody(FrameActionBody { url: b"u".to_vec(), button_index: 1, cast_id: Some(CastId { fid: 3, hash: vec![1; 20] }), input_text: vec![], state: vec![], transaction_id: vec![7; len], address: vec![] }));
        put(13, now, Body::FrameActionBody(FrameActionBody { url: b"u".to_vec(), button_index: 1, cast_id: Some(CastId { fid: 3, hash: vec![1; 20] }), input_text: vec![], state: vec![], transaction_id: vec![], address: vec![7; len] }));
    }
}

/// A chain number beyond 16 bits (65537), otherwise valid.
fn known_chain(ctx: &Ctx) {
    let mut t = ctx.trace("chain");
    t.rec(json!({"op":"reset"}));
    let w = eip712::wallet(3);
    for chain in [1u32, 65537, 65546, 65538] {
        let bh = vec![7u8; 32];
        let d = MessageData { r#type: 7, fid: 9, timestamp: NOW as u32, network: 1, body: Some(Body::VerificationAddAddressBody(VerificationAddAddressBody {
            address: w.address().to_vec(), claim_signature: eip712::sign(&w, eip712::claim_digest(9, w.address().as_slice(), &bh, 1, None)),
            block_hash: bh, verification_type: 0, chain_id: chain, protocol: 0 })) };
        judge(&mut t, &seal(&d, &key_n(1), false), 1, false, EngineVersion::V21, NOW);
    }
}

/// Signatures over texts and typed data that are close to the claim, but not the claim.
fn near_claims(ctx: &Ctx) {
    use eip712::{digest, hash_struct, word_addr, word_b32, word_hash, word_u};
    let mut t = ctx.trace("near");
    let mut r = ctx.rng(12);
    for round in 0..ctx.scale(3, 20) {
        let net = g_net(round);
        let fid = [9u64, 1, 4_294_967_295][round % 3];
        let bh: Vec<u8> = (0..32).map(|_| r.gen()).collect();
        // Solana: edits of the exact text
        let k = key_n(1 + (round % 5) as u8);
        let addr = k.verifying_key().to_bytes().to_vec();
        let exact = sol_text(fid, &addr, net, &bh);
        let words: Vec<&str> = exact.split(' ').collect();
        let mut texts: Vec<Vec<u8>> = vec![exact.clone().into_bytes()];
        for i in 0..5 {
            // without one field, with one field twice, fields exchanged, label lost
            let f: Vec<String> = words.chunks(2).map(|c| c.join(" ")).collect();
            let mut a = f.clone(); a.remove(i); texts.push(a.join(" ").into_bytes());
            let mut a = f.clone(); a.insert(i, f[i].clone()); texts.push(a.join(" ").into_bytes());
            let mut a = f.clone(); a.swap(i, (i + 1) % 5); texts.push(a.join(" ").into_bytes());
            let mut a = f.clone(); a[i] = words[2 * i + 1].to_string(); texts.push(a.join(" ").into_bytes());
            let mut a = f.clone(); a[i] = words[2 * i].to_string(); texts.push(a.join(" ").into_bytes());
            texts.push(f[..i].join(" ").into_bytes());
            texts.push(f[i..].join(" ").into_bytes());
        }
        for x in [" ", "\n", "\0", ".", " chainId: 0", " protocol: 1"] {
            texts.push(format!("{exact}{x}").into_bytes());
            texts.push(format!("{x}{exact}").into_bytes());
        }
        texts.push(exact.to_lowercase().into_bytes());
        texts.push(exact.to_uppercase().into_bytes());
        for (a, b) in [(": ", ":"), (" ", ""), (" ", "  "), (" ", "\n"), (" ", ", "), ("protocol: 1", "protocol: 0"), ("protocol: 1", "protocol: 2"), ("protocol: 1", "protocol: SOLANA"), ("blockHash", "block_hash"), ("blockHash", "blockhash")] {
            texts.push(exact.replace(a, b).into_bytes());
        }
        let hex_addr = format!("0x{}", hex::encode(&addr));
        let hex_bh = format!("0x{}", hex::encode(&bh));
        texts.push(exact.replace(words[3], &hex_addr).into_bytes());
        texts.push(exact.replace(words[7], &hex_bh).into_bytes());
        texts.push(exact.replace(words[3], &hex_addr[2..]).into_bytes());
        texts.push(exact.replace(words[7], &hex_bh[2..]).into_bytes());
        for (f, n) in [(fid + 1, net), (fid, net % 3 + 1), (0, net), (fid, 0), (fid % 256, net)] { texts.push(sol_text(f, &addr, n, &bh).into_bytes()); }
        let mut off = exact.clone().into_bytes(); off.insert(0, 0xff); off.extend_from_slice(b"solana offchain"); texts.push(off);
        let mut off = b"\xffsolana offchain".to_vec(); off.extend([0u8, 0]); off.extend((exact.len() as u16).to_le_bytes()); off.extend(exact.as_bytes()); texts.push(off);
        texts.push(hex::encode(&exact).into_bytes());
        texts.push(alloy_primitives::keccak256(&exact).to_vec());
        texts.push(vec![]);
        let n = texts.len();
        for (i, text) in texts.into_iter().enumerate() {
            if i % 50 == 0 { t.rec(json!({"op":"reset"})); }
            near(&mut t, fid, net, addr.clone(), k.sign(&text).to_bytes().to_vec(), bh.clone(), 1, 0);
            let _ = n;
        }
        // Ethereum: the same fields under other typed data, and other ways to sign
        let w = eip712::wallet(1 + (round % 5) as u8);
        let a = w.address().to_vec();
        let salt = word_b32(&hex::decode("f2d857f4a3edcb9b78b4d503bfe733db1e3f6cdc2b7971ee739626c97e86a558").unwrap());
        let nm = word_hash(b"Farcaster Verify Ethereum Address");
        let dom = |s: &str, w: &[[u8; 32]]| hash_struct(s, w);
        let full = "EIP712Domain(string name,string version,bytes32 salt)";
        let claim = |s: &str, w: &[[u8; 32]]| hash_struct(s, w);
        let right_dom = dom(full, &[nm, word_hash(b"2.0.0"), salt]);
        let cs = "VerificationClaim(uint256 fid,address address,bytes32 blockHash,uint8 network)";
        let cw = [word_u(fid), word_addr(&a), word_b32(&bh), word_u(net as u64)];
        let right = claim(cs, &cw);
        let mut ds = vec![digest(right_dom, right)];
        for v in ["1", "2", "2.0", "2.0.1", "1.0.0", ""] { ds.push(digest(dom(full, &[nm, word_hash(v.as_bytes()), salt]), right)); }
        for x in ["Farcaster", "farcaster verify ethereum address", "Farcaster Verify Solana Address", "Farcaster KeyAdd", ""] { ds.push(digest(dom(full, &[word_hash(x.as_bytes()), word_hash(b"2.0.0"), salt]), right)); }
        ds.push(digest(dom(full, &[nm, word_hash(b"2.0.0"), [0; 32]]), right));
        ds.push(digest(dom("EIP712Domain(string name,string version)", &[nm, word_hash(b"2.0.0")]), right));
        for c in [0u64, 1, 5, 10, 420] { ds.push(digest(dom("EIP712Domain(string name,string version,uint256 chainId,bytes32 salt)", &[nm, word_hash(b"2.0.0"), word_u(c), salt]), right)); }
        for c in [0u64, 1, 10] { ds.push(digest(dom("EIP712Domain(string name,string version,uint256 chainId)", &[nm, word_hash(b"2.0.0"), word_u(c)]), right)); }
        for x in ["VerificationClaim(uint256 fid,address address,bytes32 blockHash,uint8 network,uint8 protocol)", "VerificationClaim(uint64 fid,address address,bytes32 blockHash,uint8 network)", "VerificationClaim(uint256 fid,string address,bytes32 blockHash,uint8 network)", "Claim(uint256 fid,address address,bytes32 blockHash,uint8 network)"] {
            ds.push(digest(right_dom, claim(x, &cw)));
        }
        for i in 0..4 {
            let mut w2 = cw; w2[i] = [0; 32]; ds.push(digest(right_dom, claim(cs, &w2)));
            let mut w2 = cw; w2[i][31] ^= 1; ds.push(digest(right_dom, claim(cs, &w2)));
            let mut w2 = cw; w2[i][12] ^= 0x40; ds.push(digest(right_dom, claim(cs, &w2)));
            let mut w2 = cw; w2[i][0] ^= 1; ds.push(digest(right_dom, claim(cs, &w2)));
            let mut w2 = cw; w2.swap(i, (i + 1) % 4); ds.push(digest(right_dom, claim(cs, &w2)));
            ds.push(digest(right_dom, claim(cs, &cw[..i])));
        }
        ds.push(alloy_primitives::B256::from(right));
        ds.push(alloy_primitives::B256::from(right_dom));
        ds.push(digest(right, right_dom));
        let d0 = ds[0];
        ds.push(alloy_primitives::keccak256(d0));
        ds.push(alloy_primitives::eip191_hash_message(d0));
        ds.push(alloy_primitives::eip191_hash_message(hex::encode(d0)));
        for (i, d) in ds.into_iter().enumerate() {
            if i % 50 == 0 { t.rec(json!({"op":"reset"})); }
            let sig = eip712::sign(&w, d);
            near(&mut t, fid, net, a.clone(), sig.clone(), bh.clone(), 0, 0);
            near(&mut t, fid, net, a.clone(), sig, bh.clone(), 0, [1, 5, 10, 420][i % 4]);
        }
    }
}

fn g_net(i: usize) -> i32 { [1, 2, 3][i % 3] }

fn near(t: &mut Trace, fid: u64, net: i32, address: Vec<u8>, sig: Vec<u8>, bh: Vec<u8>, protocol: i32, chain: u32) {
    let d = MessageData { r#type: 7, fid, timestamp: NOW as u32, network: net, body: Some(Body::VerificationAddAddressBody(VerificationAddAddressBody {
        address, claim_signature: sig, block_hash: bh, verification_type: 0, chain_id: chain, protocol })) };
    judge(t, &seal(&d, &key_n(1), false), net, false, EngineVersion::V21, NOW);
}

// --- contract wallets ---------------------------------------------------------------------

mod wallet_chain {
    use alloy_json_rpc::{ErrorPayload, RequestPacket, Response, ResponsePacket, ResponsePayload};
    use alloy_provider::RootProvider;
    use alloy_rpc_client::RpcClient;
    use alloy_transport::TransportError;
    use serde_json::value::RawValue;
    use std::borrow::Cow;
    use std::future::Future;
    use std::pin::Pin;
    use std::sync::{Arc, Mutex};
    use std::task::{Context, Poll};
    use tower::Service;

    /// A chain that answers every call with fixed replies and remembers what it was asked.
    #[derive(Clone)]
    pub struct Chain {
        pub code: Result<String, String>,
        pub reply: Result<String, String>,
        pub asked: Arc<Mutex<Vec<(String, serde_json::Value)>>>,
    }
    impl Service<RequestPacket> for Chain {
        type Response = ResponsePacket;
        type Error = TransportError;
        type Future = Pin<Box<dyn Future<Output = Result<ResponsePacket, TransportError>> + Send>>;
        fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
            Poll::Ready(Ok(()))
        }
        fn call(&mut self, req: RequestPacket) -> Self::Future {
            let this = self.clone();
            Box::pin(async move {
                let RequestPacket::Single(req) = req else { panic!("batch") };
                let params = req.params().map(|p| serde_json::from_str(p.get()).unwrap()).unwrap_or_default();
                this.asked.lock().unwrap().push((req.method().to_string(), params));
                let a = match req.method() {
                    "eth_getCode" => &this.code,
                    "eth_call" => &this.reply,
                    _ => &Err("unexpected method".to_string()),
                };
                let payload = match a {
                    Ok(h) => ResponsePayload::Success(RawValue::from_string(serde_json::to_string(h).unwrap()).unwrap()),
                    Err(m) => ResponsePayload::Failure(ErrorPayload { code: 3, message: Cow::Owned(m.clone()), data: None }),
                };
                Ok(ResponsePacket::Single(Response { id: req.id().clone(), payload }))
            })
        }
    }
    pub fn provider(c: Chain) -> RootProvider {
        RootProvider::new(RpcClient::new(c, true))
    }
}

fn contract(ctx: &Ctx) {
    use sha2::Digest;
    use wallet_chain::*;
    let mut r = ctx.rng(5);
    let mut t = ctx.trace("contract");
    let replies: Vec<Result<Vec<u8>, &str>> = vec![
        Ok(vec![0x16, 0x26, 0xba, 0x7e]), Ok([vec![0x16, 0x26, 0xba, 0x7e], vec![0; 28]].concat()), Ok(vec![0x16, 0x26, 0xba]),
        Ok([vec![0x16, 0x26, 0xba, 0x7f], vec![0; 28]].concat()), Ok([vec![0; 28], vec![0x16, 0x26, 0xba, 0x7e]].concat()), Ok(vec![]),
        Ok(vec![1]), Ok([vec![1], vec![0; 31]].concat()), Ok([vec![0; 31], vec![1]].concat()), Ok(vec![0; 32]), Ok(vec![2]), Ok(vec![0xff]),
        Err("execution reverted"), Err("execution reverted: no"), Err("rate limited"), Err("not execution reverted"),
    ];
    let n = ctx.scale(400, 4000);
    block_on(async {
        for i in 0..n {
            if i % 50 == 0 { t.rec(json!({"op":"reset"})); }
            let code = match r.gen_range(0..8) { 0 => Err("rpc down".to_string()), 1..=3 => Ok("0x".to_string()), _ => Ok("0x60".to_string()) };
            let reply = replies[r.gen_range(0..replies.len())].clone();
            let mut g = G { r: &mut r, odd: 0.0 };
            let net = g.pick(&[1, 2, 3]);
            let fid = g.fid();
            let n = g.pick(&[0, 65, 130, 2048]);
            let b = VerificationAddAddressBody { address: g.bytes(20), claim_signature: g.bytes(n), block_hash: g.bytes(32), verification_type: 1, chain_id: g.pick(&[0, 1, 5, 10, 420]), protocol: 0 };
            let asked = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
            let chain = Chain { code: code.clone(), reply: reply.clone().map(|b| format!("0x{}", hex::encode(b))).map_err(|e| e.to_string()), asked: asked.clone() };
            let claim = verification::make_verification_address_claim(fid, &b.address, nets(net), &b.block_hash, Protocol::Ethereum).unwrap();
            let res = verification::validate_verification_contract_signature(provider(chain), claim, &b).await;
            // what the chain was asked
            let hash = eip712::claim_digest(fid, &b.address, &b.block_hash, net as u64, Some(b.chain_id as u64));
            let asked = asked.lock().unwrap().clone();
            let addr = format!("0x{}", hex::encode(&b.address));
            let code_q = asked.iter().filter(|q| q.0 == "eth_getCode").all(|q| q.1[0].as_str().map(|s| s.to_lowercase()) == Some(addr.clone()));
            let args = { // (bytes32 or address, ...) abi
                let mut v = vec![]; v.extend_from_slice(hash.as_slice()); v.extend_from_slice(&eip712::word_u(64)); v.extend_from_slice(&abi_bytes(&b.claim_signature)); v };
            let dargs = { let mut v = vec![]; v.extend_from_slice(&eip712::word_addr(&b.address)); v.extend_from_slice(hash.as_slice()); v.extend_from_slice(&eip712::word_u(96)); v.extend_from_slice(&abi_bytes(&b.claim_signature)); v };
            let mut how = "none";
            let mut exact = true;
            for q in asked.iter().filter(|q| q.0 == "eth_call") {
                let tx = &q.1[0];
                let input = tx["input"].as_str().or(tx["data"].as_str()).unwrap_or("0x");
                let input = hex::decode(&input[2..]).unwrap();
                match tx["to"].as_str() {
                    Some(to) => { how = "call"; exact = to.to_lowercase() == addr && input[..4] == [0x16, 0x26, 0xba, 0x7e] && input[4..] == args[..]; }
                    None => { how = "deploy"; let cut = input.len().saturating_sub(dargs.len());
                        exact = input[cut..] == dargs[..] && hex::encode(sha2::Sha256::digest(&input[..cut])) == "7929acc3c7f14ff8fcfe6b7752a6b0327811da4697ce7b3bb438bf7b237ab410"; }
                }
            }
            t.rec(json!({"op":"contract","code":match &code { Err(_) => "err", Ok(s) if s == "0x" => "none", _ => "some" },
                "reply":match &reply { Ok(v) => json!({"k":"ok","b":v}), Err(e) => json!({"k":"err","b":[],"m":e}) },
                "where":code_q,"how":how,"exact":exact,"res":match res { Ok(_) => "ok".into(), Err(e) => name_of(&e) }}));
        }
    });
}
fn abi_bytes(b: &[u8]) -> Vec<u8> {
    let mut v = eip712::word_u(b.len() as u64).to_vec();
    v.extend_from_slice(b);
    v.resize(v.len() + (32 - b.len() % 32) % 32, 0);
    v
}

fn fname(ctx: &Ctx) {
    let mut r = ctx.rng(6);
    let mut t = ctx.trace("fname");
    let n = ctx.scale(400, 4000);
    for i in 0..n {
        if i % 50 == 0 { t.rec(json!({"op":"reset"})); }
        let mut g = G { r: &mut r, odd: 0.08 };
        let w = eip712::wallet(g.pick(&[1, 2]));
        let trusted = eip712::wallet(1).address();
        let name: Vec<u8> = g.name().into_bytes();
        let ts = g.r.gen_range(1..2_000_000_000u64);
        let owner = g.bytes(20);
        let (mut sn, mut st, mut so) = (name.clone(), ts, owner.clone());
        if g.odd() { sn.push(b'x'); }
        if g.odd() { st += 1; }
        if g.odd() { so[5] ^= 4; }
        let mut sig = eip712::sign(&w, if g.r.gen_bool(0.15) { let k = g.r.gen_range(0..10); eip712::fname_near(k, &sn, st, &so) } else { eip712::fname_digest(&sn, st, &so) });
        if g.odd() { let k = g.r.gen_range(0..65); sig[k] ^= 1; }
        if g.odd() { sig.pop(); }
        if g.odd() { sig.push(1); }
        if sig.len() == 65 && g.r.gen_bool(0.1) { sig[64] = if sig[64] == 27 { 0 } else { 1 }; }
        let mut name2 = name.clone();
        if g.odd() { name2 = vec![0xff, 0xfe]; }
        let net = g.pick(&[1, 2, 3]);
        let default_signer = g.r.gen_bool(0.1);
        let tr = FnameTransfer { id: 1, from_fid: 0, proof: Some(UserNameProof { timestamp: ts, name: name2.clone(), owner: owner.clone(), signature: sig.clone(), fid: 5, r#type: 1 }) };
        let who = eip712::signer_of(&sig, eip712::fname_digest(&name2, ts, &owner));
        let utf8 = std::str::from_utf8(&name2).is_ok();
        let exact = utf8 && !default_signer && who == Some(trusted);
        let res = guarded(|| verification::validate_fname_transfer(&tr, nets(net), if default_signer { None } else { Some(trusted) }));
        t.rec(json!({"op":"fname","net":net,"utf8":utf8,"exact":exact,"res":verdict(res)}));
    }
}

// --- offchain key requests ------------------------------------------------------------------

fn key_proofs(ctx: &Ctx) {
    let mut r = ctx.rng(9);
    let mut t = ctx.trace("keyproof");
    let n = ctx.scale(900, 9000);
    for i in 0..n {
        if i % 50 == 0 { t.rec(json!({"op":"reset"})); }
        let mut g = G { r: &mut r, odd: 0.06 };
        let w = eip712::wallet(g.pick(&[1, 2, 3]));
        let kn = g.pick(&[32, 32, 31]);
        let k = g.bytes(kn);
        let (fid, kt, ttl, nonce, dl, chain) = (g.fid(), g.pick(&[1u32, 0, 2]), g.r.gen_range(0..9_000_000u32), g.pick(&[0u32, 1, 7, u32::MAX]), g.pick(&[0u32, 5, NOW as u32, u32::MAX]), 1u32);
        let ns = g.pick(&[0, 1, 3, 13]);
        let scopes: Vec<i32> = (0..ns).map(|_| g.r.gen_range(0..22)).collect();
        let mut f = (fid, k.clone(), kt, scopes.clone(), ttl, nonce, dl, chain);
        // sign something slightly different
        let mut same = true;
        if g.r.gen_bool(0.4) {
            same = false;
            match g.r.gen_range(0..8) {
                0 => f.0 = f.0.wrapping_add(1), 1 => f.1[3] ^= 1, 2 => f.2 ^= 1, 3 => { if f.3.is_empty() { f.3.push(1) } else { f.3.pop(); } }
                4 => f.4 ^= 1, 5 => f.5 ^= 1, 6 => f.6 ^= 1, _ => f.7 = 10,
            }
        }
        let cut = |g: &mut G, sig: &mut Vec<u8>| -> bool {
            if g.odd() { sig.pop(); return true; }
            if g.odd() { sig.push(0); return true; }
            if g.odd() { let i = g.r.gen_range(0..64); sig[i] ^= 2; return true; }
            if g.odd() { sig[64] = 55 - sig[64]; return true; }
            false
        };
        match i % 3 {
            0 => {
                let mut sig = eip712::sign(&w, eip712::key_add_digest(f.0, &f.1, f.2 as u64, &f.3, f.4 as u64, f.5 as u64, f.6 as u64, f.7 as u64));
                let broken = cut(&mut g, &mut sig);
                let p = key::KeyAddPayload { fid, key: &k, key_type: kt, scopes: &scopes, ttl, nonce, deadline: dl };
                let got = guarded(|| key::recover_key_add_custody_address(&p, &sig, chain));
                let is = matches!(&got, Ok(Ok(a)) if *a == w.address());
                t.rec(json!({"op":"recover","what":"add","same":same && !broken,"is":is,"res":verdict(got)}));
            }
            1 => {
                if !same && (f.2 != kt || f.3 != scopes || f.4 != ttl) { same = true; }
                let mut sig = eip712::sign(&w, eip712::key_remove_digest(f.0, &f.1, f.5 as u64, f.6 as u64, f.7 as u64));
                let broken = cut(&mut g, &mut sig);
                let p = key::KeyRemovePayload { fid, key: &k, nonce, deadline: dl };
                let got = guarded(|| key::recover_key_remove_custody_address(&p, &sig, chain));
                let is = matches!(&got, Ok(Ok(a)) if *a == w.address());
                t.rec(json!({"op":"recover","what":"remove","same":same && !broken,"is":is,"res":verdict(got)}));
            }
            _ => {
                if !same && (f.2 != kt || f.3 != scopes || f.4 != ttl || f.5 != nonce) { same = true; }
                let dead = g.pick(&[NOW, NOW + 1, NOW - 1, 0, NOW + 1_000_000]);
                let sdead = if f.6 != dl { dead + 1 } else { dead };
                let mut sig = eip712::sign(&w, eip712::key_request_digest(f.0, &f.1, sdead, f.7 as u64));
                let broken = cut(&mut g, &mut sig);
                let big = g.odd();
                let bigd = g.odd();
                let mut rf = eip712::word_u(fid);
                let mut dw = eip712::word_u(dead);
                if big { rf[0] = 1; }
                if bigd { dw[3] = 1; }
                let stated = if g.odd() { eip712::wallet(7).address() } else { w.address() };
                let mut meta = eip712::key_request_metadata(rf, stated.as_slice(), &sig, dw);
                let garble = g.odd();
                if garble { let n = g.pick(&[0, 31, 64, 128]); meta.truncate(n); }
                let mt = g.int(&[1], &[0, 2]) as u32;
                let got = guarded(|| key::verify_signed_key_request_metadata(mt, &meta, &k, NOW, 1));
                let is = matches!(&got, Ok(Ok(v)) if v.request_fid == fid && v.request_signer == w.address() && v.deadline == dead);
                t.rec(json!({"op":"request","mt":mt,"decodes":!garble,"fits":!big && !bigd,"late":dead < NOW && !bigd,
                    "same":same && !broken && stated == w.address(),"is":is,"res":verdict(got)}));
            }
        }
    }
}

// --- cases enumerated by the specification ----------------------------------------------------

fn generated(ctx: &Ctx) {
    let mut t = ctx.trace("enumerated");
    let mut r = ctx.rng(11);
    for (i, b) in ctx.behaviours().iter().enumerate() {
        if i % 50 == 0 {
            t.rec(json!({"op":"reset"}));
        }
        let mut g = G { r: &mut r, odd: 0.0 };
        let n = |k: &str| b[k].as_i64().unwrap();
        let mut d = MessageData { fid: 5, network: 1, timestamp: NOW as u32, ..Default::default() };
        let (mut pro, mut v) = (false, EngineVersion::V21);
        match b["g"].as_str().unwrap() {
            "cast" => {
                if b["old"] == json!(true) {
                    d.timestamp = 73_612_799;
                } else if i % 3 == 0 {
                    d.timestamp = 73_612_800;
                }
                pro = b["pro"] == json!(true);
                v = versions()[n("v") as usize];
                d.r#type = 1;
                d.body = Some(Body::CastAddBody(CastAddBody {
                    text: g.text(n("tl") as usize),
                    embeds: (0..n("emb")).map(|k| Embed { embed: Some(if k % 2 == 0 { embed::Embed::Url("u".into()) } else { embed::Embed::CastId(CastId { fid: 3, hash: vec![1; 20] }) }) }).collect(),
                    embeds_deprecated: (0..n("dep")).map(|_| "u".to_string()).collect(),
                    r#type: n("ct") as i32,
                    ..Default::default()
                }));
            }
            "ment" => {
                let tl = n("tl") as u32;
                let k = n("n") as usize;
                let mut pos: Vec<u32> = (0..k as u32).map(|j| (j / 2).min(tl)).collect();
                match b["shape"].as_str().unwrap() {
                    "end" => { if k > 0 { pos[k - 1] = tl } }
                    "past" => { if k > 0 { pos[k - 1] = tl + 1 } }
                    "swap" => pos.reverse(),
                    "short" => { pos.pop(); }
                    "more" => pos.push(tl),
                    "zero" => {}
                    _ => {}
                }
                let zero = b["shape"] == json!("zero");
                d.r#type = 1;
                d.body = Some(Body::CastAddBody(CastAddBody {
                    text: "a".repeat(tl as usize),
                    mentions: (0..k).map(|j| if zero && j + 1 == k { 0 } else { 1 + j as u64 }).collect(),
                    mentions_positions: pos,
                    ..Default::default()
                }));
            }
            k => {
                let bytes: Vec<u8> = b["val"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
                if k == "text" {
                    d.r#type = 11;
                    d.body = Some(Body::UserDataBody(UserDataBody { r#type: n("ty") as i32, value: String::from_utf8(bytes).unwrap() }));
                } else {
                    d.r#type = 12;
                    d.body = Some(Body::UsernameProofBody(UserNameProof { timestamp: 1, name: bytes, owner: vec![1; 20], signature: vec![1; 65], fid: 5, r#type: n("ty") as i32 }));
                }
            }
        }
        judge(&mut t, &seal(&d, &key_n(2), false), 1, pro, v, NOW);
    }
}
