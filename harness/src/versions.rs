//! The protocol version schedule and feature table, asked at every boundary and at random times.
use crate::common::*;
use crate::validate::versions;
use rand::Rng as _;
use serde_json::json;
use snapchain::core::util::{from_farcaster_time, to_farcaster_time, FarcasterTime};
use snapchain::proto::FarcasterNetwork;
use snapchain::version::version::{EngineVersion, ProtocolFeature};

const EPOCH: u64 = 1_609_459_200;

macro_rules! features {
    ($($f:ident),*) => { fn on(v: EngineVersion) -> Vec<&'static str> {
        let mut o = vec![];
        $( if v.is_enabled(ProtocolFeature::$f) { o.push(stringify!($f)); } )*
        o
    } }
}
features!(SignerRevokeBug, FarcasterPro, Basenames, EnsValidation, MessageLengthCheckFix, PrimaryAddresses,
    UsernameShardRoutingFix, FutureTimestampValidation, DependentMessagesInBulkSubmit,
    DecoupleShardZeroBlockProduction, WriteDataToShardZero, ReadDataFromShardZero, UserProfileToken,
    StorageLending, EventIdBugFix, StorageLendingLimitFix, StopRevokingExistingMessages,
    IncreaseUsernameProofSizeLimit, GaslessSigners, LiveAt, StorageExpiryExtension2026, BlockLinks,
    ChannelRegistrations, SortedBlockEngineEvents, ChannelOwnershipEvents, ChannelMessages,
    VerificationsOnShardZero, ChannelFollows, IncreaseEmbedLimitForAllUsers);

pub fn run(ctx: &Ctx) {
    let mut r = ctx.rng(1);
    let mut t = ctx.trace("schedule");
    let nets = [
        ("mainnet", FarcasterNetwork::Mainnet),
        ("testnet", FarcasterNetwork::Testnet),
        ("devnet", FarcasterNetwork::Devnet),
        ("none", FarcasterNetwork::None),
    ];
    for (name, net) in nets {
        t.rec(json!({"op":"reset"}));
        // the code's own boundaries, found by walking, and the hour marks around them
        let mut times = vec![EPOCH, EPOCH + 1];
        let mut at = EPOCH;
        while let Some(n) = EngineVersion::next_version_timestamp_for(&FarcasterTime::from_unix_seconds(at), net) {
            if n <= at || times.len() > 1000 { times.push(at); break; }
            times.extend([n - 1, n, n + 1, n + 3600, n - 3600]);
            at = n;
        }
        for b in ctx.behaviours() {
            times.push(b["t"].as_u64().unwrap());
        }
        for _ in 0..ctx.scale(3000, 100_000) {
            times.push(r.gen_range(EPOCH..2_147_000_000));
            let near = r.gen_range(1_740_000_000..1_800_000_000u64);
            times.push(near - near % 300);
        }
        for u in times {
            if u < EPOCH { continue; }
            let ft = FarcasterTime::from_unix_seconds(u);
            let v = guarded(|| EngineVersion::version_for(&ft, net)).map(|v| v as i64).unwrap_or(-1);
            let next = EngineVersion::next_version_timestamp_for(&ft, net).map(|x| x as i64).unwrap_or(-1);
            t.rec(json!({"op":"at","net":name,"t":u,"v":v,"next":next,
                "chan":EngineVersion::channel_messages_enabled_for_snapshot(ft.to_u64(), net)}));
        }
    }
    t.rec(json!({"op":"reset"}));
    for v in versions() {
        t.rec(json!({"op":"features","v":v as u32,"protocol":v.protocol_version(),"on":on(v)}));
    }
    t.rec(json!({"op":"latest","v":EngineVersion::latest() as u32,"devnet":EngineVersion::current(FarcasterNetwork::Devnet) as u32,
        "protocol":EngineVersion::latest().protocol_version()}));
    t.rec(json!({"op":"reset"}));
    for i in 0..ctx.scale(2000, 20_000) {
        let off: i64 = match i % 4 { 0 => r.gen_range(-3000..3000), 1 => r.gen_range(0..2_000_000_000_000), 2 => r.gen_range(0..100) * 1000, _ => -r.gen_range(0..1_600_000_000_000) };
        let got = to_farcaster_time((EPOCH as i64 * 1000 + off) as u64);
        t.rec(json!({"op":"to_time","s":off.div_euclid(1000),"ms":off.rem_euclid(1000),"ok":got.is_ok(),"got":got.unwrap_or(0)}));
        let x = r.gen_range(0..2_000_000_000u64);
        let ms = from_farcaster_time(x);
        t.rec(json!({"op":"from_time","t":x,"s":(ms - EPOCH * 1000) / 1000,"ms":ms % 1000}));
        let c = r.gen_range(0..500_000_000u64);
        let d = r.gen_range(0..=c.min(10_000));
        let f = FarcasterTime::new(c);
        t.rec(json!({"op":"clock","t":c,"d":d,"unix":f.to_unix_seconds(),"back":FarcasterTime::from_unix_seconds(f.to_unix_seconds()).to_u64(),
            "incr":f.incr_by(d).to_u64(),"decr":f.decr_by(d).to_u64()}));
    }
    for over in [0u64, 1, 1000, 1 << 40] {
        let ms = EPOCH * 1000 + ((1u64 << 32) + over) * 1000;
        t.rec(json!({"op":"beyond","ok":to_farcaster_time(ms).is_ok()}));
    }
}
