mod channels;
mod common;
mod config;
mod consensus;
mod eip712;
mod fanout;
mod fc;
mod http;
mod keys;
mod merge;
mod auth;
mod serve;
mod mempool;
mod mesh;
mod ingest;
mod onchain;
mod restore;
mod shard;
mod snapshot;
mod storage;
mod trie;
mod validate;
mod versions;

use common::Ctx;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| {
        args.iter()
            .position(|a| a == k)
            .and_then(|i| args.get(i + 1).cloned())
    };
    let ctx = Ctx {
        seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: get("--tier").as_deref() == Some("thorough"),
        out: get("--out").unwrap_or_else(|| "/tmp/snapspec".into()),
        input: get("--in"),
        focus: get("--focus").unwrap_or_default(),
    };
    if std::env::var("SNAPSPEC_LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    match args[1].as_str() {
        "channels" => channels::run(&ctx),
        "consensus" => consensus::run(&ctx),
        "config" => config::run(&ctx),
        "fanout" => fanout::run(&ctx),
        "fc" => fc::run(&ctx),
        "http" => http::run(&ctx),
        "keys" => keys::run(&ctx),
        "mempool" => mempool::run(&ctx),
        "mesh" => mesh::run(&ctx),
        "merge" => merge::run(&ctx),
        "auth" => auth::run(&ctx),
        "serve" => serve::run(&ctx),
        "restore" => restore::run(&ctx),
        "shard" => shard::run(&ctx),
        "snapshot" => snapshot::run(&ctx),
        "storage" => storage::run(&ctx),
        "onchain" => onchain::run(&ctx),
        "ingest" => ingest::run(&ctx),
        "trie-token" => trie::one_token(),
        "trie" => trie::run(&ctx),
        "validate" => validate::run(&ctx),
        "versions" => versions::run(&ctx),
        c => panic!("unknown command {c}"),
    }
}
