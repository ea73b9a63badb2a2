use rand::SeedableRng;
use rand_chacha::ChaCha8Rng;
use serde_json::Value;
use std::io::{BufWriter, Write};

pub type Rng = ChaCha8Rng;

/// What a run was asked to do.
pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub out: String,
    pub input: Option<String>,
    pub focus: String,
}

impl Ctx {
    pub fn rng(&self, stream: u64) -> Rng {
        ChaCha8Rng::seed_from_u64(self.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ stream)
    }
    pub fn scale(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn trace(&self, name: &str) -> Trace {
        std::fs::create_dir_all(&self.out).unwrap();
        let p = format!("{}/{}.ndjson", self.out, name);
        Trace {
            w: BufWriter::new(std::fs::File::create(p).unwrap()),
            n: 0,
        }
    }
    /// Histories generated by the specification, one JSON value per line.
    pub fn behaviours(&self) -> Vec<Value> {
        match &self.input {
            None => vec![],
            Some(p) => std::fs::read_to_string(p)
                .unwrap()
                .lines()
                .filter(|l| !l.trim().is_empty())
                .map(|l| serde_json::from_str(l).unwrap())
                .collect(),
        }
    }
}

pub struct Trace {
    w: BufWriter<std::fs::File>,
    pub n: usize,
}

impl Trace {
    /// Where nothing is kept.
    pub fn none() -> Trace {
        Trace { w: BufWriter::new(std::fs::File::create("/dev/null").unwrap()), n: 0 }
    }
    pub fn rec(&mut self, v: Value) {
        serde_json::to_writer(&mut self.w, &v).unwrap();
        self.w.write_all(b"\n").unwrap();
        self.n += 1;
    }
}

/// A temporary directory under the process's scratch root.
pub fn tmp() -> tempfile::TempDir {
    tempfile::tempdir().unwrap()
}

pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_multi_thread()
        .worker_threads(2)
        .enable_all()
        .build()
        .unwrap()
        .block_on(f)
}

/// Runs `f`, turning a panic into an error text.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".into()
        }
    })
}

pub fn short(code: &str) -> String {
    code.rsplit('.').next().unwrap_or(code).to_string()
}
