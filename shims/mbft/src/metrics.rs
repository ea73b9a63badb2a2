use prometheus_client::registry::Registry;
use std::sync::{Arc, OnceLock, RwLock};

#[derive(Clone)]
pub struct SharedRegistry {
    inner: Arc<RwLock<Registry>>,
}
impl SharedRegistry {
    pub fn global() -> &'static SharedRegistry {
        static R: OnceLock<SharedRegistry> = OnceLock::new();
        R.get_or_init(|| SharedRegistry {
            inner: Arc::new(RwLock::new(Registry::default())),
        })
    }
    pub fn new(registry: Registry, _moniker: Option<String>) -> Self {
        SharedRegistry {
            inner: Arc::new(RwLock::new(registry)),
        }
    }
    pub fn with_moniker(&self, _m: impl Into<String>) -> Self {
        self.clone()
    }
    pub fn read<A>(&self, f: impl FnOnce(&Registry) -> A) -> A {
        f(&self.inner.read().unwrap())
    }
    pub fn write<A>(&self, f: impl FnOnce(&mut Registry) -> A) -> A {
        f(&mut self.inner.write().unwrap())
    }
    pub fn with_prefix<A>(&self, prefix: impl AsRef<str>, f: impl FnOnce(&mut Registry) -> A) -> A {
        f(self.inner.write().unwrap().sub_registry_with_prefix(prefix))
    }
}
pub fn export<W: std::fmt::Write>(w: &mut W) {
    SharedRegistry::global().read(|r| {
        let _ = prometheus_client::encoding::text::encode(w, r);
    })
}
#[derive(Clone, Debug, Default)]
pub struct Metrics;
impl Metrics {
    pub fn new() -> Self {
        Metrics
    }
    pub fn register(_: &SharedRegistry) -> Self {
        Metrics
    }
}
