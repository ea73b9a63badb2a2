use std::time::Duration;
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct TimeoutConfig {
    pub timeout_propose: Duration,
    pub timeout_propose_delta: Duration,
    pub timeout_prevote: Duration,
    pub timeout_prevote_delta: Duration,
    pub timeout_precommit: Duration,
    pub timeout_precommit_delta: Duration,
    pub timeout_commit: Duration,
    pub timeout_step: Duration,
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct ValueSyncConfig {
    pub enabled: bool,
    pub status_update_interval: Duration,
    pub request_timeout: Duration,
}
impl Default for ValueSyncConfig {
    fn default() -> Self {
        Self {
            enabled: true,
            status_update_interval: Duration::from_secs(10),
            request_timeout: Duration::from_secs(10),
        }
    }
}
