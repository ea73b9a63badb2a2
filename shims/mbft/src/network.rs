use crate::sync::RawMessage;
use bytes::Bytes;
use libp2p::Multiaddr;
use std::fmt;

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct PeerId(libp2p::PeerId);
impl PeerId {
    pub fn to_bytes(&self) -> Vec<u8> {
        self.0.to_bytes()
    }
    pub fn from_bytes(b: &[u8]) -> Result<Self, String> {
        libp2p::PeerId::from_bytes(b)
            .map(PeerId)
            .map_err(|e| format!("{e}"))
    }
    pub fn random() -> Self {
        PeerId(libp2p::PeerId::random())
    }
}
impl fmt::Display for PeerId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
pub trait PeerIdExt {
    fn to_libp2p(&self) -> libp2p::PeerId;
    fn from_libp2p(p: &libp2p::PeerId) -> Self;
}
impl PeerIdExt for PeerId {
    fn to_libp2p(&self) -> libp2p::PeerId {
        self.0
    }
    fn from_libp2p(p: &libp2p::PeerId) -> Self {
        PeerId(*p)
    }
}

pub use libp2p::gossipsub::MessageId;

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Channel {
    Consensus,
    ProposalParts,
    Sync,
}

#[derive(Clone, Debug)]
pub enum Event {
    Listening(Multiaddr),
    PeerConnected(PeerId),
    PeerDisconnected(PeerId),
    Message(Channel, PeerId, Bytes),
    Sync(RawMessage),
}
