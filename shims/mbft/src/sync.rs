use crate::core_types::*;
use crate::metrics::SharedRegistry;
pub use crate::network::PeerId;
use bytes::Bytes;
use libp2p::request_response;
use rand::seq::IteratorRandom;
use std::collections::BTreeMap;
use std::fmt;
use std::sync::Arc;

macro_rules! request_id {
    ($n:ident) => {
        #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
        pub struct $n(Arc<str>);
        impl $n {
            pub fn new(s: impl ToString) -> Self {
                $n(Arc::from(s.to_string()))
            }
        }
        impl fmt::Display for $n {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.0.fmt(f)
            }
        }
    };
}
request_id!(InboundRequestId);
request_id!(OutboundRequestId);

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Status<Ctx: Context> {
    pub peer_id: PeerId,
    pub height: Ctx::Height,
    pub history_min_height: Ctx::Height,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ValueRequest<Ctx: Context> {
    pub height: Ctx::Height,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct VoteSetRequest<Ctx: Context> {
    pub height: Ctx::Height,
    pub round: Round,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Request<Ctx: Context> {
    ValueRequest(ValueRequest<Ctx>),
    VoteSetRequest(VoteSetRequest<Ctx>),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RawDecidedValue<Ctx: Context> {
    pub certificate: CommitCertificate<Ctx>,
    pub value_bytes: Bytes,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ValueResponse<Ctx: Context> {
    pub height: Ctx::Height,
    pub value: Option<RawDecidedValue<Ctx>>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct VoteSetResponse<Ctx: Context> {
    pub height: Ctx::Height,
    pub round: Round,
    pub vote_set: VoteSet<Ctx>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Response<Ctx: Context> {
    ValueResponse(ValueResponse<Ctx>),
    VoteSetResponse(VoteSetResponse<Ctx>),
}
#[derive(Clone, Debug)]
pub enum RawMessage {
    Request {
        request_id: request_response::InboundRequestId,
        peer: PeerId,
        body: Bytes,
    },
    Response {
        request_id: request_response::OutboundRequestId,
        peer: PeerId,
        body: Bytes,
    },
}

#[derive(Clone, Debug, Default)]
pub struct Metrics;
impl Metrics {
    pub fn register(_: &SharedRegistry) -> Self {
        Metrics
    }
}

// -------------------------------------------------- the sync state machine

pub struct State<Ctx: Context> {
    rng: Box<dyn rand::RngCore + Send>,
    pub tip_height: Ctx::Height,
    pub sync_height: Ctx::Height,
    pub pending: BTreeMap<Ctx::Height, PeerId>,
    pub peers: BTreeMap<PeerId, Status<Ctx>>,
}
impl<Ctx: Context> State<Ctx> {
    pub fn new(rng: Box<dyn rand::RngCore + Send>) -> Self {
        State {
            rng,
            tip_height: Ctx::Height::ZERO,
            sync_height: Ctx::Height::ZERO,
            pending: BTreeMap::new(),
            peers: BTreeMap::new(),
        }
    }
    pub fn random_peer_with_value(&mut self, height: Ctx::Height) -> Option<PeerId> {
        self.random_peer_with_value_except(height, None)
    }
    pub fn random_peer_with_value_except(
        &mut self,
        height: Ctx::Height,
        except: Option<PeerId>,
    ) -> Option<PeerId> {
        self.peers
            .iter()
            .filter(|(p, s)| {
                s.history_min_height <= height && s.height >= height && Some(**p) != except
            })
            .map(|(p, _)| *p)
            .choose(&mut self.rng)
    }
}

pub enum Input<Ctx: Context> {
    Tick,
    Status(Status<Ctx>),
    StartHeight(Ctx::Height),
    UpdateHeight(Ctx::Height),
    ValueRequest(InboundRequestId, PeerId, ValueRequest<Ctx>),
    ValueResponse(OutboundRequestId, PeerId, ValueResponse<Ctx>),
    GotDecidedValue(InboundRequestId, Ctx::Height, Option<RawDecidedValue<Ctx>>),
    SyncRequestTimedOut(PeerId, Request<Ctx>),
}
pub enum Effect<Ctx: Context> {
    BroadcastStatus(Ctx::Height),
    SendValueRequest(PeerId, ValueRequest<Ctx>),
    SendValueResponse(InboundRequestId, ValueResponse<Ctx>),
    GetDecidedValue(InboundRequestId, Ctx::Height),
    SendVoteSetRequest(PeerId, VoteSetRequest<Ctx>),
}
pub struct Resume<Ctx>(std::marker::PhantomData<Ctx>);
impl<Ctx> Default for Resume<Ctx> {
    fn default() -> Self {
        Resume(std::marker::PhantomData)
    }
}

fn request_value<Ctx: Context>(s: &mut State<Ctx>, out: &mut Vec<Effect<Ctx>>) {
    let h = s.sync_height;
    if s.pending.contains_key(&h) {
        return;
    }
    if let Some(p) = s.random_peer_with_value(h) {
        s.pending.insert(h, p);
        out.push(Effect::SendValueRequest(p, ValueRequest { height: h }));
    }
}

/// Pure transition; the `process!` macro performs the returned effects.
pub fn step<Ctx: Context>(s: &mut State<Ctx>, input: Input<Ctx>) -> Vec<Effect<Ctx>> {
    let mut out = vec![];
    match input {
        Input::Tick => out.push(Effect::BroadcastStatus(s.tip_height)),
        Input::Status(st) => {
            let h = st.height;
            s.peers.insert(st.peer_id, st);
            if h > s.tip_height {
                request_value(s, &mut out);
            }
        }
        Input::StartHeight(h) => {
            s.sync_height = h;
            request_value(s, &mut out);
        }
        Input::UpdateHeight(h) => {
            if s.tip_height < h {
                s.tip_height = h;
            }
            s.pending.retain(|k, _| *k > h);
        }
        Input::ValueRequest(id, _, r) => out.push(Effect::GetDecidedValue(id, r.height)),
        Input::ValueResponse(_, _, r) => {
            s.pending.remove(&r.height);
        }
        Input::GotDecidedValue(id, height, value) => {
            out.push(Effect::SendValueResponse(
                id,
                ValueResponse { height, value },
            ));
        }
        Input::SyncRequestTimedOut(peer, req) => {
            if let Request::ValueRequest(r) = req {
                s.pending.remove(&r.height);
                if let Some(p) = s.random_peer_with_value_except(r.height, Some(peer)) {
                    s.pending.insert(r.height, p);
                    out.push(Effect::SendValueRequest(p, r));
                }
            }
        }
    }
    out
}

#[macro_export]
macro_rules! process {
    (input: $input:expr, state: $state:expr, metrics: $metrics:expr, with: $effect:ident => $handle:expr) => {{
        let _ = $metrics;
        let effects = $crate::sync::step($state, $input);
        for $effect in effects {
            let _resume = $handle?;
        }
        Ok(())
    }};
}

// ---------------------------------------------------- libp2p request-response

#[derive(Clone, Debug)]
pub struct RawRequest(pub Bytes);
#[derive(Clone, Debug)]
pub struct RawResponse(pub Bytes);

#[derive(Clone, Copy, Debug)]
pub struct Config {
    pub request_timeout: std::time::Duration,
}
impl Default for Config {
    fn default() -> Self {
        Config {
            request_timeout: std::time::Duration::from_secs(10),
        }
    }
}
impl Config {
    pub fn with_request_timeout(mut self, d: std::time::Duration) -> Self {
        self.request_timeout = d;
        self
    }
}

#[derive(Clone, Debug, Default)]
pub struct RawCodec;

mod rr {
    use super::*;
    use futures::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};
    use libp2p::StreamProtocol;
    use std::io;

    const MAX: u64 = 10 * 1024 * 1024;
    #[async_trait::async_trait]
    impl request_response::Codec for RawCodec {
        type Protocol = StreamProtocol;
        type Request = RawRequest;
        type Response = RawResponse;
        async fn read_request<T>(&mut self, _: &StreamProtocol, io: &mut T) -> io::Result<RawRequest>
        where
            T: AsyncRead + Unpin + Send,
        {
            let mut v = vec![];
            io.take(MAX).read_to_end(&mut v).await?;
            Ok(RawRequest(v.into()))
        }
        async fn read_response<T>(
            &mut self,
            _: &StreamProtocol,
            io: &mut T,
        ) -> io::Result<RawResponse>
        where
            T: AsyncRead + Unpin + Send,
        {
            let mut v = vec![];
            io.take(MAX).read_to_end(&mut v).await?;
            Ok(RawResponse(v.into()))
        }
        async fn write_request<T>(
            &mut self,
            _: &StreamProtocol,
            io: &mut T,
            r: RawRequest,
        ) -> io::Result<()>
        where
            T: AsyncWrite + Unpin + Send,
        {
            io.write_all(&r.0).await?;
            io.close().await
        }
        async fn write_response<T>(
            &mut self,
            _: &StreamProtocol,
            io: &mut T,
            r: RawResponse,
        ) -> io::Result<()>
        where
            T: AsyncWrite + Unpin + Send,
        {
            io.write_all(&r.0).await?;
            io.close().await
        }
    }
}

pub type ResponseChannel = request_response::ResponseChannel<RawResponse>;
pub type Event = request_response::Event<RawRequest, RawResponse>;

/// Same surface as the engine's sync behaviour, over libp2p request-response.
pub struct Behaviour {
    inner: request_response::Behaviour<RawCodec>,
}
impl Behaviour {
    pub fn new(c: Config) -> Self {
        Behaviour {
            inner: request_response::Behaviour::with_codec(
                RawCodec,
                [(
                    libp2p::StreamProtocol::new("/malachitebft-sync/v1beta1"),
                    request_response::ProtocolSupport::Full,
                )],
                request_response::Config::default().with_request_timeout(c.request_timeout),
            ),
        }
    }
    pub fn send_request(
        &mut self,
        peer: libp2p::PeerId,
        b: Bytes,
    ) -> request_response::OutboundRequestId {
        self.inner.send_request(&peer, RawRequest(b))
    }
    pub fn send_response(&mut self, ch: ResponseChannel, b: Bytes) -> Result<(), String> {
        self.inner
            .send_response(ch, RawResponse(b))
            .map_err(|_| "response channel closed".to_string())
    }
}

use libp2p::core::{transport::PortUse, Endpoint};
use libp2p::swarm::{
    ConnectionDenied, ConnectionId, FromSwarm, NetworkBehaviour, THandler, THandlerInEvent,
    THandlerOutEvent, ToSwarm,
};
use libp2p::Multiaddr;
type Inner = request_response::Behaviour<RawCodec>;
impl NetworkBehaviour for Behaviour {
    type ConnectionHandler = <Inner as NetworkBehaviour>::ConnectionHandler;
    type ToSwarm = Event;
    fn handle_pending_inbound_connection(
        &mut self,
        c: ConnectionId,
        l: &Multiaddr,
        r: &Multiaddr,
    ) -> Result<(), ConnectionDenied> {
        self.inner.handle_pending_inbound_connection(c, l, r)
    }
    fn handle_established_inbound_connection(
        &mut self,
        c: ConnectionId,
        p: libp2p::PeerId,
        l: &Multiaddr,
        r: &Multiaddr,
    ) -> Result<THandler<Self>, ConnectionDenied> {
        self.inner.handle_established_inbound_connection(c, p, l, r)
    }
    fn handle_pending_outbound_connection(
        &mut self,
        c: ConnectionId,
        p: Option<libp2p::PeerId>,
        a: &[Multiaddr],
        e: Endpoint,
    ) -> Result<Vec<Multiaddr>, ConnectionDenied> {
        self.inner.handle_pending_outbound_connection(c, p, a, e)
    }
    fn handle_established_outbound_connection(
        &mut self,
        c: ConnectionId,
        p: libp2p::PeerId,
        a: &Multiaddr,
        e: Endpoint,
        u: PortUse,
    ) -> Result<THandler<Self>, ConnectionDenied> {
        self.inner
            .handle_established_outbound_connection(c, p, a, e, u)
    }
    fn on_swarm_event(&mut self, e: FromSwarm) {
        self.inner.on_swarm_event(e)
    }
    fn on_connection_handler_event(
        &mut self,
        p: libp2p::PeerId,
        c: ConnectionId,
        e: THandlerOutEvent<Self>,
    ) {
        self.inner.on_connection_handler_event(p, c, e)
    }
    fn poll(
        &mut self,
        cx: &mut std::task::Context<'_>,
    ) -> std::task::Poll<ToSwarm<Self::ToSwarm, THandlerInEvent<Self>>> {
        self.inner.poll(cx)
    }
}
