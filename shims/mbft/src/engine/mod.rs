pub mod consensus {
    use super::host::HostRef;
    use super::network::NetworkRef;
    use super::sync::SyncRef;
    use super::util::events::TxEvent;
    use super::wal::WalRef;
    use crate::codec::Codec;
    use crate::config::TimeoutConfig;
    use crate::core_consensus::SignedConsensusMsg;
    pub use crate::core_consensus::Params as ConsensusParams;
    use crate::core_types::*;
    use crate::engine::util::streaming::StreamMessage;
    use crate::metrics::Metrics;
    use ractor::{async_trait, Actor, ActorProcessingErr, ActorRef};

    pub trait ConsensusCodec<Ctx: Context>:
        Codec<Ctx::ProposalPart>
        + Codec<SignedConsensusMsg<Ctx>>
        + Codec<StreamMessage<Ctx::ProposalPart>>
    {
    }
    impl<Ctx: Context, C> ConsensusCodec<Ctx> for C where
        C: Codec<Ctx::ProposalPart>
            + Codec<SignedConsensusMsg<Ctx>>
            + Codec<StreamMessage<Ctx::ProposalPart>>
    {
    }

    pub enum ConsensusMsg<Ctx: Context> {
        StartHeight(Ctx::Height, Ctx::ValidatorSet),
    }
    impl<Ctx: Context> std::fmt::Debug for ConsensusMsg<Ctx> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            match self {
                ConsensusMsg::StartHeight(h, _) => write!(f, "StartHeight({h})"),
            }
        }
    }
    pub type ConsensusRef<Ctx> = ActorRef<ConsensusMsg<Ctx>>;

    /// Inert: records the heights it was told to start.
    pub struct Consensus<Ctx: Context>(std::marker::PhantomData<Ctx>);
    impl<Ctx: Context> Consensus<Ctx> {
        #[allow(clippy::too_many_arguments)]
        pub async fn spawn(
            _ctx: Ctx,
            _params: ConsensusParams<Ctx>,
            _timeout: TimeoutConfig,
            _signing: Box<dyn SigningProvider<Ctx>>,
            _network: NetworkRef<Ctx>,
            _host: HostRef<Ctx>,
            _wal: WalRef<Ctx>,
            _sync: Option<SyncRef<Ctx>>,
            _metrics: Metrics,
            _tx: TxEvent<Ctx>,
            _span: tracing::Span,
        ) -> Result<ConsensusRef<Ctx>, ractor::SpawnErr> {
            let (r, _) = Actor::spawn(None, Consensus::<Ctx>(std::marker::PhantomData), ()).await?;
            Ok(r)
        }
    }
    #[async_trait]
    impl<Ctx: Context> Actor for Consensus<Ctx> {
        type Msg = ConsensusMsg<Ctx>;
        type State = ();
        type Arguments = ();
        async fn pre_start(
            &self,
            _: ActorRef<Self::Msg>,
            _: (),
        ) -> Result<(), ActorProcessingErr> {
            Ok(())
        }
    }
}

pub mod host {
    use super::consensus::ConsensusRef;
    use super::util::streaming::StreamMessage;
    use crate::core_consensus::{PeerId, ProposedValue};
    use crate::core_types::*;
    use crate::sync::RawDecidedValue;
    use bytes::Bytes;
    use ractor::{ActorRef, RpcReplyPort};
    use std::time::Duration;

    pub type HostRef<Ctx> = ActorRef<HostMsg<Ctx>>;

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct LocallyProposedValue<Ctx: Context> {
        pub height: Ctx::Height,
        pub round: Round,
        pub value: Ctx::Value,
    }
    impl<Ctx: Context> LocallyProposedValue<Ctx> {
        pub fn new(height: Ctx::Height, round: Round, value: Ctx::Value) -> Self {
            Self {
                height,
                round,
                value,
            }
        }
    }
    #[derive(Debug)]
    pub enum VoteExtensionError {
        InvalidSignature,
        InvalidVoteExtension,
    }

    pub enum HostMsg<Ctx: Context> {
        ConsensusReady(ConsensusRef<Ctx>),
        StartedRound {
            height: Ctx::Height,
            round: Round,
            proposer: Ctx::Address,
        },
        GetValue {
            height: Ctx::Height,
            round: Round,
            timeout: Duration,
            reply_to: RpcReplyPort<LocallyProposedValue<Ctx>>,
        },
        ExtendVote {
            height: Ctx::Height,
            round: Round,
            value_id: ValueId<Ctx>,
            reply_to: RpcReplyPort<Option<Ctx::Extension>>,
        },
        VerifyVoteExtension {
            height: Ctx::Height,
            round: Round,
            value_id: ValueId<Ctx>,
            extension: Ctx::Extension,
            reply_to: RpcReplyPort<Result<(), VoteExtensionError>>,
        },
        RestreamValue {
            height: Ctx::Height,
            round: Round,
            valid_round: Round,
            address: Ctx::Address,
            value_id: ValueId<Ctx>,
        },
        GetHistoryMinHeight {
            reply_to: RpcReplyPort<Ctx::Height>,
        },
        ReceivedProposalPart {
            from: PeerId,
            part: StreamMessage<Ctx::ProposalPart>,
            reply_to: RpcReplyPort<ProposedValue<Ctx>>,
        },
        GetValidatorSet {
            height: Ctx::Height,
            reply_to: RpcReplyPort<Ctx::ValidatorSet>,
        },
        Decided {
            certificate: CommitCertificate<Ctx>,
            extensions: Vec<(Ctx::Address, SignedExtension<Ctx>)>,
            consensus: ConsensusRef<Ctx>,
        },
        GetDecidedValue {
            height: Ctx::Height,
            reply_to: RpcReplyPort<Option<RawDecidedValue<Ctx>>>,
        },
        ProcessSyncedValue {
            height: Ctx::Height,
            round: Round,
            validator_address: Ctx::Address,
            value_bytes: Bytes,
            reply_to: RpcReplyPort<ProposedValue<Ctx>>,
        },
        PeerJoined {
            peer_id: PeerId,
        },
        PeerLeft {
            peer_id: PeerId,
        },
    }
}

pub mod network {
    use super::util::output_port::{OutputPort, OutputPortSubscriber};
    use super::util::streaming::StreamMessage;
    use crate::core_consensus::{PeerId, SignedConsensusMsg};
    use crate::core_types::*;
    use crate::network::Event;
    use crate::sync::{InboundRequestId, OutboundRequestId, Request, Response};
    use libp2p::Multiaddr;
    use ractor::{ActorRef, RpcReplyPort};

    pub type NetworkRef<Ctx> = ActorRef<NetworkMsg<Ctx>>;

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Status<Ctx: Context> {
        pub height: Ctx::Height,
        pub history_min_height: Ctx::Height,
    }
    impl<Ctx: Context> Status<Ctx> {
        pub fn new(height: Ctx::Height, history_min_height: Ctx::Height) -> Self {
            Self {
                height,
                history_min_height,
            }
        }
    }

    #[derive(Clone, Debug)]
    pub enum NetworkEvent<Ctx: Context> {
        Listening(Multiaddr),
        PeerConnected(PeerId),
        PeerDisconnected(PeerId),
        Vote(PeerId, SignedVote<Ctx>),
        Proposal(PeerId, SignedProposal<Ctx>),
        ProposalPart(PeerId, StreamMessage<Ctx::ProposalPart>),
        Status(PeerId, Status<Ctx>),
        Request(InboundRequestId, PeerId, Request<Ctx>),
        Response(OutboundRequestId, PeerId, Response<Ctx>),
    }

    pub type Subscriber<Ctx> = Box<dyn OutputPortSubscriber<NetworkEvent<Ctx>>>;
    pub type Port<Ctx> = OutputPort<NetworkEvent<Ctx>>;

    pub enum NetworkMsg<Ctx: Context> {
        Subscribe(Subscriber<Ctx>),
        Publish(SignedConsensusMsg<Ctx>),
        PublishProposalPart(StreamMessage<Ctx::ProposalPart>),
        BroadcastStatus(Status<Ctx>),
        OutgoingRequest(PeerId, Request<Ctx>, RpcReplyPort<OutboundRequestId>),
        OutgoingResponse(InboundRequestId, Response<Ctx>),
        NewEvent(Event),
        GetState { reply: RpcReplyPort<usize> },
    }
}

pub mod sync {
    use super::host::HostRef;
    use super::network::NetworkRef;
    use crate::codec::Codec;
    use crate::core_types::*;
    use crate::sync::{Metrics, Request, Response, Status};
    use ractor::{async_trait, Actor, ActorProcessingErr, ActorRef};
    use std::time::Duration;

    pub trait SyncCodec<Ctx: Context>:
        Codec<Status<Ctx>> + Codec<Request<Ctx>> + Codec<Response<Ctx>>
    {
    }
    impl<Ctx: Context, C> SyncCodec<Ctx> for C where
        C: Codec<Status<Ctx>> + Codec<Request<Ctx>> + Codec<Response<Ctx>>
    {
    }
    #[derive(Debug)]
    pub struct Params {
        pub status_update_interval: Duration,
        pub request_timeout: Duration,
    }
    #[derive(Debug)]
    pub struct SyncMsg<Ctx: Context>(std::marker::PhantomData<Ctx>);
    pub type SyncRef<Ctx> = ActorRef<SyncMsg<Ctx>>;
    pub struct Sync<Ctx: Context>(std::marker::PhantomData<Ctx>);
    impl<Ctx: Context> Sync<Ctx> {
        pub async fn spawn(
            _ctx: Ctx,
            _network: NetworkRef<Ctx>,
            _host: HostRef<Ctx>,
            _params: Params,
            _metrics: Metrics,
            _span: tracing::Span,
        ) -> Result<SyncRef<Ctx>, ractor::SpawnErr> {
            let (r, _) = Actor::spawn(None, Sync::<Ctx>(std::marker::PhantomData), ()).await?;
            Ok(r)
        }
    }
    #[async_trait]
    impl<Ctx: Context> Actor for Sync<Ctx> {
        type Msg = SyncMsg<Ctx>;
        type State = ();
        type Arguments = ();
        async fn pre_start(
            &self,
            _: ActorRef<Self::Msg>,
            _: (),
        ) -> Result<(), ActorProcessingErr> {
            Ok(())
        }
    }
}

pub mod wal {
    use super::consensus::ConsensusCodec;
    use crate::core_types::*;
    use crate::metrics::SharedRegistry;
    use ractor::{async_trait, Actor, ActorProcessingErr, ActorRef};
    use std::path::PathBuf;

    #[derive(Debug)]
    pub struct WalMsg<Ctx: Context>(std::marker::PhantomData<Ctx>);
    pub type WalRef<Ctx> = ActorRef<WalMsg<Ctx>>;
    pub trait WalCodec<Ctx: Context>: ConsensusCodec<Ctx> {}
    impl<Ctx: Context, C> WalCodec<Ctx> for C where C: ConsensusCodec<Ctx> {}
    pub struct Wal<Ctx: Context>(std::marker::PhantomData<Ctx>);
    impl<Ctx: Context> Wal<Ctx> {
        pub async fn spawn<C: WalCodec<Ctx>>(
            _ctx: &Ctx,
            _codec: C,
            _file: PathBuf,
            _registry: SharedRegistry,
            _span: tracing::Span,
        ) -> Result<WalRef<Ctx>, ractor::SpawnErr> {
            let (r, _) = Actor::spawn(None, Wal::<Ctx>(std::marker::PhantomData), ()).await?;
            Ok(r)
        }
    }
    #[async_trait]
    impl<Ctx: Context> Actor for Wal<Ctx> {
        type Msg = WalMsg<Ctx>;
        type State = ();
        type Arguments = ();
        async fn pre_start(
            &self,
            _: ActorRef<Self::Msg>,
            _: (),
        ) -> Result<(), ActorProcessingErr> {
            Ok(())
        }
    }
}

pub mod util {
    pub mod events {
        pub struct TxEvent<Ctx>(std::marker::PhantomData<Ctx>);
        impl<Ctx> TxEvent<Ctx> {
            #[allow(clippy::new_without_default)]
            pub fn new() -> Self {
                TxEvent(std::marker::PhantomData)
            }
        }
        impl<Ctx> Clone for TxEvent<Ctx> {
            fn clone(&self) -> Self {
                Self::new()
            }
        }
    }

    pub mod output_port {
        use ractor::{ActorRef, Message};
        use std::sync::Mutex;

        type Sink<T> = Box<dyn Fn(T) -> bool + Send + Sync>;
        /// Delivers synchronously to each subscriber's mailbox.
        pub struct OutputPort<T> {
            subs: Mutex<Vec<Sink<T>>>,
        }
        impl<T: Clone + Send + 'static> OutputPort<T> {
            pub fn with_capacity(_: usize) -> Self {
                OutputPort {
                    subs: Mutex::new(vec![]),
                }
            }
            pub fn send(&self, t: T) {
                self.subs.lock().unwrap().retain(|s| s(t.clone()));
            }
            pub fn add(&self, s: Sink<T>) {
                self.subs.lock().unwrap().push(s);
            }
        }
        pub trait OutputPortSubscriber<T>: Send + 'static {
            fn subscribe_to_port(&self, port: &OutputPort<T>);
        }
        impl<T, M> OutputPortSubscriber<T> for ActorRef<M>
        where
            T: Clone + Send + 'static,
            M: Message + From<T>,
        {
            fn subscribe_to_port(&self, port: &OutputPort<T>) {
                let me = self.clone();
                port.add(Box::new(move |t| me.cast(M::from(t)).is_ok()));
            }
        }
    }

    pub mod streaming {
        use bytes::Bytes;
        use std::fmt;
        pub type Sequence = u64;
        #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct StreamId(Bytes);
        impl StreamId {
            pub fn new(b: Bytes) -> Self {
                StreamId(b)
            }
            pub fn to_bytes(&self) -> Bytes {
                self.0.clone()
            }
        }
        impl fmt::Display for StreamId {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                for b in self.0.iter() {
                    write!(f, "{:02x}", b)?;
                }
                Ok(())
            }
        }
        impl fmt::Debug for StreamId {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                fmt::Display::fmt(self, f)
            }
        }
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub enum StreamContent<T> {
            Data(T),
            Fin,
        }
        impl<T> StreamContent<T> {
            pub fn as_data(&self) -> Option<&T> {
                match self {
                    StreamContent::Data(d) => Some(d),
                    StreamContent::Fin => None,
                }
            }
        }
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct StreamMessage<T> {
            pub stream_id: StreamId,
            pub sequence: Sequence,
            pub content: StreamContent<T>,
        }
        impl<T> StreamMessage<T> {
            pub fn new(stream_id: StreamId, sequence: Sequence, content: StreamContent<T>) -> Self {
                Self {
                    stream_id,
                    sequence,
                    content,
                }
            }
        }
    }

    pub mod ticker {
        use ractor::{ActorRef, Message};
        use std::time::Duration;
        pub async fn ticker<M: Message>(
            interval: Duration,
            target: ActorRef<M>,
            msg: impl Fn() -> M + Send + 'static,
        ) {
            loop {
                tokio::time::sleep(interval).await;
                if target.cast(msg()).is_err() {
                    break;
                }
            }
        }
    }

    pub mod timers {
        use ractor::{ActorRef, Message};
        use std::collections::HashMap;
        use std::fmt::Debug;
        use std::hash::Hash;
        use std::time::Duration;
        use tokio::task::JoinHandle;

        #[derive(Clone, Debug)]
        pub struct TimeoutElapsed<Key> {
            key: Key,
            generation: u64,
        }
        pub trait Sender<T>: Send + Sync + 'static {
            fn send(&self, t: T);
            fn dup(&self) -> Box<dyn Sender<T>>;
        }
        impl<T, M> Sender<T> for ActorRef<M>
        where
            T: Send + 'static,
            M: Message + From<T>,
        {
            fn send(&self, t: T) {
                let _ = self.cast(M::from(t));
            }
            fn dup(&self) -> Box<dyn Sender<T>> {
                Box::new(self.clone())
            }
        }
        pub struct TimerScheduler<Key: Send + 'static> {
            to: Box<dyn Sender<TimeoutElapsed<Key>>>,
            timers: HashMap<Key, (u64, JoinHandle<()>)>,
            generation: u64,
        }
        impl<Key> TimerScheduler<Key>
        where
            Key: Clone + Eq + Hash + Send + Sync + Debug + 'static,
        {
            pub fn new(to: Box<dyn Sender<TimeoutElapsed<Key>>>) -> Self {
                TimerScheduler {
                    to,
                    timers: HashMap::new(),
                    generation: 0,
                }
            }
            pub fn start_timer(&mut self, key: Key, d: Duration) {
                self.cancel(&key);
                self.generation += 1;
                let generation = self.generation;
                let to = self.to.dup();
                let k = key.clone();
                let h = tokio::spawn(async move {
                    tokio::time::sleep(d).await;
                    to.send(TimeoutElapsed { key: k, generation });
                });
                self.timers.insert(key, (generation, h));
            }
            pub fn cancel(&mut self, key: &Key) {
                if let Some((_, h)) = self.timers.remove(key) {
                    h.abort();
                }
            }
            pub fn intercept_timer_msg(&mut self, t: TimeoutElapsed<Key>) -> Option<Key> {
                match self.timers.get(&t.key) {
                    Some((g, _)) if *g == t.generation => {
                        self.timers.remove(&t.key);
                        Some(t.key)
                    }
                    _ => None,
                }
            }
        }
    }
}
