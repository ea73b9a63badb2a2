use crate::core_types::*;
pub use crate::network::PeerId;
use std::fmt::Debug;

#[derive(Clone, Debug)]
pub enum SignedConsensusMsg<Ctx: Context> {
    Vote(SignedVote<Ctx>),
    Proposal(SignedProposal<Ctx>),
}
impl<Ctx: Context> SignedConsensusMsg<Ctx> {
    pub fn signature(&self) -> &Signature<Ctx> {
        match self {
            SignedConsensusMsg::Vote(v) => &v.signature,
            SignedConsensusMsg::Proposal(p) => &p.signature,
        }
    }
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum ValuePayload {
    ProposalOnly,
    PartsOnly,
    ProposalAndParts,
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum VoteSyncMode {
    RequestResponse,
    Rebroadcast,
}
#[derive(Clone, Debug)]
pub struct Params<Ctx: Context> {
    pub initial_height: Ctx::Height,
    pub initial_validator_set: Ctx::ValidatorSet,
    pub address: Ctx::Address,
    pub threshold_params: ThresholdParams,
    pub value_payload: ValuePayload,
    pub vote_sync_mode: VoteSyncMode,
}
pub struct State<Ctx: Context> {
    pub params: Params<Ctx>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ProposedValue<Ctx: Context> {
    pub height: Ctx::Height,
    pub round: Round,
    pub valid_round: Round,
    pub proposer: Ctx::Address,
    pub value: Ctx::Value,
    pub validity: Validity,
}
