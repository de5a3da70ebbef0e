//! stand-in: names of malachite's network crate that snapchain's own types mention
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct PeerId(pub u64);
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MessageId(pub Vec<u8>);
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Channel { Consensus, ProposalParts, Sync }
pub trait PeerIdExt {}
