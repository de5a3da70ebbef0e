//! A stand-in for the malachite core types that snapchain's own code is written against: the data types
//! and traits, with the same names, members and (for Round, NilOrVal, ThresholdParam) the same arithmetic.
use std::fmt::{self, Debug, Display};
use std::hash::Hash;

pub type VotingPower = u64;

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Round {
    Nil,
    Some(u32),
}
impl Round {
    pub const ZERO: Round = Round::new(0);
    pub const fn new(round: u32) -> Self {
        Round::Some(round)
    }
    pub fn as_i64(&self) -> i64 {
        match self {
            Round::Nil => -1,
            Round::Some(r) => i64::from(*r),
        }
    }
    pub fn as_u32(&self) -> Option<u32> {
        match self {
            Round::Nil => None,
            Round::Some(r) => Some(*r),
        }
    }
    pub fn is_defined(&self) -> bool {
        matches!(self, Round::Some(_))
    }
    pub fn is_nil(&self) -> bool {
        matches!(self, Round::Nil)
    }
    pub fn increment(&self) -> Round {
        match self {
            Round::Nil => Round::new(0),
            Round::Some(r) => Round::new(r + 1),
        }
    }
}
impl From<u32> for Round {
    fn from(r: u32) -> Self {
        Round::new(r)
    }
}
impl From<i64> for Round {
    fn from(r: i64) -> Self {
        if r < 0 {
            Round::Nil
        } else {
            Round::Some(r as u32)
        }
    }
}
impl Display for Round {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Display::fmt(&self.as_i64(), f)
    }
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum NilOrVal<V> {
    Nil,
    Val(V),
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Validity {
    Valid,
    Invalid,
}
impl Validity {
    pub fn is_valid(self) -> bool {
        self == Validity::Valid
    }
    pub fn from_bool(v: bool) -> Self {
        if v {
            Validity::Valid
        } else {
            Validity::Invalid
        }
    }
    pub fn to_bool(self) -> bool {
        self == Validity::Valid
    }
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum VoteType {
    Prevote,
    Precommit,
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct ThresholdParam {
    pub numerator: u64,
    pub denominator: u64,
}
impl ThresholdParam {
    pub const F_PLUS_ONE: Self = Self::new(1, 3);
    pub const TWO_F_PLUS_ONE: Self = Self::new(2, 3);
    pub const fn new(numerator: u64, denominator: u64) -> Self {
        Self { numerator, denominator }
    }
    /// strictly more than numerator/denominator of the total
    pub fn is_met(&self, weight: VotingPower, total: VotingPower) -> bool {
        let lhs = weight.checked_mul(self.denominator);
        let rhs = total.checked_mul(self.numerator);
        match (lhs, rhs) {
            (Some(l), Some(r)) => l > r,
            _ => panic!("attempt to multiply with overflow"),
        }
    }
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct ThresholdParams {
    pub quorum: ThresholdParam,
    pub honest: ThresholdParam,
}
impl Default for ThresholdParams {
    fn default() -> Self {
        Self { quorum: ThresholdParam::TWO_F_PLUS_ONE, honest: ThresholdParam::F_PLUS_ONE }
    }
}

pub trait Height: Default + Copy + Clone + Debug + Display + PartialEq + Eq + PartialOrd + Ord + Send + Sync {
    const ZERO: Self;
    const INITIAL: Self;
    fn increment(&self) -> Self {
        self.increment_by(1)
    }
    fn increment_by(&self, n: u64) -> Self;
    fn decrement(&self) -> Option<Self> {
        self.decrement_by(1)
    }
    fn decrement_by(&self, n: u64) -> Option<Self>;
    fn as_u64(&self) -> u64;
}
pub trait Value: Clone + Debug + PartialEq + Eq + PartialOrd + Ord + Send + Sync {
    type Id: Clone + Debug + Eq + Ord + Send + Sync;
    fn id(&self) -> Self::Id;
}
pub trait Address: Clone + Debug + Display + Eq + Ord + Send + Sync {}

pub trait SigningScheme: Clone + Debug + Eq {
    type DecodingError: Display;
    type Signature: Clone + Debug + Eq + Ord + Send + Sync;
    type PublicKey: Clone + Debug + Eq + Send + Sync;
    type PrivateKey: Clone + Send + Sync;
    fn decode_signature(bytes: &[u8]) -> Result<Self::Signature, Self::DecodingError>;
    fn encode_signature(signature: &Self::Signature) -> Vec<u8>;
}
pub type Signature<C> = <<C as Context>::SigningScheme as SigningScheme>::Signature;
pub type PublicKey<C> = <<C as Context>::SigningScheme as SigningScheme>::PublicKey;
pub type PrivateKey<C> = <<C as Context>::SigningScheme as SigningScheme>::PrivateKey;
pub type ValueId<C> = <<C as Context>::Value as Value>::Id;

pub trait Extension: Clone + Debug + Eq + Send + Sync {
    fn size_bytes(&self) -> usize;
}
impl Extension for () {
    fn size_bytes(&self) -> usize {
        0
    }
}

pub trait Context: Sized + Clone + Send + Sync {
    type Address: Address;
    type Height: Height;
    type ProposalPart: ProposalPart<Self>;
    type Proposal: Proposal<Self>;
    type Validator: Validator<Self>;
    type ValidatorSet: ValidatorSet<Self>;
    type Value: Value;
    type Vote: Vote<Self>;
    type Extension: Extension;
    type SigningScheme: SigningScheme;
    fn select_proposer<'a>(&self, validator_set: &'a Self::ValidatorSet, height: Self::Height, round: Round) -> &'a Self::Validator;
    fn new_proposal(height: Self::Height, round: Round, value: Self::Value, pol_round: Round, address: Self::Address) -> Self::Proposal;
    fn new_prevote(height: Self::Height, round: Round, value_id: NilOrVal<ValueId<Self>>, address: Self::Address) -> Self::Vote;
    fn new_precommit(height: Self::Height, round: Round, value_id: NilOrVal<ValueId<Self>>, address: Self::Address) -> Self::Vote;
}
pub trait ProposalPart<C: Context>: Clone + Debug + Eq + Send + Sync {
    fn is_first(&self) -> bool;
    fn is_last(&self) -> bool;
}
pub trait Proposal<C: Context>: Clone + Debug + Eq + Send + Sync {
    fn height(&self) -> C::Height;
    fn round(&self) -> Round;
    fn value(&self) -> &C::Value;
    fn take_value(self) -> C::Value;
    fn pol_round(&self) -> Round;
    fn validator_address(&self) -> &C::Address;
}
pub trait Vote<C: Context>: Clone + Debug + Eq + Ord + Send + Sync {
    fn height(&self) -> C::Height;
    fn round(&self) -> Round;
    fn value(&self) -> &NilOrVal<ValueId<C>>;
    fn take_value(self) -> NilOrVal<ValueId<C>>;
    fn vote_type(&self) -> VoteType;
    fn validator_address(&self) -> &C::Address;
    fn extension(&self) -> Option<&SignedMessage<C, C::Extension>>;
    fn take_extension(&mut self) -> Option<SignedExtension<C>>;
    fn extend(self, extension: SignedMessage<C, C::Extension>) -> Self;
}
pub trait Validator<C: Context>: Clone + Debug + PartialEq + Eq + Send + Sync {
    fn address(&self) -> &C::Address;
    fn public_key(&self) -> &PublicKey<C>;
    fn voting_power(&self) -> VotingPower;
}
pub trait ValidatorSet<C: Context>: Clone + Debug + Send + Sync {
    fn count(&self) -> usize;
    fn total_voting_power(&self) -> VotingPower;
    fn get_by_address(&self, address: &C::Address) -> Option<&C::Validator>;
    fn get_by_index(&self, index: usize) -> Option<&C::Validator>;
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct SignedMessage<C: Context, M> {
    pub message: M,
    pub signature: Signature<C>,
}
impl<C: Context, M> SignedMessage<C, M> {
    pub fn new(message: M, signature: Signature<C>) -> Self {
        Self { message, signature }
    }
}
impl<C: Context, M> std::ops::Deref for SignedMessage<C, M> {
    type Target = M;
    fn deref(&self) -> &M {
        &self.message
    }
}
pub type SignedVote<C> = SignedMessage<C, <C as Context>::Vote>;
pub type SignedProposal<C> = SignedMessage<C, <C as Context>::Proposal>;
pub type SignedProposalPart<C> = SignedMessage<C, <C as Context>::ProposalPart>;
pub type SignedExtension<C> = SignedMessage<C, <C as Context>::Extension>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CommitSignature<C: Context> {
    pub address: C::Address,
    pub signature: Signature<C>,
}
impl<C: Context> CommitSignature<C> {
    pub fn new(address: C::Address, signature: Signature<C>) -> Self {
        Self { address, signature }
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct AggregatedSignature<C: Context> {
    pub signatures: Vec<CommitSignature<C>>,
}
impl<C: Context> AggregatedSignature<C> {
    pub fn new(signatures: Vec<CommitSignature<C>>) -> Self {
        Self { signatures }
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CommitCertificate<C: Context> {
    pub height: C::Height,
    pub round: Round,
    pub value_id: ValueId<C>,
    pub aggregated_signature: AggregatedSignature<C>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum CertificateError<C: Context> {
    InvalidSignature(CommitSignature<C>),
    UnknownValidator(C::Address),
}

pub trait SigningProvider<C: Context> {
    fn sign_vote(&self, vote: C::Vote) -> SignedMessage<C, C::Vote>;
    fn verify_signed_vote(&self, vote: &C::Vote, signature: &Signature<C>, public_key: &PublicKey<C>) -> bool;
    fn sign_proposal(&self, proposal: C::Proposal) -> SignedMessage<C, C::Proposal>;
    fn verify_signed_proposal(&self, proposal: &C::Proposal, signature: &Signature<C>, public_key: &PublicKey<C>) -> bool;
    fn sign_proposal_part(&self, part: C::ProposalPart) -> SignedMessage<C, C::ProposalPart>;
    fn verify_signed_proposal_part(&self, part: &C::ProposalPart, signature: &Signature<C>, public_key: &PublicKey<C>) -> bool;
    fn sign_vote_extension(&self, extension: C::Extension) -> SignedMessage<C, C::Extension>;
    fn verify_signed_vote_extension(&self, extension: &C::Extension, signature: &Signature<C>, public_key: &PublicKey<C>) -> bool;
    fn verify_commit_signature(&self, certificate: &CommitCertificate<C>, commit_sig: &CommitSignature<C>, validator: &C::Validator) -> Result<VotingPower, CertificateError<C>>;
}
