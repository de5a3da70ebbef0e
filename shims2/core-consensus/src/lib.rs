//! stand-in: the one data type of malachite's core-consensus that snapchain's validator returns
use informalsystems_malachitebft_core_types::{Context, Round, Validity};
#[derive(Clone, Debug)]
pub struct ProposedValue<C: Context> {
    pub height: C::Height,
    pub round: Round,
    pub valid_round: Round,
    pub proposer: C::Address,
    pub value: C::Value,
    pub validity: Validity,
}
pub struct Params<C>(pub C);
pub struct State<C>(pub C);
