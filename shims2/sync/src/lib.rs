//! stand-in: the data types of malachite's sync crate that snapchain's own code handles
use bytes::Bytes;
use informalsystems_malachitebft_core_types::{CommitCertificate, Context};
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RawDecidedValue<C: Context> {
    pub certificate: CommitCertificate<C>,
    pub value_bytes: Bytes,
}
#[derive(Clone, Debug)]
pub struct ValueRequest<C: Context> {
    pub height: C::Height,
}
#[derive(Clone, Debug)]
pub struct VoteSetRequest<C: Context> {
    pub height: C::Height,
}
#[derive(Clone, Debug)]
pub struct ValueResponse<C: Context> {
    pub height: C::Height,
    pub value: Option<RawDecidedValue<C>>,
}
#[derive(Clone, Debug)]
pub struct VoteSetResponse<C: Context> {
    pub height: C::Height,
}
#[derive(Clone, Debug)]
pub enum Request<C: Context> {
    ValueRequest(ValueRequest<C>),
    VoteSetRequest(VoteSetRequest<C>),
}
#[derive(Clone, Debug)]
pub enum Response<C: Context> {
    ValueResponse(ValueResponse<C>),
    VoteSetResponse(VoteSetResponse<C>),
}
#[derive(Clone, Debug)]
pub struct Status<C: Context> {
    pub height: C::Height,
    pub history_min_height: C::Height,
}
