//! stand-in for snapchain's adapter to the malachite engine, which is not part of this sandbox
pub mod network_connector {
    #[derive(Debug)]
    pub enum MalachiteNetworkEvent {}
}
