//! The items of solana-runtime 1.18 that the snapshot reader uses.
pub mod snapshot_utils {
    pub const SNAPSHOT_STATUS_CACHE_FILENAME: &str = "status_cache";
}
pub mod epoch_stakes {
    #[derive(Clone, Default, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
    pub struct EpochStakes(pub u64);
}
pub mod stakes {
    #[derive(Clone, Default, Debug, serde::Serialize, serde::Deserialize)]
    pub struct Stakes<T>(pub u64, pub std::marker::PhantomData<T>);
}
