//! The fixed-seed maps of bevy_utils 0.9.
use std::hash::BuildHasher;

pub use hashbrown;

#[derive(Clone, Copy, Default, Debug)]
pub struct FixedState;

impl BuildHasher for FixedState {
    type Hasher = ahash::AHasher;
    fn build_hasher(&self) -> ahash::AHasher {
        ahash::RandomState::with_seeds(
            0b1001010111101110000001001100010000000011001001101011001001111000,
            0b1100111101101011011110001011010100000100001111100011010011010101,
            0x1234_5678_9abc_def1,
            0xfedc_ba98_7654_3210,
        )
        .build_hasher()
    }
}

pub type StableHashMap<K, V> = hashbrown::HashMap<K, V, FixedState>;
pub type StableHashSet<K> = hashbrown::HashSet<K, FixedState>;
