//! Choice of key type, value type and tree configuration by number.

use crate::types::*;
use palmtree::{Shared, SyncShared, Tree64, TreeConfig, Unique};

pub trait Body {
    type Out;
    fn call<K: Key, V: Val, C: TreeConfig<K, V> + Sizes + 'static>(self, max: usize) -> Self::Out;
}

/// The mix most checks run over: small nodes (so that trees are high), odd and unequal sizes, the
/// three pointer kinds, and the stock configuration.
pub fn mix<B: Body>(cfg: u8, b: B) -> B::Out {
    match cfg {
        0 => b.call::<Tag, u32, L4B4<Unique>>(1300),
        1 => b.call::<Tag, Box<u32>, L5B5<Unique>>(1300),
        2 => b.call::<String, String, L4B5<Shared>>(900),
        3 => b.call::<Tag, u32, L6B4<SyncShared>>(1300),
        4 => b.call::<Tag, u32, Tree64<Unique>>(9000),
        _ => b.call::<u8, u32, L4B4<Unique>>(256),
    }
}
pub fn mix_weights() -> proptest::strategy::BoxedStrategy<u8> {
    use proptest::prelude::*;
    prop_oneof![6 => Just(0u8), 3 => Just(1u8), 2 => Just(2u8), 2 => Just(3u8), 1 => Just(4u8), 2 => Just(5u8)].boxed()
}

pub trait BodyCopy {
    type Out;
    /// `D` is another configuration for the same keys and values.
    fn call<K: Key + Copy, V: Val + Copy, C: TreeConfig<K, V> + Sizes + 'static, D: TreeConfig<K, V> + Sizes + 'static>(
        self,
        max: usize,
    ) -> Self::Out;
}
pub fn mix_copy<B: BodyCopy>(cfg: u8, b: B) -> B::Out {
    match cfg {
        0 => b.call::<Tag, u32, L4B4<Unique>, L5B4<Shared>>(1300),
        1 => b.call::<Tag, Big, L5B5<Shared>, L4B4<SyncShared>>(900),
        2 => b.call::<Rev, u32, L4B5<SyncShared>, Tree64<Unique>>(900),
        _ => b.call::<Tag, u32, Tree64<Unique>, Tree64<Shared>>(9000),
    }
}
pub fn mix_copy_weights() -> proptest::strategy::BoxedStrategy<u8> {
    use proptest::prelude::*;
    prop_oneof![6 => Just(0u8), 2 => Just(1u8), 2 => Just(2u8), 1 => Just(3u8)].boxed()
}
