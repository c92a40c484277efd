//! C16: behaviour is the same for every node size, pointer kind and entry type.

use palmtree::{Shared, SyncShared, Tree64, TreeConfig, Unique};
use palmtree_verif::plain::*;
use palmtree_verif::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::rc::Rc;

struct C16;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ops: Vec<Op>,
    /// over which of the combinations
    combos: Vec<u8>,
}

struct Out {
    peak: usize,
    high: bool,
    class: &'static str,
}

fn go<K: Key, V: Val, C: TreeConfig<K, V> + Sizes>(ops: &[Op], name: &'static str) -> R<Out> {
    let want = perform(ops, K::DOM, V::norm, &mut Plain::new(V::norm));
    let got = match catch(|| perform(ops, K::DOM, V::norm, &mut Tree::<K, V, C>::new())) {
        Ok(t) => t,
        Err(p) => return Err(format!("{}: panic: {}", name, p)),
    };
    differ(ops, &got, &want).map_err(|e| format!("{}: {}", name, e))?;
    Ok(Out { peak: want.peak, high: want.peak > C::L * C::B, class: name })
}

macro_rules! combos {
    ($($k:ty, $v:ty, $c:ty;)*) => {
        const TABLE: &[fn(&[Op]) -> R<Out>] = &[
            $(|ops| go::<$k, $v, $c>(ops, concat!(stringify!($c), " of ", stringify!($k), " to ", stringify!($v)))),*
        ];
    };
}
combos! {
    u32, u32, L4B4<Unique>;
    u32, u32, L4B4<Shared>;
    u32, u32, L4B4<SyncShared>;
    u32, u32, Tree64<Unique>;
    u32, u32, Tree64<Shared>;
    u32, u32, Tree64<SyncShared>;
    u32, String, L5B5<Unique>;
    u32, u32, L5B5<Shared>;
    Rev, u32, L4B5<Unique>;
    Rev, String, L4B5<SyncShared>;
    String, u32, L5B4<Unique>;
    Box<u32>, Box<u32>, L6B4<Unique>;
    Box<u32>, Vec<u32>, L6B4<Shared>;
    u32, Box<u32>, L7B6<Unique>;
    u32, u32, L7B6<Shared>;
    u32, Vec<u32>, L8B8<Unique>;
    u32, Big, L9B7<Unique>;
    Wide, u32, L9B7<SyncShared>;
    Wide, Big, L16B16<Unique>;
    u32, u32, L16B16<Shared>;
    u32, u32, L33B17<Unique>;
    u32, (), L33B17<Shared>;
    u32, u32, L4B64<Unique>;
    u32, u32, L4B64<SyncShared>;
    u32, u32, L64B4<Unique>;
    u32, (), L64B4<Shared>;
    u32, u32, L4B7<Unique>;
    u32, u8, L7B4<Unique>;
    (u8, u64), u8, L11B13<Unique>;
    (u8, u64), (), L11B13<SyncShared>;
    u32, u32, L15B15<Unique>;
    u32, u32, L32B6<Unique>;
    u32, u32, L127B5<Unique>;
    u32, u32, L5B100<Unique>;
    u32, u32, L200B200<Unique>;
    Z, u32, L4B4<Unique>;
    Z, (), L5B5<SyncShared>;
    Z, (), Tree64<Unique>;
    u8, u32, L4B4<Unique>;
    u8, (), L5B4<Shared>;
    u32, (), L4B4<Unique>;
    u32, (), Tree64<Unique>;
    u32, Al, L4B4<Unique>;
    u32, Al, L4B5<Shared>;
    u32, Al, L5B5<SyncShared>;
    u32, Al32, L5B4<Shared>;
    u32, Al32, L4B4<SyncShared>;
    AlKey, u32, L4B4<Unique>;
    AlKey, u8, L4B4<SyncShared>;
    AlKey, Al, L5B4<Shared>;
    u32, AlPage, L4B4<Shared>;
    u8, AlPage, L5B4<SyncShared>;
    u32, Huge, L5B4<Unique>;
    u8, Huge, L4B4<Shared>;
    u32, Option<Rc<u32>>, L4B4<Unique>;
    u32, Option<Rc<u32>>, L5B5<Shared>;
    String, String, Tree64<SyncShared>;
    Wide, Al, Tree64<Unique>;
    u32, u32, L4B300<Unique>;
    u32, String, L300B4<Unique>;
    u32, (), L5B129<Shared>;
    u32, u32, L1000B5<SyncShared>;
    u32, u32, L256B256<Unique>;
    Z, u32, L4B4<Shared>;
    u8, Box<u32>, L4B300<SyncShared>;
}

impl Prop for C16 {
    const ID: &'static str = "C16";
    type Case = Case;
    fn strategy(tier: Tier) -> BoxedStrategy<Case> {
        let n = if tier == Tier::Quick { 14 } else { 40 };
        (ops(n), proptest::collection::vec(0..TABLE.len() as u8, 2..=6)).prop_map(|(ops, combos)| Case { ops, combos }).boxed()
    }
    fn run(case: &Case, st: &mut Stats) -> R {
        let mut done = vec![];
        for c in &case.combos {
            if done.contains(c) {
                continue;
            }
            done.push(*c);
            let o = TABLE[*c as usize](&case.ops)?;
            st.class(o.class);
            st.nontrivial |= o.high && done.len() > 1;
            st.max("entries", o.peak as u64);
            st.class_if(o.high, "three or more levels in some configuration");
        }
        st.add("runs", done.len() as u64);
        Ok(())
    }
}

fn main() {
    palmtree_verif::main::<C16>()
}
